prop('C01', 'The edit script turns the old tree into exactly the new tree',
 'For any two trees whose roots can stand for each other (same kind, properties at least as similar as the threshold), applying the edit script to the old tree (delete the deleted nodes; give every inserted or moved node the parent and sibling position its operation names; leave every other node where it was; then set the named texts and properties) yields exactly the new tree: same shape, kinds, texts and properties, every sibling position filled once. Content strictly inside opaque nodes is excluded, since the caller handles it. Nothing in the old tree that is not in the new one survives, and nothing in the new one is missing.',
 ['inputs','configurations'], 'every pair of ordered labelled trees, every matching configuration, every legal similarity function, every placement of opaque nodes',
 'Tests check a dozen hand-made pairs and mostly only count operations; none applies a script and compares the result, and the failures live in unusual combinations of moves out of deleted parents into inserted ones.',
 [C, M, L], [('edit script phases', C+': generate_edit_script'), ('matching', M+': compute_matching')], ['diff_trees_with_matching() result'])
prop('C02', 'The node matching is a one-to-one correspondence between the two trees',
 'The matching computed for any two trees pairs each node of the old tree with at most one node of the new tree and vice versa, every paired node belongs to its tree, and both lookup directions, the membership tests, the pair listing and the count all describe the same set of pairs. This holds whatever the hashes, kinds, similarities, opacity flags and configuration are, including colliding hashes.',
 ['inputs','configurations'], 'all tree pairs, arbitrary (even colliding) hashes, all thresholds and minimum heights',
 'A double match needs several same-hash or same-kind nodes competing across the phases; tests build two or three nodes and look up single pairs.',
 [M], [('already-matched guards in every phase', M+': top_down_phase, match_subtrees, bottom_up_phase'), ('bidirectional map', M+': Matching::add')], ['Matching'])
prop('C03', 'Only nodes of the same kind are ever matched',
 'For any two trees whose structural hashes identify equal subtrees only, every matched pair has the same kind; a node that changes kind is deleted and inserted, never reused. This holds for every phase of the matching, at every depth and for opaque nodes.',
 ['inputs','configurations'], 'all tree pairs with collision-free structural hashes; all configurations',
 'The kind test is repeated in several branches, each guarding a different candidate source; tests never put a same-hash or same-position node of another kind next to a real candidate in each of them.',
 [M], [('kind comparisons per candidate source', M)], ['Matching::pairs'])
prop('C04', 'Identical trees match completely and need no edits',
 'Diffing a tree against an equal copy of itself pairs every node with its own copy (everything outside opaque nodes; at least the opaque nodes themselves) and produces an empty edit script, whatever the tree, its duplicated subtrees and the matching configuration, provided a node counts as similar to itself (similarity to itself reaches the threshold). A page that did not change is therefore never touched.',
 ['inputs','configurations'], 'every tree, every placement of opaque nodes, every threshold and minimum height',
 'Tests use two- to three-node trees with distinct labels and the default configuration; repeated equal siblings and leaf-only or below-minimum-height trees take other code paths.',
 [M, C], [('top-down isomorphism', M+': top_down_phase, match_subtrees'), ('position-preferring leaf match', M+': bottom_up_phase')], ['diff_trees_with_matching() result'])
prop('C05', 'Opaque subtrees are atomic: no edit reaches inside them',
 'No operation of any edit script inserts, deletes, moves or updates a node that lies strictly inside an opaque node, on either side, and no inserted or moved node is given a parent that is opaque or inside one; nodes of the old tree inside opaque nodes are never matched. This holds even if a node is opaque on one side only. The nodes outside are still edited so that the script produces the new tree up to the content of opaque nodes.',
 ['inputs','configurations'], 'all tree pairs, all subsets of opaque nodes on either side, all depths',
 'Five tests mark a single div under the root; opacity decided on only one side, nested opaque nodes, and equal hashes crossing an opaque border are never combined.',
 [M, C], [('opaque descendant sets', C+': generate_edit_script'), ('opaque cut-offs', M+': top_down_phase, match_subtrees, bottom_up_phase')], ['edit operations'])
prop('C06', 'Text and property updates are exact',
 'A matched pair outside opaque regions gets a text update if and only if the new node has a text that differs from the old one, carrying exactly the new text, and a property update if and only if some property was added, changed or removed (merely listing the same properties in another order is no change), carrying the complete final property list in the new order. No node gets more than one of each and unmatched nodes get none.',
 ['inputs'], 'all pairs of texts (present or absent) and property sets on all matched nodes',
 'Removal-only, reorder, equal-count replace and absent-versus-empty text are separate cases of a compact condition; tests cover a few property sets on one node.',
 [C], [('phase 1', C+': generate_edit_script')], ['EditOp::SetText, EditOp::UpdateProperties'])
prop('C07', 'The script contains no unnecessary operation',
 'A node is inserted exactly if it is new, deleted exactly if it has no counterpart, and moved exactly if its counterpart has another parent or another sibling position, each at most once. Nodes that keep parent, position, text and properties are not mentioned by any operation.',
 ['inputs','configurations'], 'all tree pairs and matchings produced for them',
 'Existing tests assert presence of one expected operation; spurious or duplicated ones need several nodes moving together.',
 [C], [('phases 2-5', C+': generate_edit_script')], ['edit operations'])
prop('C08', 'Edit operations come in an order that can be replayed',
 'In every edit script a node is inserted before anything is inserted under it, all insertions precede all moves and all moves precede all deletions, and a node is deleted only after every deleted node below it. Replaying front to back therefore never refers to a parent that does not exist yet and never deletes content that is still to be moved out.',
 ['inputs','configurations'], 'all tree pairs at all depths',
 'Ordering only matters with nested insertions or deletions plus moves across them; tests look at operations individually.',
 [C, T], [('breadth/pre-order insertion, post-order deletion', C+': generate_edit_script'), ('post-order iterator', T+': PostOrderIter')], ['order of edit operations'])
prop('C09', 'Nodes less similar than the threshold are never matched',
 'Two nodes are matched only if their subtrees have the same hash, or one of them is opaque and they have the same kind, or their property similarity reaches the configured threshold. This holds for every threshold value, every similarity function with values in [0,1] and every phase, so elements a caller declares incompatible are never turned into one another.',
 ['inputs','configurations'], 'all tree pairs, all similarity functions into [0,1], all thresholds',
 'The similarity test is repeated in four branches with mixed comparison directions; tests use property-less nodes whose similarity is constantly one.',
 [M], [('similarity >= threshold guards', M+': bottom_up_phase')], ['Matching::pairs'])
prop('C10', 'Diffing is deterministic',
 'Diffing the same two trees with the same configuration always gives the same matching (including the listing order of pairs) and the same edit script operation for operation, independent of hash-map seeding and of earlier diffs in the process. Server and client, or two renders, never see different patches for the same pages.',
 ['inputs','histories'], 'all tree pairs; every hash seed; any previously executed diffs',
 'A test process runs each diff once; iteration-order dependence shows up only for some seeds and some trees.',
 [M, C], [('ordered iteration only', M), ('hash sets used for membership only', C)], ['diff_trees_with_matching() result'])
prop('C11', 'The tree structure reports its own shape consistently',
 'For every sequence of child additions, parent, children, child count, sibling position, height, node count, whole-tree, subtree and post-order traversals all describe the one ordered tree that was built: positions number the children in insertion order, height is the longest downward path, traversals visit every node exactly once with parents before children (children before parents in post-order), and node data is returned unchanged.',
 ['histories'], 'every sequence of add-child calls on every already present node, and every node queried afterwards',
 'Two tests build one fixed tree each; traversal and position errors need particular shapes.',
 [T], [('arena wrapper', T+': Tree'), ('post-order iterator', T+': PostOrderIter'), ('default trait methods', T+': DiffTree')], ['Tree and DiffTree methods'])
prop('C12', 'A matching behaves as a two-way lookup table under any history',
 'After any sequence of pair registrations on a matching, however it was created or pre-sized, looking up a node on either side returns the partner most recently registered for it, unregistered nodes are reported absent rather than panicking, the pair listing repeats the registrations in order and the count and emptiness agree with it.',
 ['histories'], 'every sequence of add calls with arbitrary node ids, every capacity, every lookup',
 'Node ids beyond the pre-sized range and growth in only one direction are never exercised by the tests.',
 [M], [('growing index vectors', M+': Matching')], ['Matching API'])
prop('C13', 'Diffing never panics or runs away, whatever the input',
 'For every pair of trees (down to single nodes, of any shape), arbitrary hashes including collisions, any opacity flags, any similarity values and any configuration including zero, huge and not-a-number thresholds and minimum heights, computing the matching and the edit script terminates without panic, overflow or out-of-bounds access. Operation counts stay within one insertion per new node, one deletion per old node and three operations per pair.',
 ['inputs','configurations'], 'all tree pairs, all hash assignments, all configurations',
 'Tests stay on well-formed Merkle hashes and default configuration.',
 [M, C, T], [('guards and unwraps', M), ('index arithmetic', M+': Matching::add')], ['diff_trees_with_matching()'])
prop('C14', 'The result depends only on the trees, not on node ids or hash values',
 'Two trees that are equal node for node but were built in another order (so that node ids differ) and whose hashes and kinds were consistently renamed give corresponding matchings and the same edit script up to that renaming. Only the equality of hashes and kinds and the tree structure matter.',
 ['inputs','histories'], 'all tree pairs; all construction orders; all injective renamings of hashes and kinds',
 'Metamorphic relation between two runs; no test compares runs.',
 [M, C, T], [('ids used as keys only', M)], ['diff_trees_with_matching() result'])
prop('C15', 'Content that did not change is kept',
 'Content (a subtree at least as high as the minimum height) that occurs exactly once in each of two trees without opaque nodes, at the same depth and below elements of the same kinds all the way up, is recognised: the old and the new one are matched with each other, so it is never deleted and inserted anew, whatever changes around it and wherever its parents\' children moved.',
 ['inputs','configurations'], 'all tree pairs, all minimum heights and thresholds',
 'Tests keep a subtree next to one change; whether it survives depends on the order in which competing candidates are tried.',
 [M], [('candidates of the top-down phase', M+': top_down_phase'), ('isomorphic subtrees', M+': match_subtrees')], ['Matching'])
prop('C16', 'A change in one place is one edit',
 'If two trees differ in one place only - a new text, other property values on one node that stays similar enough, a leaf with a new text appended to any node, or a last child taken away - and no subtree of at least the minimum height occurs twice in either, the script is exactly that edit: one text update, one property update, one insertion, or the deletion of the nodes taken away, and nothing else is touched.',
 ['inputs','configurations'], 'all trees, all places, all minimum heights and thresholds',
 'Tests change one node of small fixed trees; deep, wide and repetitive trees take other paths through the matching.',
 [M, C], [('position before hash', M+': bottom_up_phase'), ('script phases', C+': generate_edit_script')], ['diff_trees_with_matching() result'])
W='hotmeal-wasm/src/lib.rs'
prop('H01', 'Patching the old page with the diff yields the new page',
 'For any two pages, with any SVG, MathML or opaque elements in them, with or without a body on either side, the diff succeeds, applying its patches to the old page succeeds, and the body is then equal to the new body: element names and namespaces, attributes with values and order, text, comments, nesting and order, whatever moved, was inserted or was removed.',
 ['inputs'], 'all pairs of pages as a parser builds them',
 'Snapshot and fuzz tests sample pages; slot bookkeeping fails only for specific combinations of moves, inserts and deletes.',
 [D, DOM, M, C], [('shadow tree conversion', D+': convert_ops_with_shadow'), ('patch application', D+': apply_patches')], ['diff(), Document::apply_patches()'])
prop('H02', 'Diffing equal pages yields no patches',
 'For any page, the diff of the page against an equal page, built in any order, is empty.',
 ['inputs'], 'all pages',
 'Sampled by a few snapshot tests.',
 [D, M, C], [('matching and shadow conversion', D)], ['diff()'])
prop('H03', 'Attribute updates reproduce the exact attribute list',
 'After applying the patches to the old page, every element has exactly the attributes of the new page, in the new order, with the new values: removed attributes are gone and unchanged values are kept. Setting and removing single attributes, directly or by patch, changes that attribute only, and keeps the order of the others.',
 ['inputs', 'histories'], 'all attribute lists of elements: additions, removals, changes, reorderings, same local names in different namespaces; all histories of edits',
 'Combinations of simultaneous add, remove, reorder and change are sampled only.',
 [D, DOM], [('property diff', D), ('UpdateProps application', D), ('attribute access', DOM)], ['apply_patches(), set_attr(), remove_attr()'])
prop('H04', 'Serialised text and attribute values cannot break out of their place',
 'Serialising a document escapes text and attribute values so that whatever characters they contain, the markup read back by an HTML parser has the same text, attribute values and structure; raw-text elements, void elements and comments follow the HTML rules in HTML content only, and the doctype is kept.',
 ['inputs'], 'all strings in text, attribute and comment positions that a parser could have put there, in all kinds of elements',
 'Escaping is per character and element; tests use a few strings.',
 [DOM], [('escaping', DOM)], ['to_html()'])
prop('H05', 'Borrowed and owned strings are indistinguishable',
 'A string value behaves the same whether it borrows from the source or owns its content: equality, hashing, length and conversion depend only on the characters; appending gives exactly the concatenation and leaves copies alone. Making patches independent of their source does not change them.',
 ['inputs','histories'], 'all contents in all representations, all patches a diff produces',
 'Tests compare a handful of strings.',
 [ST, D], [('representation switch', ST), ('into_owned', D)], ['Stem API, Patch::into_owned()'])
prop('H06', 'The parser callbacks build the tree they describe',
 'Whatever sequence of tree construction callbacks a parser issues, the document has the corresponding structure: adjacent text is merged into one node, content goes in front of the named sibling, foster-parented content goes in front of the table if that is in the page and else into the element before it, reparenting keeps child order, removed nodes disappear, attributes are added only when missing, and the document root is the root element even behind comments.',
 ['histories'], 'all callback sequences the tree-construction contract allows',
 'Only reached through complete HTML inputs in tests.',
 [DOM], [('tree sink', DOM)], ['parse()'])
prop('H07', 'The inside of opaque elements stays untouched, and changes to it are reported',
 'No patch of a diff but the report of changed opaque content reaches into an element that is opaque in both pages, wherever that element moves: nothing inside is inserted, removed, moved, changed, or used as a target. An element that is opaque in the new page and was in the old one gets such a report with the new content exactly if its content changed; elements that stop being opaque end up with the new content.',
 ['inputs'], 'all pairs of pages with any elements opaque on either side',
 'Tests have single opaque elements in fixed places.',
 [D, M, C], [('opaque handling', D+': diff'), ('reports behind the other patches', D+': convert_ops_with_shadow')], ['diff(), patches applied one by one'])
prop('H08', 'Patches for successive versions apply one after the other',
 'For any three versions of a page, a page that was patched from the first to the second version takes the patches from the second to the third, and is then equal to the third: patching leaves nothing behind that a parsed page would not have.',
 ['inputs', 'histories'], 'all triples of pages',
 'Tests apply one diff to a freshly parsed page.',
 [D, DOM], [('placeholders', D+': apply_patches'), ('slots', D)], ['diff(), apply_patches() repeatedly'])
prop('H09', 'The parser gets the page itself, with a doctype and a body only where they are missing',
 'Whatever the page, the parser is given exactly its text: a page whose doctype comes first, but for white space, comments, declarations and a byte order mark, is parsed as it is and keeps its doctype; any other page is parsed in no-quirks mode without ending up with a doctype; content without html or body tags is put, unchanged, into a body, and a page that has them is not. A byte order mark never becomes content. Fragments are parsed as they are.',
 ['inputs'], 'all strings as pages',
 'Tests try one doctype in two spellings.',
 [DOM], [('page preparation', DOM+': parse')], ['parse(), parse_body_fragment(), the text handed to the HTML parser'])
prop('H10', 'Patches mean the same after they were sent',
 'Patches written to bytes (or text) and read back equal the patches written, names with their prefixes and namespaces included, and applying what was read back to the old page, natively or in the browser through the entry points that take bytes or text, gives the new page.',
 ['inputs'], 'all pairs of pages',
 'Two tests write and read a handful of patches.',
 [D, W], [('name forms on the wire', D+': QualNameProxy, LocalNameProxy'), ('entry points', W+': apply_patches_postcard, apply_patches_json')], ['serialised patches, apply_patches(), apply_patches_postcard(), apply_patches_json()'])
prop('H11', 'Edits of a document do what they say, and nothing else',
 'After any history of creating, appending, inserting before or behind a sibling, removing and changing texts, the document is the tree those edits describe: parents, children in order, first and last child, neighbours, counts, head and body, texts, and what is written all agree, a node that was moved is gone from where it was with everything below it, and nodes not named by an edit stay as they were.',
 ['histories'], 'all histories of edits that the interface allows (no node into itself, siblings only in a tree)',
 'Unit tests make a few fixed edits.',
 [DOM], [('editing interface', DOM)], ['Document: append_child(), insert_before(), insert_after(), remove(), set_text() and the queries'])
prop('H12', 'Comparing two pages given as text turns one into the other',
 'For any two page texts, the patches between them, made owned and possibly sent, turn the parsed old page into the parsed new page, and both are then written alike; a page written and read back is the same page, with every attribute in its namespace, and writing it again gives the same text.',
 ['inputs'], 'all pairs of page texts',
 'Tests and snapshots use some dozens of pages.',
 [DOM, D], [('parsing and writing', DOM), ('diff of texts', D+': diff_html')], ['diff_html(), parse(), apply_patches(), to_html(), to_body_html()'])
prop('H13', 'A small change of a page is a small patch',
 'If a page in which no two subtrees are equal (attributes aside) changes in one place only, and has no such subtrees afterwards either, the diff is exactly that change at that place: a changed text or comment gives one text patch; other attributes on one element, which keeps at least half their names, one attribute patch; content appended to an element insertions of its nodes only; a last child taken away removals of its nodes only. No other node is named by a patch, moved or rebuilt.',
 ['inputs'], 'all pages, all places, all small changes',
 'Snapshot tests show patches of some fixed pages; on deep, wide or repetitive pages the matching takes other paths.',
 [D, M, C], [('diff of pages', D+': diff'), ('position before hash', M+': bottom_up_phase')], ['diff()'])
prop('H14', 'Nodes of unchanged content survive patching',
 'Content that occurs exactly once in the old and in the new page (attributes aside), at the same depth and below elements of the same names, stays the same nodes: after the patches were applied, the nodes at its place in the new page are the nodes it had in the old one, so that state kept with them is not lost, whatever changed or moved around it.',
 ['inputs'], 'all pairs of pages without opaque elements',
 'Tests compare the patched page with the new page, which rebuilt nodes pass as well.',
 [D, M, C], [('subtrees found again', M+': top_down_phase'), ('moves instead of insertions', C+': generate_edit_script'), ('slots', D)], ['diff(), apply_patches(), NodeId'])
prop('S01', 'The live-reload cache always diffs against what the client last got',
 'For every history of page loads, diff requests (with or without head content) and removals over several routes, following the events keeps the page of the client equal to the page rendered last for its route: patches for a route go from the last version handed out for that route to the version just rendered, unchanged pages produce no event, an unknown old version a reload, changed head content a full head change; routes never influence one another, and the cache lists exactly the routes it holds.',
 ['histories'], 'all sequences of cache operations over several routes',
 'No tests exist for the server crate.',
 [SV, D], [('route cache', SV)], ['LiveReloadServer API'])
prop('S02', 'Script injection keeps the page and targets its head',
 'Injecting content into any page inserts exactly the content, once, right behind the first opening head tag if there is one (in any letter case, with any attributes and quoting; not behind a longer tag name like header, nor at a > inside a quoted attribute value of the head tag) and otherwise at the start, and leaves every other byte of the page unchanged.',
 ['inputs'], 'all page strings',
 'No tests exist for the server crate; look-alike tags and upper case are never tried.',
 [SV], [('inject_into_head', SV)], ['inject_into_head()'])
prop('S03', 'The loader script starts with exactly the addresses it was given',
 'For any strings as module address, WebAssembly address, mount selector and connection address, the script of the loader is one script element whose code imports, initialises and starts with exactly these four strings; no quote, backslash, line break or markup in them ends the string, the code or the element.',
 ['inputs'], 'all strings as addresses and selectors',
 'One test with plain addresses.',
 [SV], [('loader script', SV+': loader_script')], ['loader_script()'])
prop('W01', 'Patching in the browser yields the new page',
 'For any two pages, applying the patches of the diff in the browser, all at once or one by one with slots kept outside, to the body or below a mount point, succeeds and makes the body (or the mounted content) equal to the new page: names and namespaces, attributes with namespaces, order and values whatever their names, text, comments. Nothing outside is touched. Nodes inside opaque elements stay exactly as they were, and such an element gets one bubbling event with the new content exactly if its content changed. The next update finds the page as it should be.',
 ['inputs', 'histories'], 'all pairs (and triples) of pages, both ways of applying',
 'Only a browser end-to-end fuzz run compares pages, without namespaces, opaque elements or mount points.',
 [W, D], [('apply in browser', W+': apply_patch'), ('creating elements', W+': create_element_with_attrs')], ['apply_patches(), apply_patches_on(), apply_patches_with_slots(), the DOM, events'])
prop('W02', 'The browser keeps exactly the nodes that native patching keeps',
 'Outside of opaque elements, a node in the page after patching in the browser is one of the nodes that were there before, and the very same one, exactly if the natively patched document keeps that node; otherwise it is a new one. Focus, scroll position, listeners and state of kept elements are therefore not lost by replacing them, in any way of applying the patches.',
 ['inputs', 'histories'], 'all pairs of pages, all ways of applying patches',
 'Tests compare markup, which is the same for a replaced element.',
 [W, D], [('moves and slots in the browser', W+': apply_patch')], ['apply_patches(), apply_patches_on(), apply_patches_with_slots(), identity of DOM nodes'])
