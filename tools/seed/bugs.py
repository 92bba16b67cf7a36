CH = "cinereus/src/chawathe.rs"
MA = "cinereus/src/matching.rs"
TR = "cinereus/src/tree.rs"

bug("C01-orphan-move", "C01", "a surviving node whose old parent has no counterpart, landing at the same sibling index under another parent",
    "the node is neither moved nor deleted, so it vanishes with its old parent",
    [(CH, "let parent_changed = parent_match != Some(parent_b);", "let parent_changed = parent_match.is_some_and(|p| p != parent_b);")],
    '''
    // x/y lose their wrapper of a kind that disappears
    let a = el("root", vec![el("old", vec![el("leaf", vec![]).t("x"), el("leaf", vec![]).t("y")]), el("keep", vec![el("q", vec![])])]);
    let b = el("root", vec![el("new", vec![el("leaf", vec![]).t("x"), el("leaf", vec![]).t("y")]), el("keep", vec![el("q", vec![])])]);
    if let Err(e) = exact(&a, &b, &MatchingConfig::default()) { fail(&e) }
''')

bug("C01-only-child", "C01", "a matched node that becomes the only child of its unchanged parent while it was not the first before",
    "no move is emitted, so the node keeps its old sibling position",
    [(CH, "let position_changed = pos_a != pos_b;", "let position_changed = pos_a != pos_b && tree_b.child_count(parent_b) > 1;")],
    '''
    let a = el("root", vec![el("p", vec![el("x", vec![el("u", vec![])]), el("y", vec![el("v", vec![])])])]);
    let b = el("root", vec![el("p", vec![el("y", vec![el("v", vec![])])])]);
    if let Err(e) = exact(&a, &b, &MatchingConfig::default()) { fail(&e) }
''')

bug("C02-position-double", "C02", "a node whose counterpart by position and kind has already been taken by an equal subtree elsewhere",
    "one new node gets two old partners",
    [(MA, ".filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)", ".filter(|&b_id| tree_b.kind(b_id) == a_kind)")],
    '''
    let p = |s: &str| el("p", vec![el("t", vec![]).t(s)]);
    let a = el("root", vec![p("one"), p("two")]);
    let b = el("root", vec![p("two"), el("q", vec![])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    let l: Vec<_> = m.pairs().collect();
    for (i, x) in l.iter().enumerate() { for y in &l[..i] { must!(x.0 != y.0 && x.1 != y.1, "a node with two partners: {:?}", l.iter().map(|z| (ta.at(z.0), tb.at(z.1))).collect::<Vec<_>>()); } }
''')

bug("C02-global-leaf", "C02", "two leaves under unmatched parents competing for the same leaf of the new tree",
    "the second leaf is matched with an already matched leaf",
    [(MA, """            let mut best: Option<NodeId> = None;
            for b_id in candidates {
                if matching.contains_b(b_id) {
                    continue;
                }

                // Only match leaves""", """            let mut best: Option<NodeId> = None;
            for b_id in candidates {
                // Only match leaves""")],
    '''
    let a = el("root", vec![el("old", vec![el("leaf", vec![]).t("x"), el("leaf", vec![]).t("x")])]);
    let b = el("root", vec![el("new", vec![el("leaf", vec![]).t("x")])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    let l: Vec<_> = m.pairs().collect();
    for (i, x) in l.iter().enumerate() { for y in &l[..i] { must!(x.0 != y.0 && x.1 != y.1, "a node with two partners: {:?}", l.iter().map(|z| (ta.at(z.0), tb.at(z.1))).collect::<Vec<_>>()); } }
''')

bug("C03-opaque-root", "C03", "an opaque node whose candidate has another kind",
    "an opaque root is matched with a root of another kind",
    [(MA, "if a_kind == b_kind && !matching.contains_a(a_id) && !matching.contains_b(b_id) {", "if !matching.contains_a(a_id) && !matching.contains_b(b_id) {")],
    '''
    let a = el("iframe", vec![el("x", vec![])]).o();
    let b = el("div", vec![el("y", vec![])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    for (x, y) in m.pairs() { must!(ta.t.get(x).kind == tb.t.get(y).kind, "pair of kinds {} and {}", ta.t.get(x).kind, tb.t.get(y).kind); }
''')

bug("C03-emptied", "C03", "an inner node replaced, at the same position, by an empty node of another kind",
    "nodes of different kinds are matched",
    [(MA, ".filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)", ".filter(|&b_id| {\n                    !matching.contains_b(b_id)\n                        && (tree_b.kind(b_id) == a_kind\n                            || (tree_a.child_count(a_id) > 1 && tree_b.child_count(b_id) == 0))\n                })")],
    '''
    let a = el("root", vec![el("ul", vec![el("li", vec![]), el("li", vec![])])]);
    let b = el("root", vec![el("hr", vec![])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    for (x, y) in m.pairs() { must!(ta.t.get(x).kind == tb.t.get(y).kind, "pair of kinds {} and {}", ta.t.get(x).kind, tb.t.get(y).kind); }
''')

bug("C04-last-twin", "C04", "equal leaves side by side and a minimum height above the height of the tree",
    "equal leaves are matched crosswise and needlessly moved",
    [(MA, """.find(|&&b_id| tree_b.position(b_id) == a_pos && tree_b.hash(b_id) == a_hash)
                .or_else(|| candidates.iter().find(|&&b_id| tree_b.hash(b_id) == a_hash))""", """.rev()
                .find(|&&b_id| tree_b.hash(b_id) == a_hash)"""),
     (MA, """                .find(|&&b_id| {
                    tree_b.position(b_id) == a_pos
                        && a_props.similarity(tree_b.properties(b_id))
                            >= config.similarity_threshold
                })
                .copied();""", """                .find(|&&b_id| {
                    tree_b.position(b_id) == a_pos
                        && tree_b.child_count(b_id) > 0
                        && a_props.similarity(tree_b.properties(b_id))
                            >= config.similarity_threshold
                })
                .copied();""")],
    '''
    let a = el("ul", vec![el("li", vec![]), el("li", vec![]), el("b", vec![])]);
    for h in 0..4 {
        let (ta, tb) = (T::new(&a), T::new(&a));
        let (ops, _) = diff(&ta, &tb, &cfg(0.5, h));
        must!(ops.is_empty(), "min_height {h}: {:?}", plain(&ta, &tb, &ops));
    }
''')

bug("C05-shallow-opaque", "C05", "content two levels below an opaque node that exists on one side only",
    "nodes deep inside opaque elements are inserted",
    [(CH, """            for desc in tree_b.descendants(b_id) {
                if desc != b_id {
                    opaque_descendants_b.insert(desc);
                }
            }""", """            for desc in tree_b.children(b_id) {
                opaque_descendants_b.insert(desc);
            }""")],
    '''
    let a = el("root", vec![el("widget", vec![el("x", vec![])]).o()]);
    let b = el("root", vec![el("widget", vec![el("x", vec![el("deep", vec![])])]).o()]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, _) = diff(&ta, &tb, &MatchingConfig::default());
    for o in &ops { if let EditOp::Insert { node_b, .. } = o { must!(!tb.inside(*node_b), "{:?}", plain(&ta, &tb, &ops)); } }
''')

bug("C05-one-sided", "C05", "a node that is opaque in the old tree only, with changed content",
    "old content inside an opaque node is paired with content outside one and edited",
    [(MA, """            // If either node is opaque, match the pair but don't recurse into children
            if tree_a.is_opaque(a_id) || tree_b.is_opaque(b_id) {
                if a_kind""", """            // If either node is opaque, match the pair but don't recurse into children
            if tree_b.is_opaque(b_id) || (tree_a.is_opaque(a_id) && tree_a.height(a_id) < 2) {
                if a_kind""")],
    '''
    let a = el("root", vec![el("w", vec![el("x", vec![el("y", vec![])]), el("z", vec![])]).o()]);
    let b = el("root", vec![el("w", vec![el("x", vec![el("y", vec![])])])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    for (x, y) in m.pairs() { must!(!ta.inside(x), "a{} inside an opaque node is matched with b{}", ta.at(x), tb.at(y)); }
''')

bug("C06-first-property", "C06", "a node gaining its first or losing its last property",
    "no property update is emitted",
    [(CH, "if a_props.is_empty() && b_props.is_empty() {", "if a_props.is_empty() || b_props.is_empty() {")],
    '''
    let a = el("root", vec![el("p", vec![]).p("class", "x"), el("q", vec![el("i", vec![])])]);
    let b = el("root", vec![el("p", vec![]), el("q", vec![el("i", vec![])])]);
    if let Err(e) = exact(&a, &b, &cfg(0.0, 1)) { fail(&e) }
    if let Err(e) = exact(&b, &a, &cfg(0.0, 1)) { fail(&e) }
''')

bug("C06-removal-count", "C06", "one property removed and none changed, while another one is kept",
    "the removal is not reported",
    [(CH, "let has_removal = a_props.len() > changes.len();", "let has_removal = a_props.len() > changes.len() + 1 || changes.is_empty();")],
    '''
    let a = el("root", vec![el("p", vec![]).p("class", "x").p("id", "y"), el("q", vec![el("i", vec![])])]);
    let b = el("root", vec![el("p", vec![]).p("id", "y"), el("q", vec![el("i", vec![])])]);
    if let Err(e) = exact(&a, &b, &MatchingConfig::default()) { fail(&e) }
''')

bug("C06-new-text", "C06", "a matched node that had no text and gets one",
    "the text update is missing",
    [(CH, """        if a_text != b_text
            && let Some(new_text) = b_text""", """        if let Some(new_text) = b_text
            && a_text.is_some_and(|old| old != new_text)""")],
    '''
    let a = el("root", vec![el("p", vec![]), el("q", vec![el("i", vec![])])]);
    let b = el("root", vec![el("p", vec![]).t("hello"), el("q", vec![el("i", vec![])])]);
    if let Err(e) = exact(&a, &b, &MatchingConfig::default()) { fail(&e) }
''')

bug("C07-subtree-delete", "C07", "a deleted node with deleted children of its own",
    "descendants of deleted nodes are not deleted one by one any more",
    [(CH, """            ops.push(EditOp::Delete { node_a: a_id });
        }
    }

    debug!""", """            // removing the parent takes the whole subtree along
            if let Some(p) = tree_a.parent(a_id)
                && !matching.contains_a(p)
                && tree_a.child_count(a_id) == 0
            {
                continue;
            }
            ops.push(EditOp::Delete { node_a: a_id });
        }
    }

    debug!""")],
    '''
    let a = el("root", vec![el("old", vec![el("x", vec![]), el("y", vec![])]), el("keep", vec![el("k", vec![])])]);
    let b = el("root", vec![el("keep", vec![el("k", vec![])])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, m) = diff(&ta, &tb, &MatchingConfig::default());
    for &x in &ta.ids {
        let n = ops.iter().filter(|o| matches!(o, EditOp::Delete { node_a } if *node_a == x)).count();
        must!(n == !m.contains_a(x) as usize, "node a{} deleted {n} times: {:?}", ta.at(x), plain(&ta, &tb, &ops));
    }
''')

bug("C07-sibling-move", "C07", "a matched node keeping its place while its left neighbour under the same parent is new",
    "nodes that stay where they are get a move",
    [(CH, "let position_changed = pos_a != pos_b;", """let position_changed = pos_a != pos_b
            || tree_b
                .children(parent_b)
                .take(pos_b)
                .last()
                .is_some_and(|left| !matching.contains_b(left));""")],
    '''
    let k = |s: &str, t: &str| el(s, vec![el(t, vec![])]);
    let a = el("root", vec![k("gone", "g"), k("stay", "s")]);
    let b = el("root", vec![k("fresh", "f"), k("stay", "s")]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, _) = diff(&ta, &tb, &MatchingConfig::default());
    must!(!ops.iter().any(|o| matches!(o, EditOp::Move { .. })), "{:?}", plain(&ta, &tb, &ops));
''')

bug("C08-children-first", "C08", "an inserted node with inserted children, below a child list of at least two",
    "children are inserted before their inserted parent",
    [(CH, """    for b_id in tree_b.iter() {
        if !matching.contains_b(b_id) {
            let parent_b = tree_b.parent(b_id);
""", """    let mut new_nodes: Vec<_> = tree_b.iter().collect();
    new_nodes.sort_by_key(|&id| tree_b.position(id));
    for b_id in new_nodes {
        if !matching.contains_b(b_id) {
            let parent_b = tree_b.parent(b_id);
""")],
    '''
    let a = el("root", vec![el("k", vec![el("l", vec![])])]);
    let b = el("root", vec![el("k", vec![el("l", vec![])]), el("n", vec![el("m", vec![])])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, _) = diff(&ta, &tb, &MatchingConfig::default());
    let mut seen = vec![];
    for o in &ops { if let EditOp::Insert { node_b, parent_b, .. } = o {
        must!(seen.contains(parent_b) || !ops.iter().any(|p| matches!(p, EditOp::Insert { node_b: x, .. } if x == parent_b)), "{:?}", plain(&ta, &tb, &ops));
        seen.push(*node_b);
    } }
''')

bug("C08-delete-order", "C08", "three levels of deleted nodes",
    "an outer node is deleted before a node further below it",
    [(CH, """    for a_id in tree_a.post_order() {
        if !matching.contains_a(a_id) {""", """    let mut doomed: Vec<_> = tree_a.post_order().collect();
    doomed.sort_by_key(|&id| tree_a.height(id).min(1));
    doomed.sort_by_key(|&id| tree_a.child_count(id) > 1);
    for a_id in doomed {
        if !matching.contains_a(a_id) {""")],
    '''
    let a = el("root", vec![el("o", vec![el("p", vec![el("x", vec![]), el("y", vec![])])]), el("keep", vec![el("k", vec![])])]);
    let b = el("root", vec![el("keep", vec![el("k", vec![])])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, _) = diff(&ta, &tb, &MatchingConfig::default());
    let d: Vec<_> = ops.iter().filter_map(|o| if let EditOp::Delete { node_a } = o { Some(*node_a) } else { None }).collect();
    for (i, x) in d.iter().enumerate() { for y in &d[i + 1..] { must!(ta.t.parent(*y) != Some(*x), "{:?}", plain(&ta, &tb, &ops)); } }
''')

bug("C09-root-fallback", "C09", "roots of the same kind with dissimilar properties and no other common content",
    "dissimilar roots are matched",
    [(MA, """                    !matching.contains_b(b_id)
                        && tree_b.parent(b_id).is_none() // Must also be a root
                        && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
""", """                    !matching.contains_b(b_id)
                        && tree_b.parent(b_id).is_none() // Must also be a root
""")],
    '''
    let a = el("div", vec![el("x", vec![])]).p("tag", "a");
    let b = el("div", vec![el("y", vec![])]).p("tag", "b");
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    must!(m.is_empty(), "dissimilar nodes matched");
''')

bug("C09-dice-only", "C09", "dissimilar inner nodes that share most of their (equal) content",
    "inner nodes below the similarity threshold are matched because of their content",
    [(MA, """            if prop_sim < config.similarity_threshold {
                continue;
            }
""", """            if prop_sim < config.similarity_threshold && tree_a.child_count(a_id) < 2 {
                continue;
            }
""")],
    '''
    // the content is matched first (its subtrees are equal), then the wrappers are compared
    let c = |s: &str| el("li", vec![el("t", vec![]).t(s)]);
    let a = el("root", vec![el("ul", vec![c("1"), c("2"), c("3")]).p("tag", "a"), el("z", vec![])]);
    let b = el("root", vec![el("w", vec![]), el("ul", vec![c("1"), c("2"), c("3")]).p("tag", "b")]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let c = cfg(0.4, 1);
    let m = compute_matching(&ta, &tb, &c);
    for (x, y) in m.pairs() {
        let (p, q) = (ta.t.get(x), tb.t.get(y));
        must!(p.hash == q.hash || p.properties.similarity(&q.properties) >= 0.4, "matched {:?} with {:?}", p.properties, q.properties);
    }
''')

bug("C10-unordered-moves", "C10", "at least two moves in one script",
    "the order of moves depends on the hash seeds",
    [(CH, """    for (a_id, b_id) in matching.pairs() {
        debug!(
            a = usize::from(a_id),""", """    let pairs: std::collections::HashMap<_, _> = matching.pairs().collect();
    for (a_id, b_id) in pairs {
        debug!(
            a = usize::from(a_id),""")],
    '''
    let k = |s: &str| el("p", vec![el("t", vec![]).t(s)]);
    let a = el("root", vec![k("1"), k("2"), k("3"), k("4"), k("5")]);
    let b = el("root", vec![k("5"), k("4"), k("3"), k("2"), k("1")]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let first = plain(&ta, &tb, &diff(&ta, &tb, &MatchingConfig::default()).0);
    for _ in 0..200 { let again = plain(&ta, &tb, &diff(&ta, &tb, &MatchingConfig::default()).0); must!(first == again, "{first:?} then {again:?}"); }
''')

bug("C10-stale-cache", "C10", "an earlier diff of other trees in the same thread",
    "descendant counts of an earlier diff are reused, so the result depends on history",
    [(MA, """        2.0 * common as f64 / (desc_a.len() + desc_b.len()) as f64
""", """        thread_local! {
            static SIZES: RefCell<HashMap<(NodeId, usize), usize>> = RefCell::new(HashMap::default());
        }
        let size = |id: NodeId, side: usize, n: usize| {
            SIZES.with(|s| *s.borrow_mut().entry((id, side)).or_insert(n))
        };
        2.0 * common as f64 / (size(a_id, 0, desc_a.len()) + size(b_id, 1, desc_b.len())) as f64
""")],
    '''
    let li = |s: &str| el("li", vec![el("t", vec![]).t(s)]);
    let a = el("root", vec![el("ul", vec![li("1"), li("2")]), el("x", vec![])]);
    let b = el("root", vec![el("x", vec![]), el("ul", vec![li("1"), li("2"), li("3")])]);
    let run = |warm: bool| std::thread::spawn({ let (a, b) = (a.clone(), b.clone()); move || {
        if warm {
            let big = |n: usize, s: &str| el("root", vec![el("ul", (0..n).map(|i| el("li", vec![el("t", vec![]).t(&format!("{s}{i}"))])).collect()), el("y", vec![])]);
            let flip = |n: N| el("root", vec![el("k", vec![]), n.kids[0].clone()]);
            for (p, q) in [(big(20, "p"), flip(big(20, "q"))), (flip(big(20, "q")), big(20, "p"))] { let (tp, tq) = (T::new(&p), T::new(&q)); diff(&tp, &tq, &MatchingConfig::default()); }
        }
        let (ta, tb) = (T::new(&a), T::new(&b));
        let o = diff(&ta, &tb, &MatchingConfig::default()).0;
        plain(&ta, &tb, &o)
    } }).join().unwrap();
    let (x, y) = (run(false), run(true));
    must!(x == y, "{x:?} but after other diffs {y:?}");
''')

bug("C11-height-middle", "C11", "a node whose deepest child is neither its first nor its last",
    "the height is too small",
    [(TR, "1 + children.iter().map(|&c| self.height(c)).max().unwrap_or(0)", "1 + self.height(children[0]).max(self.height(children[children.len() - 1]))")],
    '''
    let n = el("r", vec![el("a", vec![]), el("b", vec![el("c", vec![])]), el("d", vec![])]);
    let t = T::new(&n);
    must!(Tree::height(&t.t, t.t.root) == 2, "height {}", Tree::height(&t.t, t.t.root));
''')

bug("C11-default-position", "C11", "a tree type that relies on the trait's default methods, asked for a node beyond the third child",
    "default sibling positions stop counting",
    [(TR, "for (pos, c) in self.children(parent).enumerate() {", "for (pos, c) in self.children(parent).take(3).enumerate() {")],
    '''
    struct V<'a>(&'a T);
    impl DiffTree for V<'_> {
        type Types = Ty;
        fn root(&self) -> indextree::NodeId { self.0.root() }
        fn node_count(&self) -> usize { self.0.node_count() }
        fn hash(&self, id: indextree::NodeId) -> NodeHash { self.0.hash(id) }
        fn kind(&self, id: indextree::NodeId) -> &S { self.0.kind(id) }
        fn properties(&self, id: indextree::NodeId) -> &P { self.0.properties(id) }
        fn text(&self, id: indextree::NodeId) -> Option<&S> { self.0.text(id) }
        fn parent(&self, id: indextree::NodeId) -> Option<indextree::NodeId> { self.0.parent(id) }
        fn children(&self, id: indextree::NodeId) -> impl Iterator<Item = indextree::NodeId> + '_ { self.0.children(id) }
        fn height(&self, id: indextree::NodeId) -> usize { self.0.height(id) }
        fn iter(&self) -> impl Iterator<Item = indextree::NodeId> + '_ { self.0.iter() }
        fn post_order(&self) -> impl Iterator<Item = indextree::NodeId> + '_ { self.0.post_order() }
        fn descendants(&self, id: indextree::NodeId) -> impl Iterator<Item = indextree::NodeId> + '_ { self.0.descendants(id) }
    }
    let n = el("r", (0..6).map(|_| el("c", vec![])).collect());
    let t = T::new(&n);
    for (i, c) in t.children(t.root()).enumerate() { must!(V(&t).position(c) == i, "child {i} reports position {}", V(&t).position(c)); }
''')

bug("C12-reregister", "C12", "the same old node registered twice",
    "the listing and the count forget a registration",
    [(MA, """        self.a_to_b[a_idx] = Some(b);
        self.b_to_a[b_idx] = Some(a);
        self.pairs.push((a, b));""", """        let known = self.a_to_b[a_idx].is_some() && self.b_to_a[b_idx].is_some();
        self.a_to_b[a_idx] = Some(b);
        self.b_to_a[b_idx] = Some(a);
        if !known {
            self.pairs.push((a, b));
        }""")],
    '''
    let mut ar = cinereus::indextree::Arena::new();
    let v: Vec<_> = (0..4).map(|i| ar.new_node(i)).collect();
    let mut m = Matching::new();
    m.add(v[0], v[1]);
    m.add(v[2], v[3]);
    m.add(v[0], v[3]);
    must!(m.len() == 3 && m.pairs().last() == Some((v[0], v[3])), "{} registrations listed", m.len());
    must!(m.get_b(v[0]) == Some(v[3]) && m.get_a(v[3]) == Some(v[0]), "lookup");
''')

bug("C12-presized", "C12", "a matching pre-sized larger on one side than on the other",
    "looking up an unregistered node panics",
    [(MA, """        let idx = usize::from(b);
        self.b_to_a.get(idx).is_some_and(|opt| opt.is_some())""", """        let idx = usize::from(b);
        idx < self.a_to_b.len().max(self.b_to_a.len()) && self.b_to_a[idx].is_some()""")],
    '''
    let mut ar = cinereus::indextree::Arena::new();
    let v: Vec<_> = (0..8).map(|i| ar.new_node(i)).collect();
    let mut m = Matching::with_capacity(20, 1);
    m.add(v[0], v[1]);
    for x in &v { must!(m.contains_b(*x) == (*x == v[1]), "membership"); }
''')

bug("C13-height-overflow", "C13", "the largest possible minimum height",
    "the comparison overflows and panics",
    [(MA, "if tree_a.height(a_id) < config.min_height {", "if tree_a.height(a_id) + 1 < config.min_height + 1 {")],
    '''
    let a = el("r", vec![el("c", vec![])]);
    let (ta, tb) = (T::new(&a), T::new(&a));
    let (ops, _) = diff(&ta, &tb, &cfg(0.5, usize::MAX));
    must!(ops.is_empty(), "{:?}", plain(&ta, &tb, &ops));
''')

bug("C13-collision", "C13", "two different subtrees with colliding hashes and different numbers of children",
    "matching equal hashes indexes past the children of the other node",
    [(MA, """    for (a_child, b_child) in a_children.into_iter().zip(b_children.into_iter()) {
        match_subtrees(tree_a, tree_b, a_child, b_child, matching);
    }""", """    for (i, a_child) in a_children.into_iter().enumerate() {
        match_subtrees(tree_a, tree_b, a_child, b_children[i], matching);
    }""")],
    '''
    let a = el("r", vec![el("c", vec![]).h(1), el("d", vec![]).h(2)]).h(7);
    let b = el("r", vec![el("c", vec![]).h(1)]).h(7);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, _) = diff(&ta, &tb, &MatchingConfig::default());
    must!(ops.len() < 10, "{:?}", plain(&ta, &tb, &ops));
''')

bug("C14-id-tie", "C14", "two equally good partners for an inner node in a tree whose node ids do not follow document order",
    "ties are broken by node id",
    [(MA, "if score >= config.similarity_threshold && (best.is_none() || score > best.unwrap().1) {", """if score >= config.similarity_threshold
                && best.is_none_or(|(other, top)| {
                    score > top || (score == top && usize::from(b_id) < usize::from(other))
                })
            {""")],
    '''
    let w = |k: &str, c: Vec<N>| el(k, c);
    // a's inner "p" has two equally similar partners in b, both elsewhere
    let a = w("root", vec![w("z", vec![]), w("g", vec![w("p", vec![w("x", vec![])])])]);
    let b = w("root", vec![w("h", vec![w("p", vec![w("x", vec![]), w("y", vec![])])]), w("h", vec![w("p", vec![w("x", vec![]), w("y", vec![])])])]);
    let c = cfg(0.0, 1);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ua, ub) = (T::reversed(&a), T::reversed(&b));
    let p: Vec<_> = compute_matching(&ta, &tb, &c).pairs().map(|(x, y)| (ta.at(x), tb.at(y))).collect();
    let q: Vec<_> = compute_matching(&ua, &ub, &c).pairs().map(|(x, y)| (ua.at(x), ub.at(y))).collect();
    must!(p == q, "{p:?} but {q:?}");
''')

bug("C14-half-hash", "C14", "hashes of different leaves that agree in their lower half",
    "leaves are taken for equal by half of their hash",
    [(MA, ".or_else(|| candidates.iter().find(|&&b_id| tree_b.hash(b_id) == a_hash))", ".or_else(|| {\n                    candidates\n                        .iter()\n                        .find(|&&b_id| tree_b.hash(b_id).0 as u32 == a_hash.0 as u32)\n                })")],
    '''
    let mk = |h: [u64; 4]| (el("r", vec![el("c", vec![]).p("k", "1").h(h[0]), el("c", vec![]).p("k", "2").h(h[1])]).h(100), el("r", vec![el("c", vec![]).p("k", "3").h(h[2]), el("c", vec![]).p("k", "4").h(h[3])]).h(101));
    let run = |h: [u64; 4]| { let (a, b) = mk(h); let (ta, tb) = (T::new(&a), T::new(&b)); let m = compute_matching(&ta, &tb, &MatchingConfig::default()); m.pairs().map(|(x, y)| (ta.at(x), tb.at(y))).collect::<Vec<_>>() };
    let (p, q) = (run([1, 2, 3, 4]), run([1 << 40 | 1, 2, 3, 1]));
    must!(p == q, "{p:?} but {q:?}");
''')

bug("C15-same-place", "C15", "unchanged content whose parent moved to another sibling position while its other content changed",
    "only children at the same position are compared with each other, so content below moved elements is deleted and inserted anew",
    [(MA, "if a_child_hash == b_child_hash || a_child_kind == b_child_kind {", """if a_child_hash == b_child_hash
                            || (a_child_kind == b_child_kind
                                && tree_a.position(a_child) == tree_b.position(b_child))
                        {""")],
    '''
    let keep = || el("keep", vec![el("k", vec![]).t("kept")]);
    let a = el("root", vec![el("s", vec![el("x", vec![])]), el("p", vec![keep(), el("u", vec![])])]);
    let b = el("root", vec![el("p", vec![keep(), el("v", vec![]), el("w", vec![])])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    must!(m.pairs().any(|(x, y)| ta.at(x) == 4 && tb.at(y) == 2), "{:?}", m.pairs().map(|(x, y)| (ta.at(x), tb.at(y))).collect::<Vec<_>>());
''')

bug("C15-taller", "C15", "unchanged content exactly as high as the minimum height, below a parent that was moved",
    "content of exactly the minimum height is not looked for",
    [(MA, "if tree_a.height(a_id) < config.min_height {", "if tree_a.height(a_id) <= config.min_height && tree_a.parent(a_id).is_some() {")],
    '''
    let keep = || el("keep", vec![el("k", vec![]).t("kept")]);
    let a = el("root", vec![el("s", vec![el("x", vec![])]), el("p", vec![el("u", vec![]), keep()])]);
    let b = el("root", vec![el("p", vec![keep(), el("v", vec![]), el("w", vec![])])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let m = compute_matching(&ta, &tb, &MatchingConfig::default());
    must!(m.pairs().any(|(x, y)| ta.at(x) == 5 && tb.at(y) == 2), "{:?}", m.pairs().map(|(x, y)| (ta.at(x), tb.at(y))).collect::<Vec<_>>());
''')

bug("C16-first-child", "C16", "an empty element that gets its first child",
    "an element that was empty is deleted and inserted anew with its content",
    [(MA, ".filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)", """.filter(|&b_id| {
                    !matching.contains_b(b_id)
                        && tree_b.kind(b_id) == a_kind
                        && (tree_a.child_count(a_id) > 0 || tree_b.child_count(b_id) == 0)
                })""")],
    '''
    let a = el("root", vec![el("p", vec![el("i", vec![]).t("one")]), el("q", vec![])]);
    let b = el("root", vec![el("p", vec![el("i", vec![]).t("one")]), el("q", vec![el("i", vec![]).t("two")])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, _) = diff(&ta, &tb, &MatchingConfig::default());
    must!(ops.len() == 1, "{:?}", plain(&ta, &tb, &ops));
''')

bug("C16-longer-list", "C16", "an element appended to a list whose last element changed kind or height with it",
    "an inner node whose parent got more children is compared by content instead of by position",
    [(MA, "if let Some(parent_b) = matched_parent_b {\n            // Parent is matched - try position+kind", "if let Some(parent_b) = matched_parent_b\n            && (tree_a.child_count(a_id) == 0\n                || tree_b.child_count(parent_b) == tree_a.position(a_id) + 1\n                || tree_a.child_count(parent_a.unwrap_or(a_id)) == tree_b.child_count(parent_b))\n        {\n            // Parent is matched - try position+kind")],
    '''
    let list = |l: &[&str]| el("li", l.iter().map(|s| el("i", vec![]).t(s)).collect());
    let a = el("root", vec![el("ul", vec![list(&["a", "b"]), list(&["c"])])]);
    let b = el("root", vec![el("ul", vec![list(&["a", "b"]), list(&["c"]), el("i", vec![]).t("new")])]);
    let (ta, tb) = (T::new(&a), T::new(&b));
    let (ops, _) = diff(&ta, &tb, &cfg(0.5, 3));
    must!(ops.len() == 1, "{:?}", plain(&ta, &tb, &ops));
''')
