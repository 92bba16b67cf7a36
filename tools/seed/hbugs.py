DI = "hotmeal/src/diff.rs"
DO = "hotmeal/src/dom.rs"
ST = "hotmeal/src/stem.rs"
SE = "hotmeal-server/src/lib.rs"
WA = "hotmeal-wasm/src/lib.rs"

hbug("H01-gap-short", "H01", "an insertion two or more places behind the last child of its parent, followed by another edit behind it",
    "the plan fills one place too few, so later patches address the wrong places",
    [(DI, """            // Grow the children array with placeholder text nodes to reach the target position
            while parent.children(&self.arena).count() < position {""", """            // Grow the children array with placeholder text nodes to reach the target position
            while parent.children(&self.arena).count() + 1 < position {""")],
    '''
    exact("<p>x</p>", "<p>x</p><i>y</i>");
    exact("<div><div></div><div></div><div></div></div>", "<div></div><div></div><div><div></div></div>");
''')

hbug("H01-opaque-comment", "H01", "a new opaque element whose content has a comment",
    "the comment arrives as text",
    [(DI, "                children.push(InsertContent::Comment(text));", "                children.push(InsertContent::Text(text));")],
    '''
    exact("<p>x</p>", "<p>x</p><div data-hotmeal-opaque=\\"k\\"><b>1</b><!--note--></div>");
''')

hbug("H02-empty-value", "H02", "an attribute with an empty value",
    "an unchanged page yields patches",
    [(DI, "let value_same = old_val == Some(new_val);", "let value_same = old_val.is_some_and(|v| v == new_val && !v.is_empty());")],
    '''
    must!(patches("<input class=\\"c\\"><p>x</p>", "<input class=\\"c\\"><p>x</p>").is_empty(), "patches for equal pages");
    must!(patches("<input disabled=\\"\\"><p>x</p>", "<input disabled=\\"\\"><p>x</p>").is_empty(), "patches for equal pages");
''')

hbug("H02-comment-hash", "H02", "a comment with another comment of the same text at another depth",
    "equal pages are matched crosswise, so an unchanged page yields patches",
    [(DI, """                NodeKind::Comment(text) => {
                    let kind = HtmlNodeKind::Comment;""", """                NodeKind::Comment(text) => {
                    let kind = if text.is_empty() { HtmlNodeKind::Text } else { HtmlNodeKind::Comment };""")],
    '''
    must!(patches("<p>x</p><!--c-->", "<p>x</p><!--c-->").is_empty(), "patches for equal pages");
    must!(patches("<p>x</p><!---->", "<p>x</p><!---->").is_empty(), "patches for equal pages");
''')

hbug("H03-order-tail", "H03", "attributes that keep their first one but change the order of the others",
    "no update is made, so the old order stays",
    [(DI, "let order_differs = self_common != other_common;", "let order_differs = self_common.first() != other_common.first();")],
    '''
    exact("<p id=\\"1\\" class=\\"2\\" title=\\"3\\">x</p>", "<p id=\\"1\\" title=\\"3\\" class=\\"2\\">x</p>");
    exact("<p id=\\"1\\" class=\\"2\\">x</p>", "<p class=\\"2\\" id=\\"1\\">x</p>");
''')

hbug("H03-local-only", "H03", "an element with href and xlink:href of which one is kept",
    "the kept attribute gets the value of the other",
    [(DO, """                                    .find(|(k, _)| k == qual_name)
                                    .map(|(_, v)| v.clone())""", """                                    .find(|(k, _)| k.local == qual_name.local)
                                    .map(|(_, v)| v.clone())""")],
    '''
    exact("<svg><a href=\\"1\\" xlink:href=\\"2\\"></a></svg>", "<svg><a href=\\"1\\" xlink:href=\\"2\\" id=\\"n\\"></a></svg>");
    exact("<svg><a href=\\"1\\" id=\\"m\\"></a></svg>", "<svg><a href=\\"1\\" id=\\"n\\"></a></svg>");
''')

hbug("H04-void-extra", "H04", "an embed-like element that is not void: object, audio, video, frame, keygen",
    "the content of the element is lost when the page is written",
    [(DO, '            | "embed"\n', '            | "embed"\n            | "object"\n')],
    '''
    for tag in ["div", "object", "picture", "map", "video"] {
        let d = page(&format!("<{tag}><b>1</b></{tag}>"));
        must!(raw(&d.to_html()).body().is_some_and(|_| shape(&raw(&d.to_html())) == shape(&d)), "written {}", d.to_html());
    }
''')

hbug("H04-script-nested", "H04", "text inside an element that stands inside a style or script element built by hand or by SVG",
    "text inside elements within raw text is not escaped",
    [(DO, """            NodeKind::Text(text) => {
                // Escape text content
                for c in text.as_ref().chars() {
                    match c {
                        '&' => out.push_str("&amp;"),""", """            NodeKind::Text(text) => {
                // Escape text content
                for c in text.as_ref().chars() {
                    match c {
                        '&' if !text.as_ref().ends_with('&') => out.push_str("&amp;"),""")],
    '''
    let mut d = page("");
    let b = d.body().unwrap();
    let p = d.create_element("p"); d.append_child(b, p);
    let x = d.create_text("&"); d.append_child(p, x);
    let x = d.create_text("amp;"); d.append_child(p, x);
    let out = raw(&d.to_html());
    let p = out.children(out.body().unwrap()).next().unwrap();
    let text: String = out.children(p).map(|c| match &out.get(c).kind { NodeKind::Text(t) => t.as_ref().to_string(), _ => String::new() }).collect();
    must!(text == "&amp;", "read back as {text:?}");
''')

hbug("H05-hash-form", "H05", "one string borrowed, the other owned, as keys of a hash map",
    "equal strings hash differently depending on where they come from",
    [(ST, "        self.as_str().hash(state);", "        match self {\n            Self::Borrowed(s) => s.hash(state),\n            Self::Owned(s) => s.as_bytes().hash(state),\n        }")],
    '''
    use std::hash::{Hash, Hasher};
    let h = |s: &Stem| { let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() };
    for s in ["", "x", "a longer string that does not fit inline"] {
        must!(h(&Stem::Borrowed(s)) == h(&Stem::from(String::from(s))), "hashes of {s:?} differ");
    }
''')

hbug("H05-empty-owned", "H05", "an attribute whose new value is empty, in patches made independent of their source",
    "the patch keeps the old value instead of emptying it",
    [(DI, "            value: self.value.map(|s| s.into_owned()),", "            value: self\n                .value\n                .filter(|s| !s.is_empty())\n                .map(|s| s.into_owned()),")],
    '''
    for (o, n) in [("<p class=\\"a\\">x</p>", "<p class=\\"b\\">x</p>"), ("<p class=\\"a\\">x</p>", "<p class=\\"\\">x</p>")] {
        let ps = patches(o, n);
        let owned: Vec<_> = ps.iter().cloned().map(|p| p.into_owned()).collect();
        must!(ps == owned, "{ps:?} became {owned:?}");
        let mut d = page(o);
        must!(d.apply_patches(owned).is_ok() && shape(&d) == shape(&page(n)), "patched {}", shape(&d));
    }
''')

hbug("H06-attrs-local", "H06", "a repeated html or body tag that brings an attribute whose local name exists in another namespace",
    "the attribute is not added",
    [(DO, "                if !elem.attrs.iter().any(|(k, _)| k == &name) {", "                if !elem.attrs.iter().any(|(k, _)| k.local == name.local) {")],
    '''
    use html5ever::script::*;
    let q = |ns: &str, l: &str| QualName::new(None, html5ever::Namespace::from(ns), LocalName::from(l));
    let v = || Txt::Lit("v".into());
    let d = played(vec![
        Op::Element(q("http://www.w3.org/1999/xhtml", "html"), vec![(q("", "lang"), v())]),
        Op::Append(0, 1),
        Op::AddAttrs(1, vec![(q("http://www.w3.org/XML/1998/namespace", "lang"), v())]),
    ]);
    let NodeKind::Element(e) = &d.get(d.root).kind else { fail("no root") };
    must!(e.attrs.len() == 2, "{} attributes", e.attrs.len());
''')

hbug("H06-foster-text", "H06", "foster-parented text in front of a table that is not behind other text, where the element before the table holds text",
    "the text is merged into the wrong place",
    [(DO, "                let prev_sibling = arena[*sibling].previous_sibling();\n                if let Some(prev_sibling) = prev_sibling {", "                let prev_sibling = arena[*sibling].previous_sibling().map(|prev| {\n                    prev.children(&arena).next_back().unwrap_or(prev)\n                });\n                if let Some(prev_sibling) = prev_sibling {")],
    '''
    use html5ever::script::*;
    let q = |l: &str| QualName::new(None, html5ever::Namespace::from("http://www.w3.org/1999/xhtml"), LocalName::from(l));
    let el = |l: &str| Op::Element(q(l), vec![]);
    for inner in ["b", "x"] {
        let mut ops = vec![el("html"), Op::Append(0, 1), el("body"), Op::Append(1, 2), el("p"), Op::Append(2, 3), el("table"), Op::Append(2, 4)];
        if inner == "x" { ops.push(Op::AppendText(3, Txt::Lit("x".into()))) }
        ops.push(Op::FosterText(4, 3, Txt::Lit("f".into())));
        let d = played(ops);
        let want = if inner == "x" { r#"(Html body(Html p "x") "f"(Html table))"# } else { r#"(Html body(Html p) "f"(Html table))"# };
        must!(shape(&d) == want, "{}", shape(&d));
    }
''')

hbug("H06-detach-subtree", "H06", "an element that is taken out of the page and put elsewhere together with its content",
    "the content of the element is lost",
    [(DO, "        target.detach(&mut self.arena.borrow_mut());", "        let mut arena = self.arena.borrow_mut();\n        let children: Vec<NodeId> = target.children(&arena).collect();\n        if arena[*target].parent().is_some() && children.len() > 1 {\n            children[0].detach(&mut arena);\n        }\n        target.detach(&mut arena);")],
    '''
    use html5ever::script::*;
    let q = |l: &str| QualName::new(None, html5ever::Namespace::from("http://www.w3.org/1999/xhtml"), LocalName::from(l));
    let el = |l: &str| Op::Element(q(l), vec![]);
    let d = played(vec![el("html"), Op::Append(0, 1), el("body"), Op::Append(1, 2), el("p"), Op::Append(2, 3), el("b"), Op::Append(3, 4), el("i"), Op::Append(3, 5),
        Op::Remove(3), Op::Append(2, 3)]);
    must!(shape(&d) == "(Html body(Html p(Html b)(Html i)))", "{}", shape(&d));
''')

hbug("H07-svg-inside", "H07", "changed opaque content that holds an SVG drawing",
    "the drawing arrives as HTML elements",
    [(DO, "            ns: source_node.ns,\n        });\n        for child_id in source_id.children(&source.arena) {", "            ns: Namespace::Html,\n        });\n        for child_id in source_id.children(&source.arena) {")],
    '''
    exact("<div data-hotmeal-opaque=\\"k\\"><b>1</b></div>", "<div data-hotmeal-opaque=\\"k\\"><b>2</b></div>");
    exact("<div data-hotmeal-opaque=\\"k\\"><b>1</b></div>", "<div data-hotmeal-opaque=\\"k\\"><svg><circle></circle></svg></div>");
''')

hbug("H07-empty-mark", "H07", "an opaque element whose marker attribute has no value",
    "changed content is reported though it is the same",
    [(DI, """        self.0
            .properties(id)
            .attrs
            .iter()
            .any(|(k, _)| k.local.as_ref() == "data-hotmeal-opaque")""", """        self.0
            .properties(id)
            .attrs
            .iter()
            .any(|(k, v)| k.local.as_ref() == "data-hotmeal-opaque" && !v.is_empty())""")],
    '''
    for mark in ["data-hotmeal-opaque=\\"k\\"", "data-hotmeal-opaque=\\"\\""] {
        let html = format!("<div {mark}><b>1</b></div>");
        must!(patches(&html, &html).is_empty(), "{mark}: reported though nothing changed");
    }
''')

hbug("S01-head-kept", "S01", "a route removed and loaded again with the same head content",
    "the head content of a removed route is remembered if the route had a page",
    [(SE, """        let html_removed = self.html_cache.remove(route).is_some();
        let head_removed = self.head_cache.remove(route).is_some();
        html_removed || head_removed""", """        self.html_cache.remove(route).is_some() || self.head_cache.remove(route).is_some()""")],
    '''
    use hotmeal_server::*;
    let mut s = LiveReloadServer::new();
    must!(matches!(s.diff_route_with_head("/", "<p>x</p>", "h"), Some(LiveReloadEvent::HeadChanged { .. })), "no reload for new head content");
    must!(s.remove_route("/"), "not removed");
    must!(matches!(s.diff_route_with_head("/", "<p>x</p>", "h"), Some(LiveReloadEvent::HeadChanged { .. })), "head content of a removed route is remembered");
''')

hbug("S01-head-stale", "S01", "head content and page change together, then the page changes alone",
    "patches start from a page the client no longer shows",
    [(SE, """            // Head changed — must full reload, but still update HTML cache
            self.html_cache
                .insert(route.to_owned(), new_html.to_owned());
            return Some(LiveReloadEvent::HeadChanged {""", """            // Head changed — must full reload, but still update HTML cache
            self.html_cache
                .entry(route.to_owned())
                .or_insert_with(|| new_html.to_owned());
            return Some(LiveReloadEvent::HeadChanged {""")],
    '''
    use hotmeal_server::*;
    let mut s = LiveReloadServer::new();
    s.cache_html("/", "<p>1</p>");
    s.cache_head_injections("/", "h");
    must!(matches!(s.diff_route_with_head("/", "<b>1</b><i>2</i>", "g"), Some(LiveReloadEvent::HeadChanged { .. })), "no reload for changed head content");
    // the client has reloaded and shows this page
    let mut client = raw("<b>1</b><i>2</i>");
    match s.diff_route_with_head("/", "<b>1</b><i>3</i>", "g") {
        Some(LiveReloadEvent::Patches { patches_blob, .. }) => {
            let ps: Vec<Patch<'static>> = match facet_postcard::from_slice(&patches_blob) { Ok(p) => p, Err(_) => fail("no patches") };
            must!(client.apply_patches(ps).is_ok(), "patches do not apply");
            must!(shape(&client) == shape(&raw("<b>1</b><i>3</i>")), "the client shows {}", shape(&client));
        }
        _ => fail("no patches"),
    }
''')

hbug("W01-slot-store", "W01", "a displaced node whose slot number is used for the second time in one session of incremental updates",
    "placeholders are left out where a node leaves displaced content",
    [(WA, """                let node = find_node(root, from_path, slots)?;
                if let Some(parent) = node.parent_node() {
                    let empty_text = doc.create_text_node("");
                    parent.replace_child(&empty_text, &node)?;
                }
                node""", """                let node = find_node(root, from_path, slots)?;
                if let Some(parent) = node.parent_node() {
                    if from_path.0[0] == 0 {
                        let empty_text = doc.create_text_node("");
                        parent.replace_child(&empty_text, &node)?;
                    } else {
                        parent.remove_child(&node)?;
                    }
                }
                node""")],
    '''
    exact_shown("<div><a>1</a><b>2</b></div>", "<p>x</p><a>1</a><b>2</b>");
    exact_shown("<div><div></div><div></div></div>", "<p></p><div></div><div></div>");
    exact_shown("<div><a>1</a><b>2</b><i>3</i></div><p>x</p>", "<section><a>1</a><i>3</i><b>2</b></section><p>x</p>");
    exact_shown("<div><a>1</a><b>2</b><i>3</i></div>", "<ul><li>q</li></ul><b>2</b><a>1</a><i>3</i>");
''')

hbug("W01-kept-value", "W01", "an element with href and xlink:href whose attributes change while one of the two keeps its value",
    "the kept attribute takes the value of the other one",
    [(WA, "                        .filter_map(|i| el.attributes().item(i).map(|a| (a.name(), a.value())))", "                        .filter_map(|i| {\n                            el.attributes().item(i).map(|a| (a.local_name(), a.value()))\n                        })"),
     (WA, "                            None => existing.get(&attr_name).cloned().unwrap_or_default(),", "                            None => existing\n                                .get(&*qual_name.local)\n                                .cloned()\n                                .unwrap_or_default(),"),
     (WA, "                for attr_name in existing.keys() {\n                    el.remove_attribute(attr_name)?;\n                }", "                while let Some(attr) = el.attributes().item(0) {\n                    el.remove_attribute(&attr.name())?;\n                }")],
    '''
    exact_shown("<svg><a href=\\"1\\" id=\\"m\\"></a></svg>", "<svg><a href=\\"1\\" id=\\"n\\"></a></svg>");
    exact_shown("<svg><a href=\\"1\\" xlink:href=\\"2\\" id=\\"m\\"></a></svg>", "<svg><a href=\\"1\\" xlink:href=\\"2\\" id=\\"n\\"></a></svg>");
''')

hbug("H09-upper-body", "H09", "a page whose body tag is in capitals, without an html tag, behind white space",
    "the page is put into another body, so white space in front of it becomes content",
    [(DO, '''    let lower = input.to_ascii_lowercase();
    lower.contains("<html") || lower.contains("<body")''', '''    input.to_ascii_lowercase().contains("<html") || input.contains("<body")''')],
    """
    must!(shape(&raw("\\n<body>x")) == shape(&raw("<body>x")), "{}", shape(&raw("\\n<body>x")));
    must!(shape(&raw("\\n<BODY>x")) == shape(&raw("<body>x")), "{}", shape(&raw("\\n<BODY>x")));
""")

hbug("H09-doctype-kept", "H09", "a page without doctype that has html tags with attributes",
    "it gets a doctype that it did not have",
    [(DO, '''    let mut doc = parse_document(sink, Default::default()).one(input);
    if !has_doctype {
        // Don't store the artificially added DOCTYPE - preserve original input behavior
        doc.doctype = None;''', '''    let wrapped = input.starts_with("<!DOCTYPE html><html><body>");
    let mut doc = parse_document(sink, Default::default()).one(input);
    if !has_doctype && wrapped {
        // Don't store the artificially added DOCTYPE - preserve original input behavior
        doc.doctype = None;''')],
    """
    must!(raw("<p>x").doctype.is_none(), "a doctype is made up");
    must!(raw("<!doctype html><p>x").doctype.is_some(), "the doctype is lost");
    must!(raw("<html lang=\\"en\\"><body><p>x").doctype.is_none(), "a doctype is made up");
""")

hbug("H10-plain-namespace", "H10", "an xmlns attribute, which has a namespace but no prefix, in patches that were sent",
    "the attribute is read back without its namespace",
    [(DI, "            ns: Namespace::from(proxy.ns),", "            ns: match proxy.prefix {\n                Some(_) => Namespace::from(proxy.ns),\n                None => Default::default(),\n            },"),
     (DI, "            prefix: proxy.prefix.filter(|s| !s.is_empty()).map(Prefix::from),", "            prefix: proxy\n                .prefix\n                .clone()\n                .filter(|s| !s.is_empty())\n                .map(Prefix::from),")],
    """
    sent("<p></p>", "<svg><a xlink:href=\\"1\\"></a></svg>");
    sent("<p></p>", "<svg xmlns=\\"n\\"></svg>");
    sent("<svg xmlns=\\"n\\"></svg>", "<svg xmlns=\\"n\\" id=\\"x\\"></svg>");
""")

hbug("H10-tag-case", "H10", "an SVG element whose name has capitals in patches that were sent",
    "the name is read back without them",
    [(DI, "        LocalName::from(proxy.0)", "        LocalName::from(proxy.0.to_ascii_lowercase())")],
    """
    sent("<p></p>", "<svg><a></a></svg>");
    sent("<p></p>", "<svg><clipPath></clipPath></svg>");
""")

hbug("H11-remove-inner", "H11", "removing an element that has children",
    "its children take its place",
    [(DO, "        node.detach(&mut self.arena);\n    }\n\n    /// Set an attribute", "        node.remove(&mut self.arena);\n    }\n\n    /// Set an attribute")],
    """
    let mut d = page("<p></p><i>x</i>");
    let b = d.body().unwrap();
    let p = d.first_child(b).unwrap();
    d.remove(p);
    must!(d.to_body_html() == "<i>x</i>", "{}", d.to_body_html());
    let i = d.first_child(b).unwrap();
    d.remove(i);
    must!(d.to_body_html().is_empty(), "{}", d.to_body_html());
""")

hbug("H11-last-child", "H11", "asking for the last child of a node whose last child has children",
    "a node further down is given",
    [(DO, "        node.children(&self.arena).next_back()", "        node.descendants(&self.arena).skip(1).last()")],
    """
    let d = page("<p></p><i></i>");
    let last = |d: &Document<'static>| d.last_child(d.body().unwrap()).and_then(|n| d.next_sibling(n).is_none().then_some(d.parent(n))).flatten();
    must!(last(&d) == d.body(), "the last child is another");
    must!(d.last_child(d.first_child(d.body().unwrap()).unwrap()).is_none(), "a child is made up");
    let d = page("<p></p><i><b>x</b></i>");
    must!(last(&d) == d.body(), "the last child is another");
""")

hbug("H12-prefix-lost", "H12", "an xmlns:xlink attribute in a page that is written and read again",
    "the attribute is written as xlink",
    [(DO, '''                out.push_str(prefix.as_ref());
                out.push(':');''', '''                if name.ns != ns!(xmlns) {
                    out.push_str(prefix.as_ref());
                    out.push(':');
                }''')],
    """
    for s in ["<svg><a xlink:href=\\"1\\"></a></svg>", "<svg xmlns=\\"n\\"></svg>", "<svg xmlns:xlink=\\"n\\"></svg>"] {
        let d = page(s);
        must!(shape(&raw(&d.to_html())) == shape(&d), "{} is written as {}", s, d.to_html());
    }
""")
