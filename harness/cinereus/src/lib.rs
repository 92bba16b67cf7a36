//! Harnesses: each entry builds symbolic inputs, runs the real cinereus code and asserts one
//! property of it.
pub mod model;
pub mod oracle;
pub mod vp;

use cinereus::indextree::NodeId;
use cinereus::*;
use model::*;
use oracle::*;
use vp::*;

macro_rules! entries {
    ($($n:ident)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n() { h::$n() })*
        pub fn call(name: &str) -> bool { match name { $(stringify!($n) => { h::$n(); true })* _ => false } }
    };
}
entries! { c01_e2e c01_any c02 c03 c04 c05 c06 c06_any c07 c07_any c08 c08_any c09 c10 c11 c12 c13 c14 c15 c16 }

mod h {
    use super::*;

    /// Parameters 0: config mode; 1: similarity mode; 2: same generator for both sides; 3..14
    /// first generator; 14..25 second generator.
    struct In { a: Model, b: Model, ta: OTree, tb: OTree, cfg: MatchingConfig }

    fn sim_mode() {
        const D: [f64; 3] = [1.0, 0.5, 0.25];
        const W: [f64; 4] = [1.0, 0.5, 0.0, f64::NAN];
        match param(1) { 0 => sim_reset(SimMode::One, &D), 1 => sim_reset(SimMode::Attr, &D), 2 => sim_reset(SimMode::Table, &D), _ => sim_reset(SimMode::Table, &W) }
    }
    fn two_models() -> (Model, Model) {
        sim_mode();
        let ga = Gen::from_params(3);
        if ga.style >= 10 { let t = base_tree(&ga, "nodes_a"); let e = edited(&ga, &t); return (t.model(0, ga.props > 0), e.model(1, ga.props > 0)); }
        let gb = if param(2) == 0 { ga } else { Gen::from_params(14) };
        (gen_model(&ga, 0, "nodes_a"), gen_model(&gb, 1, "nodes_b"))
    }
    fn inputs() -> In {
        let (mut a, mut b) = two_models();
        let (ta, tb) = (OTree::new(&mut a), OTree::new(&mut b));
        let cfg = config(param(0));
        In { a, b, ta, tb, cfg }
    }
    fn obs_ops(i: &In, ops: &[EditOp<Ty>]) {
        obs(ops.len() as u64);
        let f = |m: &Model, id: NodeId| m.idx(id).unwrap_or(99) as u64;
        for op in ops {
            match op {
                EditOp::Insert { node_b, parent_b, position, kind } => { obs(1); obs(f(&i.b, *node_b)); obs(f(&i.b, *parent_b)); obs(*position as u64); obs(kind.0 as u64) }
                EditOp::Delete { node_a } => { obs(2); obs(f(&i.a, *node_a)) }
                EditOp::Move { node_a, node_b, new_parent_b, new_position } => { obs(3); obs(f(&i.a, *node_a)); obs(f(&i.b, *node_b)); obs(f(&i.b, *new_parent_b)); obs(*new_position as u64) }
                EditOp::SetText { node_a, node_b, text } => { obs(4); obs(f(&i.a, *node_a)); obs(f(&i.b, *node_b)); obs(text.0 as u64) }
                EditOp::UpdateProperties { node_a, node_b, changes } => { obs(5); obs(f(&i.a, *node_a)); obs(f(&i.b, *node_b)); obs(changes.len() as u64) }
            }
        }
    }
    fn diff(i: &In) -> (Vec<EditOp<Ty>>, Matching) {
        let r = diff_trees_with_matching(&i.ta, &i.tb, &i.cfg);
        obs_ops(i, &r.0);
        r
    }
    fn marks(ops: &[EditOp<Ty>]) {
        for op in ops {
            match op {
                EditOp::Insert { .. } => reach("insert"),
                EditOp::Delete { .. } => reach("delete"),
                EditOp::Move { .. } => reach("move"),
                EditOp::SetText { .. } => reach("set_text"),
                EditOp::UpdateProperties { .. } => reach("update_properties"),
            }
        }
    }

    /// Roots that could be each other: same kind, and equal or similar enough.
    fn roots_correspond(i: &In) -> bool {
        let (x, y) = (&i.a.nd[0], &i.b.nd[0]);
        x.kind == y.kind && sim_of(&x.props, &y.props) >= i.cfg.similarity_threshold
    }

    pub fn c01_e2e() {
        let i = inputs();
        if !roots_correspond(&i) { return; }
        let ops = diff_trees(&i.ta, &i.tb, &i.cfg);
        obs_ops(&i, &ops);
        marks(&ops);
        let s = digest(&i.a, &i.b, &ops);
        transforms(&i.a, &i.b, &ops, &s);
    }

    /// Any one-to-one matching of same-kind nodes that pairs the roots and crosses no opaque border.
    fn any_matching(a: &mut Model, b: &mut Model) -> (OTree, OTree, Matching) {
        let mut free: Vec<usize> = (1..b.n()).collect();
        let mut pairs = vec![(0, 0)];
        for x in 1..a.n() {
            let c = pick("partner", 0, free.len() as u64) as usize;
            if c > 0 { let y = free.remove(c - 1); pairs.push((x, y)); }
        }
        for &(x, y) in &pairs { assume(a.nd[x].kind == b.nd[y].kind); assume(a.inside(x) == b.inside(y)); }
        let (ta, tb) = (OTree::new(a), OTree::new(b));
        let mut m = Matching::new();
        for &(x, y) in &pairs { m.add(a.ids[x], b.ids[y]); }
        (ta, tb, m)
    }
    fn any() -> (Model, Model, Vec<EditOp<Ty>>, Vec<Option<usize>>) {
        let (mut a, mut b) = two_models();
        let (ta, tb, m) = any_matching(&mut a, &mut b);
        let ops = generate_edit_script(&ta, &tb, &m);
        marks(&ops);
        let pa = partners(&a, &b, &m);
        (a, b, ops, pa)
    }
    pub fn c01_any() { let (a, b, ops, _) = any(); let s = digest(&a, &b, &ops); transforms(&a, &b, &ops, &s); }
    pub fn c06_any() { let (a, b, ops, pa) = any(); let s = digest(&a, &b, &ops); updates(&a, &b, &ops, &s, &pa); }
    pub fn c07_any() { let (a, b, ops, pa) = any(); let s = digest(&a, &b, &ops); no_unnecessary(&a, &b, &s, &pa); }
    pub fn c08_any() { let (a, b, ops, _) = any(); replayable(&a, &b, &ops); }

    pub fn c02() {
        let i = inputs();
        let m = compute_matching(&i.ta, &i.tb, &i.cfg);
        let pa = one_to_one(&i.a, &i.b, &m);
        if pa.iter().flatten().count() > 1 { reach("several pairs"); }
        if pa.iter().any(|x| x.is_none()) { reach("unmatched node"); }
    }

    pub fn c03() {
        let i = inputs();
        let m = compute_matching(&i.ta, &i.tb, &i.cfg);
        for (x, y) in m.pairs() {
            let (Some(p), Some(q)) = (i.a.idx(x), i.b.idx(y)) else { check(false, "paired nodes belong to their trees"); return };
            check(i.a.nd[p].kind == i.b.nd[q].kind, "matched nodes have the same kind");
            if p > 0 { reach("inner pair"); }
        }
    }

    pub fn c04() {
        sim_mode();
        let ga = Gen::from_params(3);
        let mut a = if ga.style >= 10 { base_tree(&ga, "nodes_a").model(0, ga.props > 0) } else { gen_model(&ga, 0, "nodes_a") };
        let mut b = a.clone();
        for x in &mut b.nd { x.props.side = 1; }
        let (ta, tb) = (OTree::new(&mut a), OTree::new(&mut b));
        let cfg = config(param(0));
        let i = In { a, b, ta, tb, cfg };
        let (ops, m) = diff(&i);
        check(ops.is_empty(), "no edits between equal trees");
        for x in 0..i.a.n() {
            let g = m.get_b(i.a.ids[x]);
            if i.a.inside(x) { check(g.is_none() || g == Some(i.b.ids[x]), "a node inside an opaque node meets nothing but its copy"); continue; }
            check(g == Some(i.b.ids[x]), "every node meets its own copy");
            check(m.get_a(i.b.ids[x]) == Some(i.a.ids[x]), "every copy meets its original");
        }
        reach("compared");
    }

    pub fn c05() {
        let i = inputs();
        let (ops, m) = diff(&i);
        marks(&ops);
        let s = digest(&i.a, &i.b, &ops);
        check(!s.foreign, "every operation names nodes of the right tree");
        opaque_atomic(&i.a, &i.b, &s);
        // colliding hashes excuse a wrong result, not a reach into opaque nodes
        if (param(11) | param(22)) == 0 && roots_correspond(&i) { transforms(&i.a, &i.b, &ops, &s); }
        // an opaque pair is an atom: its inside is not matched either
        for (x, y) in m.pairs() {
            let (Some(p), Some(q)) = (i.a.idx(x), i.b.idx(y)) else { continue };
            check(!i.a.inside(p), "no old node inside an opaque node is matched");
            if i.a.nd[p].opaque && i.b.nd[q].opaque { reach("opaque pair"); }
        }
    }

    pub fn c06() { let i = inputs(); let (ops, m) = diff(&i); marks(&ops); let pa = partners(&i.a, &i.b, &m); let s = digest(&i.a, &i.b, &ops); updates(&i.a, &i.b, &ops, &s, &pa); }
    pub fn c07() { let i = inputs(); let (ops, m) = diff(&i); marks(&ops); let pa = partners(&i.a, &i.b, &m); let s = digest(&i.a, &i.b, &ops); no_unnecessary(&i.a, &i.b, &s, &pa); }
    pub fn c08() { let i = inputs(); let (ops, _) = diff(&i); marks(&ops); replayable(&i.a, &i.b, &ops); }

    pub fn c09() {
        let i = inputs();
        let m = compute_matching(&i.ta, &i.tb, &i.cfg);
        for (x, y) in m.pairs() {
            let (Some(p), Some(q)) = (i.a.idx(x), i.b.idx(y)) else { check(false, "paired nodes belong to their trees"); return };
            let (na, nb) = (&i.a.nd[p], &i.b.nd[q]);
            let same = na.hash == nb.hash;
            let atom = (na.opaque | nb.opaque) & (na.kind == nb.kind);
            if same | atom { continue; }
            check(sim_of(&na.props, &nb.props) >= i.cfg.similarity_threshold, "matched nodes are equal, opaque or similar enough");
            reach("similar pair");
        }
    }

    /// Both results name the same nodes, given what kinds were renamed to.
    fn correspond(i: &In, o1: &[EditOp<Ty>], j: &In, o2: &[EditOp<Ty>], rk: fn(u8) -> u8) {
        check(o1.len() == o2.len(), "scripts of equal length");
        let f = |m: &Model, id: NodeId| m.idx(id).unwrap_or(99);
        for (p, q) in o1.iter().zip(o2) {
            let ok = match (p, q) {
                (EditOp::Insert { node_b, parent_b, position, kind }, EditOp::Insert { node_b: nb, parent_b: pb, position: po, kind: ki }) => (f(&i.b, *node_b) == f(&j.b, *nb)) & (f(&i.b, *parent_b) == f(&j.b, *pb)) & (position == po) & (rk(kind.0) == ki.0),
                (EditOp::Delete { node_a }, EditOp::Delete { node_a: na }) => f(&i.a, *node_a) == f(&j.a, *na),
                (EditOp::Move { node_a, node_b, new_parent_b, new_position }, EditOp::Move { node_a: na, node_b: nb, new_parent_b: np, new_position: po }) => (f(&i.a, *node_a) == f(&j.a, *na)) & (f(&i.b, *node_b) == f(&j.b, *nb)) & (f(&i.b, *new_parent_b) == f(&j.b, *np)) & (new_position == po),
                (EditOp::SetText { node_a, node_b, text }, EditOp::SetText { node_a: na, node_b: nb, text: t }) => (f(&i.a, *node_a) == f(&j.a, *na)) & (f(&i.b, *node_b) == f(&j.b, *nb)) & (text.0 == t.0),
                (EditOp::UpdateProperties { node_a, node_b, changes }, EditOp::UpdateProperties { node_a: na, node_b: nb, changes: c }) => (f(&i.a, *node_a) == f(&j.a, *na)) & (f(&i.b, *node_b) == f(&j.b, *nb)) & (changes == c),
                _ => false,
            };
            check(ok, "corresponding operations");
        }
    }
    /// The same trees again, built in another order.
    fn rebuilt(i: &In, order_a: u64, order_b: u64, f: impl Fn(&Model) -> Model) -> In {
        let (mut a, mut b) = (f(&i.a), f(&i.b));
        let (ta, tb) = (OTree::permuted(&mut a, order_a), OTree::permuted(&mut b, order_b));
        In { a, b, ta, tb, cfg: i.cfg.clone() }
    }

    pub fn c10() {
        let i = inputs();
        set_rand(1);
        let (o1, m1) = diff(&i);
        // another diff in between, with ids standing for other nodes, must not matter
        let j = rebuilt(&i, 1, 2, |m| m.clone());
        let _ = diff_trees_with_matching(&j.tb, &j.ta, &j.cfg);
        set_rand(0x9e37_79b9_7f4a_7c15);
        let (o2, m2) = diff_trees_with_matching(&i.ta, &i.tb, &i.cfg);
        check(same_ops(&o1, &o2), "the same script again");
        let (p1, p2): (Vec<_>, Vec<_>) = (m1.pairs().collect(), m2.pairs().collect());
        check(p1 == p2, "the same matching again");
        // nor must the first diff matter when its node ids come back as other nodes
        set_rand(0x1234_5678_9abc_def1);
        let o3 = diff_trees(&j.ta, &j.tb, &j.cfg);
        correspond(&i, &o1, &j, &o3, |k| k);
        marks(&o1);
    }

    pub fn c14() {
        let i = inputs();
        let (o1, m1) = diff(&i);
        // the same trees, other node ids, renamed hashes and kinds
        let order = param(25);
        let rn = |m: &Model| {
            let mut r = m.clone();
            for x in &mut r.nd { x.hash = (x.hash ^ 0x5555_aaaa_0f0f_3c3c).rotate_left(17); x.kind = 255 - x.kind; }
            r
        };
        let used = order & 4;
        let j = if order % 4 == 1 { rebuilt(&i, order, used | 2, rn) } else { rebuilt(&i, order, used | 1, rn) };
        let (o2, m2) = diff_trees_with_matching(&j.ta, &j.tb, &j.cfg);
        let pr = |k: &In, m: &Matching| -> Vec<(usize, usize)> { m.pairs().map(|(x, y)| (k.a.idx(x).unwrap_or(99), k.b.idx(y).unwrap_or(99))).collect() };
        check(pr(&i, &m1) == pr(&j, &m2), "corresponding matching");
        correspond(&i, &o1, &j, &o2, |k| 255 - k);
        marks(&o1);
    }

    pub fn c11() {
        // every building history: node i may go under any earlier node
        let style = param(2);
        let n = if style == 0 { pick("nodes", param(0), param(1)) } else { param(1) } as usize;
        let mut par = vec![usize::MAX];
        if style > 0 { par = parents(style, n - 1, 1); par.push(pick("parent", 0, n as u64 - 2) as usize); }
        for i in par.len()..n { par.push(if i == 1 { 0 } else { pick("parent", 0, i as u64 - 1) as usize }); }
        let kinds: Vec<u8> = (0..n).map(|_| sym8("kind", 200)).collect();
        let texts: Vec<u8> = (0..n).map(|_| sym8("text", 200)).collect();
        let hashes: Vec<u64> = (0..n).map(|_| sym("hash", 0, u64::MAX)).collect();
        let d = |i: usize| -> NodeData<Ty> {
            let mut p = P::default();
            p.v[0] = texts[i];
            NodeData::new(NodeHash(hashes[i]), K(kinds[i]), p, if i % 2 == 0 { Some(Txt(texts[i])) } else { None })
        };
        let mut t: Tree<Ty> = Tree::new(d(0));
        let mut ids = vec![t.root];
        for i in 1..n { let id = t.add_child(ids[par[i]], d(i)); check(!ids.contains(&id), "a new node has a new id"); ids.push(id); }
        let kids: Vec<Vec<usize>> = (0..n).map(|p| (0..n).filter(|&c| par[c] == p).collect()).collect();
        fn pre(k: &[Vec<usize>], i: usize, out: &mut Vec<usize>) { out.push(i); for &c in &k[i] { pre(k, c, out); } }
        fn post(k: &[Vec<usize>], i: usize, out: &mut Vec<usize>) { for &c in &k[i] { post(k, c, out); } out.push(i); }
        fn high(k: &[Vec<usize>], i: usize) -> usize { k[i].iter().map(|&c| 1 + high(k, c)).max().unwrap_or(0) }
        let ix = |id: NodeId| ids.iter().position(|&x| x == id).unwrap_or(99);
        macro_rules! all { ($t:expr, $dt:expr) => {{
            let t = $t;
            let mut e = vec![]; pre(&kids, 0, &mut e);
            check(t.iter().map(ix).collect::<Vec<_>>() == e, "whole traversal is the preorder");
            let mut e = vec![]; post(&kids, 0, &mut e);
            check(t.post_order().map(ix).collect::<Vec<_>>() == e, "post-order traversal");
            for i in 0..n {
                let id = ids[i];
                check(t.parent(id).map(ix) == if i == 0 { None } else { Some(par[i]) }, "parent");
                check(t.children(id).map(ix).collect::<Vec<_>>() == kids[i], "children in insertion order");
                check(t.child_count(id) == kids[i].len(), "child count");
                let pos = if i == 0 { 0 } else { kids[par[i]].iter().position(|&c| c == i).unwrap() };
                check(t.position(id) == pos, "position among siblings");
                check(t.height(id) == high(&kids, i), "height");
                let mut e = vec![]; pre(&kids, i, &mut e);
                check(t.descendants(id).map(ix).collect::<Vec<_>>() == e, "descendants in preorder");
                if $dt { 
                    let t: &dyn Probe = &Wrap(t);
                    t.go(id, hashes[i], kinds[i], texts[i], i % 2 == 0, n);
                }
            }
        }} }
        trait Probe { fn go(&self, id: NodeId, h: u64, k: u8, t: u8, has: bool, n: usize); }
        struct Wrap<'a, T>(&'a T);
        impl<T: DiffTree<Types = Ty>> Probe for Wrap<'_, T> {
            fn go(&self, id: NodeId, h: u64, k: u8, t: u8, has: bool, n: usize) {
                check(self.0.node_count() == n, "node count");
                check(self.0.hash(id).0 == h, "hash is returned unchanged");
                check(self.0.kind(id).0 == k, "kind is returned unchanged");
                check(self.0.properties(id).v[0] == t, "properties are returned unchanged");
                check(self.0.text(id).map(|x| x.0).is_some() == has, "presence of text is returned unchanged");
                if let Some(x) = self.0.text(id) { check(x.0 == t, "text is returned unchanged"); }
                check(!self.0.is_opaque(id), "plain trees have no opaque nodes");
            }
        }
        // inherent methods, trait methods, and the trait's default methods
        struct ViaTrait<'a>(&'a Tree<Ty>);
        impl ViaTrait<'_> {
            fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::iter(self.0) }
            fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::post_order(self.0) }
            fn parent(&self, id: NodeId) -> Option<NodeId> { DiffTree::parent(self.0, id) }
            fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::children(self.0, id) }
            fn child_count(&self, id: NodeId) -> usize { DiffTree::child_count(self.0, id) }
            fn position(&self, id: NodeId) -> usize { DiffTree::position(self.0, id) }
            fn height(&self, id: NodeId) -> usize { DiffTree::height(self.0, id) }
            fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::descendants(self.0, id) }
        }
        all!(&t, true);
        all!(&MinTree(&t), true);
        { let v = ViaTrait(&t);
          let mut e = vec![]; pre(&kids, 0, &mut e);
          check(v.iter().map(ix).collect::<Vec<_>>() == e, "whole traversal is the preorder (trait)");
          let mut e = vec![]; post(&kids, 0, &mut e);
          check(v.post_order().map(ix).collect::<Vec<_>>() == e, "post-order traversal (trait)");
          for i in 0..n {
            let id = ids[i];
            check(v.parent(id).map(ix) == if i == 0 { None } else { Some(par[i]) }, "parent (trait)");
            check(v.children(id).map(ix).collect::<Vec<_>>() == kids[i], "children in insertion order (trait)");
            check(v.child_count(id) == kids[i].len(), "child count (trait)");
            let pos = if i == 0 { 0 } else { kids[par[i]].iter().position(|&c| c == i).unwrap() };
            check(v.position(id) == pos, "position among siblings (trait)");
            check(v.height(id) == high(&kids, i), "height (trait)");
            let mut e = vec![]; pre(&kids, i, &mut e);
            check(v.descendants(id).map(ix).collect::<Vec<_>>() == e, "descendants in preorder (trait)");
            check(t.get(id).hash.0 == hashes[i], "stored hash");
            check(t.get(id).kind.0 == kinds[i], "stored kind");
          }
          check(DiffTree::root(&t) == ids[0] && t.root == ids[0], "root");
        }
        if n > 3 && kids[0].len() > 1 { reach("branching tree"); }
    }

    pub fn c12() {
        let m = param(0); // ids in use: 0..m
        let steps = param(1);
        let mut arena: indextree::Arena<u8> = indextree::Arena::new();
        let far = param(3) != 0;
        const FAR: [usize; 10] = [0, 1, 7, 8, 31, 63, 64, 127, 128, 199];
        let mut ids: Vec<NodeId> = (0..if far { 200 } else { m + 3 }).map(|_| arena.new_node(0)).collect();
        if far { ids = FAR.iter().map(|&i| ids[i]).collect(); }
        let cap = |nm: &str| { let c = pick(nm, 0, param(2)) as usize; if far { [0, 1, 8, 64, 100, 200][c] } else { c } };
        let mut t = match pick("created", 0, 2) {
            0 => Matching::new(),
            1 => Matching::default(),
            _ => Matching::with_capacity(cap("cap_a"), cap("cap_b")),
        };
        check(t.is_empty() && t.len() == 0 && t.pairs().next().is_none(), "a new matching is empty");
        let mut hist: Vec<(usize, usize)> = vec![];
        let k = pick("steps", 0, steps) as usize;
        for s in 0..=k {
            for i in 0..ids.len() {
                let ea = hist.iter().rev().find(|p| p.0 == i).map(|p| ids[p.1]);
                let eb = hist.iter().rev().find(|p| p.1 == i).map(|p| ids[p.0]);
                check(t.get_b(ids[i]) == ea, "lookup of an old node gives its latest partner");
                check(t.get_a(ids[i]) == eb, "lookup of a new node gives its latest partner");
                check(t.contains_a(ids[i]) == ea.is_some(), "membership of an old node");
                check(t.contains_b(ids[i]) == eb.is_some(), "membership of a new node");
            }
            check(t.len() == hist.len(), "count of registrations");
            check(t.is_empty() == hist.is_empty(), "emptiness");
            let l: Vec<(NodeId, NodeId)> = t.pairs().collect();
            check(l.len() == hist.len() && l.iter().zip(&hist).all(|(x, y)| x.0 == ids[y.0] && x.1 == ids[y.1]), "listing repeats the registrations");
            if s < k {
                let (a, b) = (pick("a", 0, m - 1) as usize, pick("b", 0, m - 1) as usize);
                t.add(ids[a], ids[b]);
                hist.push((a, b));
                if hist.len() > 1 { reach("several registrations"); }
            }
        }
    }

    pub fn c13() {
        let i = inputs();
        let (ops, m) = diff(&i);
        marks(&ops);
        let (mut ins, mut del, mut per) = (0, 0, 0);
        for op in &ops { match op { EditOp::Insert { .. } => ins += 1, EditOp::Delete { .. } => del += 1, _ => per += 1 } }
        check(ins <= i.b.n(), "at most one insertion per new node");
        check(del <= i.a.n(), "at most one deletion per old node");
        check(per <= 3 * m.len(), "at most three operations per pair");
        check(m.len() <= i.a.n().min(i.b.n()), "at most one pair per node");
    }

    /// How often a subtree occurs.
    fn occurs(m: &Model, h: u64) -> usize { let mut c = 0; for x in &m.nd { c += (x.hash == h) as usize; } c }

    /// Content found once in each tree, below elements of the same kinds at the same depth, is kept.
    pub fn c15() {
        let i = inputs();
        let (ops, m) = diff(&i);
        marks(&ops);
        let low = i.cfg.min_height;
        for x in 0..i.a.n() {
            if i.a.height(x) < low { continue; }
            for y in 0..i.b.n() {
                if i.a.nd[x].depth != i.b.nd[y].depth || i.a.nd[x].end - x != i.b.nd[y].end - y { continue; }
                let (mut p, mut q) = (x, y);
                let mut same = i.a.nd[x].hash == i.b.nd[y].hash;
                loop {
                    same &= i.a.nd[p].kind == i.b.nd[q].kind;
                    if p == 0 { break; }
                    (p, q) = (i.a.nd[p].par, i.b.nd[q].par);
                }
                if !same { continue; }
                if occurs(&i.a, i.a.nd[x].hash) > 1 || occurs(&i.b, i.b.nd[y].hash) > 1 { continue; }
                reach("kept");
                check(m.get_b(i.a.ids[x]) == Some(i.b.ids[y]), "unchanged content is kept");
            }
        }
    }

    /// One small change gives exactly the edit for it.
    pub fn c16() {
        sim_mode();
        let g = Gen::from_params(3);
        let t = base_tree(&g, "nodes_a");
        let cfg = config(param(0));
        let mut a = t.model(0, g.props > 0);
        // every subtree occurs once in each tree, but for those below the minimum height
        let unique = |m: &Model| (0..m.n()).all(|x| m.height(x) < cfg.min_height || occurs(m, m.nd[x].hash) == 1);
        if !unique(&a) { return; }
        let mut e = t.clone();
        let n = a.n() as u64;
        let what = pick("edit", 0, 3);
        let x = place("node", 0, n - 1);
        const FRESH: u8 = 200;
        match what {
            0 => { if !a.nd[x].has_text { return; } e.at(x).text = FRESH; }
            1 => { if g.props == 0 { return; } e.at(x).prop = if n < 6 { sym8("prop", g.pvals) } else { pick("prop", 0, g.pvals) as u8 }; }
            2 => {
                if a.nd[x].has_text { return; }
                e.at(x).kids.push(Tn { kind: TEXT, has_text: true, text: FRESH, prop: 1, ..Tn::default() });
            }
            _ => { if x == 0 || a.nd[x].end != a.nd[a.nd[x].par].end { return; } e.take(x); }
        }
        let mut b = e.model(1, g.props > 0);
        if !unique(&b) { return; }
        let (ta, tb) = (OTree::new(&mut a), OTree::new(&mut b));
        let i = In { a, b, ta, tb, cfg };
        let (ops, _) = diff(&i);
        marks(&ops);
        match what {
            0 => check(ops.len() == 1 && matches!(&ops[0], EditOp::SetText { node_a, node_b, text } if *node_a == i.a.ids[x] && *node_b == i.b.ids[x] && text.0 == FRESH), "a changed text is one text update"),
            1 => {
                if sim_of(&i.a.nd[x].props, &i.b.nd[x].props) < i.cfg.similarity_threshold { return; }
                if i.b.nd[x].props.v[0] == 1 { check(ops.is_empty(), "no change, no edit"); return; }
                check(ops.len() == 1 && matches!(&ops[0], EditOp::UpdateProperties { node_a, node_b, .. } if *node_a == i.a.ids[x] && *node_b == i.b.ids[x]), "a changed property is one property update");
            }
            2 => {
                let y = i.a.nd[x].end;
                check(ops.len() == 1 && matches!(&ops[0], EditOp::Insert { node_b, parent_b, position, .. } if *node_b == i.b.ids[y] && *parent_b == i.b.ids[x] && *position == i.a.nd[x].kids), "an appended leaf is one insertion");
            }
            _ => {
                check(ops.len() == i.a.nd[x].end - x, "a removed last child is deleted, and nothing else");
                for op in &ops { check(matches!(op, EditOp::Delete { node_a } if i.a.idx(*node_a).is_some_and(|k| k >= x && k < i.a.nd[x].end)), "a removed last child is deleted, and nothing else"); }
            }
        }
    }
}
