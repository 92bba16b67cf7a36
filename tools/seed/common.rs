// Shared by the demonstrations: plain trees, the real cinereus diff, and an independent replay.
#![allow(dead_code, unused_imports, unused_macros)]
use cinereus::indextree::NodeId;
use cinereus::*;
use std::collections::HashMap;
use std::fmt;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct S(pub String);
impl fmt::Display for S { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }

/// Ordered key-value properties; similarity is the share of keys with equal values.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct P(pub Vec<(String, String)>);
impl P { fn get(&self, k: &str) -> Option<&String> { self.0.iter().find(|x| x.0 == k).map(|x| &x.1) } }
impl Properties for P {
    type Key = S;
    type Value = S;
    fn similarity(&self, o: &Self) -> f64 {
        let mut keys: Vec<&String> = self.0.iter().chain(&o.0).map(|x| &x.0).collect();
        keys.sort();
        keys.dedup();
        if keys.is_empty() { return 1.0; }
        let n = keys.len();
        keys.into_iter().filter(|k| self.get(k) == o.get(k)).count() as f64 / n as f64
    }
    fn diff(&self, o: &Self) -> Vec<PropertyInFinalState<S, S>> {
        o.0.iter().map(|(k, v)| PropertyInFinalState { key: S(k.clone()), value: if self.get(k) == Some(v) { PropValue::Same } else { PropValue::Different(S(v.clone())) } }).collect()
    }
    fn is_empty(&self) -> bool { self.0.is_empty() }
    fn len(&self) -> usize { self.0.len() }
}
pub type Ty = SimpleTypes<S, P, S>;

#[derive(Clone, Debug)]
pub struct N { pub kind: String, pub text: Option<String>, pub props: Vec<(String, String)>, pub opaque: bool, pub hash: Option<u64>, pub kids: Vec<N> }
pub fn el(kind: &str, kids: Vec<N>) -> N { N { kind: kind.into(), text: None, props: vec![], opaque: false, hash: None, kids } }
impl N {
    pub fn t(mut self, s: &str) -> N { self.text = Some(s.into()); self }
    pub fn p(mut self, k: &str, v: &str) -> N { self.props.push((k.into(), v.into())); self }
    pub fn o(mut self) -> N { self.opaque = true; self }
    pub fn h(mut self, h: u64) -> N { self.hash = Some(h); self }
    fn show(&self, inner: bool) -> String {
        let mut s = self.kind.clone();
        if let Some(t) = &self.text { s += &format!("={t:?}"); }
        let mut p = self.props.clone();
        p.sort();
        for (k, v) in p { s += &format!(" {k}:{v}"); }
        if inner && self.opaque { return format!("<{s} opaque>"); }
        format!("<{s}{}>", self.kids.iter().map(|k| k.show(inner)).collect::<String>())
    }
    pub fn structural(&self) -> u64 {
        if let Some(h) = self.hash { return h; }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.show(false).hash(&mut h);
        h.finish()
    }
}

pub struct T { pub t: Tree<Ty>, pub opaque: Vec<NodeId>, pub ids: Vec<NodeId>, pub nodes: Vec<N> }
pub fn data(n: &N) -> NodeData<Ty> { NodeData::new(NodeHash(n.structural()), S(n.kind.clone()), P(n.props.clone()), n.text.clone().map(S)) }
impl T {
    pub fn new(n: &N) -> T {
        let t = Tree::new(data(n));
        let mut r = T { opaque: vec![], ids: vec![t.root], nodes: vec![n.clone()], t };
        let root = r.t.root;
        if n.opaque { r.opaque.push(root); }
        r.fill(n, root);
        r
    }
    fn fill(&mut self, n: &N, id: NodeId) {
        for k in &n.kids {
            let c = self.t.add_child(id, data(k));
            if k.opaque { self.opaque.push(c); }
            self.ids.push(c);
            self.nodes.push(k.clone());
            self.fill(k, c);
        }
    }
    /// Allocates the nodes in reverse preorder, so that ids run the other way.
    pub fn reversed(n: &N) -> T {
        let mut all = vec![];
        fn walk(n: &N, par: usize, all: &mut Vec<(N, usize)>) { let i = all.len(); all.push((n.clone(), par)); for k in &n.kids { walk(k, i, all); } }
        walk(n, 0, &mut all);
        let mut arena = cinereus::indextree::Arena::new();
        let mut ids: Vec<NodeId> = all.iter().rev().map(|(n, _)| arena.new_node(data(n))).collect();
        ids.reverse();
        for i in 1..all.len() { ids[all[i].1].append(ids[i], &mut arena); }
        let opaque = (0..all.len()).filter(|&i| all[i].0.opaque).map(|i| ids[i]).collect();
        T { t: Tree { arena, root: ids[0] }, opaque, ids, nodes: all.into_iter().map(|x| x.0).collect() }
    }
    pub fn at(&self, id: NodeId) -> usize { self.ids.iter().position(|&x| x == id).unwrap() }
    pub fn inside(&self, id: NodeId) -> bool {
        let mut p = self.t.parent(id);
        while let Some(x) = p { if self.opaque.contains(&x) { return true; } p = self.t.parent(x); }
        false
    }
}
impl DiffTree for T {
    type Types = Ty;
    fn root(&self) -> NodeId { self.t.root }
    fn node_count(&self) -> usize { self.ids.len() }
    fn hash(&self, id: NodeId) -> NodeHash { self.t.get(id).hash }
    fn kind(&self, id: NodeId) -> &S { &self.t.get(id).kind }
    fn properties(&self, id: NodeId) -> &P { &self.t.get(id).properties }
    fn text(&self, id: NodeId) -> Option<&S> { self.t.get(id).text.as_ref() }
    fn parent(&self, id: NodeId) -> Option<NodeId> { Tree::parent(&self.t, id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { Tree::children(&self.t, id) }
    fn child_count(&self, id: NodeId) -> usize { Tree::child_count(&self.t, id) }
    fn position(&self, id: NodeId) -> usize { Tree::position(&self.t, id) }
    fn height(&self, id: NodeId) -> usize { Tree::height(&self.t, id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { Tree::iter(&self.t) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { Tree::post_order(&self.t) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { Tree::descendants(&self.t, id) }
    fn is_opaque(&self, id: NodeId) -> bool { self.opaque.contains(&id) }
}

pub type Op = EditOp<Ty>;
pub fn diff(a: &T, b: &T, cfg: &MatchingConfig) -> (Vec<Op>, Matching) { diff_trees_with_matching(a, b, cfg) }
pub fn cfg(threshold: f64, min_height: usize) -> MatchingConfig { MatchingConfig { similarity_threshold: threshold, min_height } }

/// Script with node positions instead of ids.
pub fn plain(a: &T, b: &T, ops: &[Op]) -> Vec<String> {
    ops.iter().map(|o| match o {
        EditOp::Insert { node_b, parent_b, position, kind } => format!("insert b{} {} under b{} at {position}", b.at(*node_b), kind, b.at(*parent_b)),
        EditOp::Delete { node_a } => format!("delete a{}", a.at(*node_a)),
        EditOp::Move { node_a, node_b, new_parent_b, new_position } => format!("move a{} b{} under b{} at {new_position}", a.at(*node_a), b.at(*node_b), b.at(*new_parent_b)),
        EditOp::SetText { node_a, node_b, text } => format!("text a{} b{} {}", a.at(*node_a), b.at(*node_b), text),
        EditOp::UpdateProperties { node_a, node_b, changes } => format!("props a{} b{} {:?}", a.at(*node_a), b.at(*node_b), changes),
    }).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Item { Old(NodeId), New(NodeId) }

/// Replays the script on the old tree and renders the result (opaque content left out).
pub fn replay(a: &T, b: &T, ops: &[Op], m: &Matching) -> Result<String, String> {
    let (mut del, mut mov, mut text, mut props) = (vec![], HashMap::new(), HashMap::new(), HashMap::new());
    let mut place: HashMap<Item, Vec<(usize, Item)>> = HashMap::new();
    let mut kinds = HashMap::new();
    for o in ops {
        match o {
            EditOp::Delete { node_a } => del.push(*node_a),
            EditOp::Move { node_a, new_parent_b, new_position, .. } => { mov.insert(*node_a, (*new_parent_b, *new_position)); }
            EditOp::SetText { node_a, text: t, .. } => { text.insert(*node_a, t.0.clone()); }
            EditOp::UpdateProperties { node_a, changes, .. } => {
                let old = &a.t.get(*node_a).properties;
                let v: Vec<(String, String)> = changes.iter().map(|c| (c.key.0.clone(), match &c.value { PropValue::Same => old.get(&c.key.0).cloned().unwrap_or_default(), PropValue::Different(x) => x.0.clone() })).collect();
                props.insert(*node_a, v);
            }
            EditOp::Insert { node_b, kind, .. } => { kinds.insert(*node_b, kind.0.clone()); }
        }
    }
    let in_b = |p: NodeId| if kinds.contains_key(&p) { Ok(Item::New(p)) } else { m.get_a(p).map(Item::Old).ok_or(format!("no node for parent b{}", b.at(p))) };
    for o in ops { if let EditOp::Insert { node_b, parent_b, position, .. } = o { place.entry(in_b(*parent_b)?).or_default().push((*position, Item::New(*node_b))); } }
    for &x in &a.ids {
        if x == a.t.root || del.contains(&x) || a.inside(x) { continue; }
        let (p, pos) = match mov.get(&x) { Some(&(p, pos)) => (in_b(p)?, pos), None => (Item::Old(Tree::parent(&a.t, x).unwrap()), Tree::position(&a.t, x)) };
        place.entry(p).or_default().push((pos, Item::Old(x)));
    }
    let mut seen = 0;
    fn go(i: Item, a: &T, b: &T, m: &Matching, del: &[NodeId], place: &HashMap<Item, Vec<(usize, Item)>>, text: &HashMap<NodeId, String>, props: &HashMap<NodeId, Vec<(String, String)>>, depth: usize, seen: &mut usize) -> Result<N, String> {
        if depth > 50 { return Err("cycle".into()); }
        *seen += 1;
        let mut n = match i {
            Item::Old(x) => {
                if del.contains(&x) { return Err(format!("deleted node a{} still used", a.at(x))); }
                let d = a.t.get(x);
                let mut n = el(&d.kind.0, vec![]);
                n.text = text.get(&x).cloned().or(d.text.clone().map(|t| t.0));
                n.props = props.get(&x).cloned().unwrap_or(d.properties.0.clone());
                n.opaque = a.opaque.contains(&x) || m.get_b(x).is_some_and(|y| b.opaque.contains(&y));
                n
            }
            Item::New(y) => { let mut n = b.nodes[b.at(y)].clone(); n.kids.clear(); n }
        };
        if n.opaque { return Ok(n); }
        let mut k = place.get(&i).cloned().unwrap_or_default();
        k.sort_by_key(|x| x.0);
        for (want, (pos, c)) in k.into_iter().enumerate() {
            if pos != want { return Err(format!("children of {i:?}: position {pos} where {want} is due")); }
            n.kids.push(go(c, a, b, m, del, place, text, props, depth + 1, seen)?);
        }
        Ok(n)
    }
    let n = go(Item::Old(a.t.root), a, b, m, &del, &place, &text, &props, 0, &mut seen)?;
    Ok(n.show(true))
}

/// Diffs, replays, and compares with the new tree.
pub fn exact(a: &N, b: &N, c: &MatchingConfig) -> Result<(), String> {
    let (ta, tb) = (T::new(a), T::new(b));
    let (ops, m) = diff(&ta, &tb, c);
    let got = replay(&ta, &tb, &ops, &m).map_err(|e| format!("{e}; script {:?}", plain(&ta, &tb, &ops)))?;
    let want = b.show(true);
    if got == want { Ok(()) } else { Err(format!("got {got}, want {want}; script {:?}", plain(&ta, &tb, &ops))) }
}
pub fn fail(why: &str) -> ! { println!("BROKEN: {why}"); std::process::exit(1) }
macro_rules! must { ($c:expr, $($m:tt)*) => { if !$c { fail(&format!($($m)*)); } } }
