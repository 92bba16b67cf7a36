//! What the properties say about a matching and an edit script, over the plain models.

use crate::model::*;
use crate::vp::*;
use cinereus::indextree::NodeId;
use cinereus::*;

/// The script digested per node; indices are preorder positions in the models.
pub struct Script {
    /// per B node: (how often inserted, parent, position, kind)
    pub ins: Vec<(u32, usize, usize, u8)>,
    /// per A node: how often deleted
    pub del: Vec<u32>,
    /// per A node: (how often moved, node_b, new parent, new position)
    pub mov: Vec<(u32, usize, usize, usize)>,
    /// per A node: (how often set, node_b, text)
    pub txt: Vec<(u32, usize, u8)>,
    /// per A node: (how often updated, node_b, op index)
    pub upd: Vec<(u32, usize, usize)>,
    /// nodes named by operations all belong to their trees
    pub foreign: bool,
}

pub fn digest(a: &Model, b: &Model, ops: &[EditOp<Ty>]) -> Script {
    let mut s = Script { ins: vec![(0, 0, 0, 0); b.n()], del: vec![0; a.n()], mov: vec![(0, 0, 0, 0); a.n()], txt: vec![(0, 0, 0); a.n()], upd: vec![(0, 0, 0); a.n()], foreign: false };
    for (k, op) in ops.iter().enumerate() {
        match op {
            EditOp::Insert { node_b, parent_b, position, kind } => match (b.idx(*node_b), b.idx(*parent_b)) {
                (Some(q), Some(p)) => s.ins[q] = (s.ins[q].0 + 1, p, *position, kind.0),
                _ => s.foreign = true,
            },
            EditOp::Delete { node_a } => match a.idx(*node_a) { Some(x) => s.del[x] += 1, _ => s.foreign = true },
            EditOp::Move { node_a, node_b, new_parent_b, new_position } => match (a.idx(*node_a), b.idx(*node_b), b.idx(*new_parent_b)) {
                (Some(x), Some(q), Some(p)) => s.mov[x] = (s.mov[x].0 + 1, q, p, *new_position),
                _ => s.foreign = true,
            },
            EditOp::SetText { node_a, node_b, text } => match (a.idx(*node_a), b.idx(*node_b)) {
                (Some(x), Some(q)) => s.txt[x] = (s.txt[x].0 + 1, q, text.0),
                _ => s.foreign = true,
            },
            EditOp::UpdateProperties { node_a, node_b, .. } => match (a.idx(*node_a), b.idx(*node_b)) {
                (Some(x), Some(q)) => s.upd[x] = (s.upd[x].0 + 1, q, k),
                _ => s.foreign = true,
            },
        }
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
enum Item { A(usize), New(usize) }

/// Applies the script declaratively and compares with B. Uses no matching: a node of the result
/// is found by its parent and position.
pub fn transforms(a: &Model, b: &Model, ops: &[EditOp<Ty>], s: &Script) {
    check(!s.foreign, "every operation names nodes of the right tree");
    let n = b.n();
    let mut item: Vec<Option<Item>> = vec![None; n];
    let mut used = vec![false; a.n()];
    item[0] = Some(Item::A(0));
    used[0] = true;
    check(s.del[0] == 0 && s.mov[0].0 == 0, "corresponding root is neither deleted nor moved");
    for q in 1..n {
        if b.inside(q) { continue; }
        let p = b.nd[q].par;
        let pos = b.nd[q].pos;
        let mut found = None;
        let mut count = 0;
        // inserted nodes and moved nodes announced for this place
        for r in 1..n { if s.ins[r].0 > 0 && s.ins[r].1 == p && s.ins[r].2 == pos { count += s.ins[r].0; found = Some(Item::New(r)); check(r == q, "the node inserted at a place is the one that belongs there"); } }
        for x in 0..a.n() {
            if s.mov[x].0 > 0 && s.mov[x].2 == p && s.mov[x].3 == pos {
                check(s.del[x] == 0, "a moved node is not deleted");
                count += s.mov[x].0;
                found = Some(Item::A(x));
            }
        }
        // old nodes that stay
        if let Some(Item::A(pa)) = item[p] {
            for x in 1..a.n() {
                if a.nd[x].par == pa && a.nd[x].pos == pos && s.del[x] == 0 && s.mov[x].0 == 0 && !a.inside(x) { count += 1; found = Some(Item::A(x)); }
            }
        }
        check(count == 1, "every place of the new tree is filled exactly once");
        item[q] = found;
        match found {
            Some(Item::A(x)) => {
                check(!used[x], "no old node is used twice");
                used[x] = true;
                check(a.nd[x].kind == b.nd[q].kind, "kind of a kept node");
                content(a, b, ops, s, x, q);
            }
            Some(Item::New(_)) => check(s.ins[q].3 == b.nd[q].kind, "kind of an inserted node"),
            None => {}
        }
    }
    content(a, b, ops, s, 0, 0);
    // nothing else survives
    let mut excused = vec![false; a.n()];
    for x in 0..a.n() {
        let mut ex = a.inside(x);
        if x > 0 {
            let p = a.nd[x].par;
            ex |= excused[p];
            for q in 0..n { if item[q] == Some(Item::A(p)) && b.nd[q].opaque { ex = true; } }
        }
        // a moved node is judged by where it goes, a deleted one is gone
        excused[x] = ex && s.mov[x].0 == 0;
        if s.del[x] == 0 && !used[x] && !excused[x] { check(false, "no old node survives that the new tree does not have"); }
    }
}

/// Text and properties of a kept node after the updates.
fn content(a: &Model, b: &Model, ops: &[EditOp<Ty>], s: &Script, x: usize, q: usize) {
    let (na, nb) = (&a.nd[x], &b.nd[q]);
    let (has, text) = if s.txt[x].0 > 0 { (true, s.txt[x].2) } else { (na.has_text, na.text) };
    check((has == nb.has_text) & (!has | (text == nb.text)), "text after the updates");
    let mut v = na.props.v;
    if s.upd[x].0 > 0 && let EditOp::UpdateProperties { changes, .. } = &ops[s.upd[x].2] {
        v = [0; NPROP];
        for c in changes {
            v[c.key.0 as usize] = match &c.value { PropValue::Same => na.props.v[c.key.0 as usize], PropValue::Different(t) => t.0 };
        }
    }
    let mut ok = true;
    for i in 0..NPROP { ok &= v[i] == nb.props.v[i]; }
    check(ok, "properties after the updates");
}

/// Pairs by model index, checked to be one-to-one and consistent in every view.
pub fn one_to_one(a: &Model, b: &Model, m: &Matching) -> Vec<Option<usize>> {
    let pairs: Vec<(NodeId, NodeId)> = m.pairs().collect();
    check(m.len() == pairs.len(), "count agrees with the listing");
    check(m.is_empty() == pairs.is_empty(), "emptiness agrees with the listing");
    let mut pa = vec![None; a.n()];
    let mut pb = vec![None; b.n()];
    for &(x, y) in &pairs {
        let (i, j) = (a.idx(x), b.idx(y));
        check(i.is_some() && j.is_some(), "paired nodes belong to their trees");
        let (i, j) = (i.unwrap(), j.unwrap());
        check(pa[i].is_none() && pb[j].is_none(), "each node has at most one partner");
        pa[i] = Some(j);
        pb[j] = Some(i);
    }
    for i in 0..a.n() {
        let g = m.get_b(a.ids[i]);
        check(g == pa[i].map(|j| b.ids[j]), "lookup from the old side agrees with the listing");
        check(m.contains_a(a.ids[i]) == pa[i].is_some(), "membership on the old side agrees");
    }
    for j in 0..b.n() {
        let g = m.get_a(b.ids[j]);
        check(g == pb[j].map(|i| a.ids[i]), "lookup from the new side agrees with the listing");
        check(m.contains_b(b.ids[j]) == pb[j].is_some(), "membership on the new side agrees");
    }
    pa
}

/// Partner of each A node by lookup only.
pub fn partners(a: &Model, b: &Model, m: &Matching) -> Vec<Option<usize>> { (0..a.n()).map(|i| m.get_b(a.ids[i]).and_then(|y| b.idx(y))).collect() }

pub fn updates(a: &Model, b: &Model, ops: &[EditOp<Ty>], s: &Script, pa: &[Option<usize>]) {
    check(!s.foreign, "every operation names nodes of the right tree");
    for x in 0..a.n() {
        let inside = a.inside(x) || pa[x].is_some_and(|q| b.inside(q));
        let Some(q) = pa[x].filter(|_| !inside) else {
            check(s.txt[x].0 == 0 && s.upd[x].0 == 0, "no update without a partner outside opaque nodes");
            continue;
        };
        let (na, nb) = (&a.nd[x], &b.nd[q]);
        check(s.txt[x].0 <= 1 && s.upd[x].0 <= 1, "at most one text and one property update per node");
        let changed = nb.has_text & (!na.has_text | (na.text != nb.text));
        check((s.txt[x].0 == 1) == changed, "text update exactly if the new text differs");
        if s.txt[x].0 == 1 { check(s.txt[x].1 == q, "text update names the partner"); check(s.txt[x].2 == nb.text, "text update carries the new text"); }
        let mut diff = false;
        for i in 0..NPROP { diff |= na.props.v[i] != nb.props.v[i]; }
        check((s.upd[x].0 == 1) == diff, "property update exactly if a property differs");
        if s.upd[x].0 == 1 && let EditOp::UpdateProperties { changes, .. } = &ops[s.upd[x].2] {
            check(s.upd[x].1 == q, "property update names the partner");
            let mut k = 0;
            for j in 0..NPROP {
                let i = if nb.props.rev { NPROP - 1 - j } else { j };
                if nb.props.v[i] == 0 { continue; }
                check(k < changes.len(), "property update lists every final property");
                let c = &changes[k];
                k += 1;
                check(c.key.0 as usize == i, "final properties in the new order");
                let v = match &c.value { PropValue::Same => na.props.v[i], PropValue::Different(t) => t.0 };
                check(v == nb.props.v[i], "final property value");
            }
            check(k == changes.len(), "property update lists only final properties");
        }
    }
}

pub fn no_unnecessary(a: &Model, b: &Model, s: &Script, pa: &[Option<usize>]) {
    check(!s.foreign, "every operation names nodes of the right tree");
    let mut pb = vec![None; b.n()];
    for x in 0..a.n() { if let Some(q) = pa[x] { pb[q] = Some(x); } }
    for q in 0..b.n() {
        let inside = b.inside(q);
        let want = pb[q].is_none() && q > 0 && !inside;
        check(s.ins[q].0 == want as u32, "inserted exactly if new");
        if want { check(s.ins[q].1 == b.nd[q].par && s.ins[q].2 == b.nd[q].pos, "inserted at its place"); check(s.ins[q].3 == b.nd[q].kind, "inserted with its kind"); }
    }
    for x in 0..a.n() {
        let inside = a.inside(x);
        check(s.del[x] == (pa[x].is_none() && !inside) as u32, "deleted exactly if without partner");
        let want = match pa[x] {
            Some(q) if !inside && !b.inside(q) && x > 0 && q > 0 => pa[a.nd[x].par] != Some(b.nd[q].par) || a.nd[x].pos != b.nd[q].pos,
            _ => false,
        };
        check(s.mov[x].0 == want as u32, "moved exactly if parent or position changed");
        if want { let q = pa[x].unwrap(); check(s.mov[x].1 == q && s.mov[x].2 == b.nd[q].par && s.mov[x].3 == b.nd[q].pos, "moved to its place"); }
        let inside2 = inside || pa[x].is_some_and(|q| b.inside(q));
        if let Some(q) = pa[x].filter(|_| !inside2) {
            let (na, nb) = (&a.nd[x], &b.nd[q]);
            if s.txt[x].0 > 0 { check((na.has_text != nb.has_text) | (na.text != nb.text), "no text update on an unchanged text"); }
            let mut same = true;
            for i in 0..NPROP { same &= na.props.v[i] == nb.props.v[i]; }
            if s.upd[x].0 > 0 { check(!same, "no property update on unchanged properties"); }
        } else {
            check(s.txt[x].0 == 0 && s.upd[x].0 == 0, "no update on nodes without a partner");
        }
    }
}

pub fn replayable(a: &Model, b: &Model, ops: &[EditOp<Ty>]) {
    // 0 updates, 1 inserts, 2 moves, 3 deletes; updates may come anywhere before deletes of the node
    let mut phase = 0;
    let mut inserted = vec![false; b.n()];
    let mut will = vec![false; b.n()];
    for op in ops { if let EditOp::Insert { node_b, .. } = op && let Some(q) = b.idx(*node_b) { will[q] = true; } }
    let mut deleted = vec![false; a.n()];
    let mut todel = vec![false; a.n()];
    for op in ops { if let EditOp::Delete { node_a } = op && let Some(x) = a.idx(*node_a) { todel[x] = true; } }
    for op in ops {
        match op {
            EditOp::Insert { node_b, parent_b, .. } => {
                check(phase <= 1, "insertions precede moves and deletions");
                phase = 1;
                let (Some(q), Some(p)) = (b.idx(*node_b), b.idx(*parent_b)) else { check(false, "insertion names nodes of the new tree"); return };
                check(!will[p] || inserted[p], "a node is inserted before anything under it");
                inserted[q] = true;
            }
            EditOp::Move { new_parent_b, .. } => {
                check(phase <= 2, "moves precede deletions");
                phase = 2;
                let Some(p) = b.idx(*new_parent_b) else { check(false, "move names nodes of the new tree"); return };
                check(!will[p] || inserted[p], "the target parent of a move exists");
            }
            EditOp::Delete { node_a } => {
                phase = 3;
                let Some(x) = a.idx(*node_a) else { check(false, "deletion names a node of the old tree"); return };
                for y in x + 1..a.nd[x].end { check(!todel[y] || deleted[y], "a node is deleted after every deleted node below it"); }
                deleted[x] = true;
            }
            EditOp::SetText { node_a, .. } | EditOp::UpdateProperties { node_a, .. } => {
                let Some(x) = a.idx(*node_a) else { check(false, "update names a node of the old tree"); return };
                check(!deleted[x], "no update after the deletion of the node");
            }
        }
    }
}

pub fn opaque_atomic(a: &Model, b: &Model, s: &Script) {
    for x in 0..a.n() {
        if a.inside(x) { check(s.del[x] == 0 && s.mov[x].0 == 0 && s.txt[x].0 == 0 && s.upd[x].0 == 0, "no operation on an old node inside an opaque node"); }
        if s.mov[x].0 > 0 { check(!b.inside(s.mov[x].1) && !b.nd[s.mov[x].2].opaque && !b.inside(s.mov[x].2), "no move into an opaque node"); }
        if s.txt[x].0 > 0 { check(!b.inside(s.txt[x].1), "no text update with a partner inside an opaque node"); }
        if s.upd[x].0 > 0 { check(!b.inside(s.upd[x].1), "no property update with a partner inside an opaque node"); }
    }
    for q in 0..b.n() {
        if s.ins[q].0 > 0 { check(!b.inside(q) && !b.nd[s.ins[q].1].opaque && !b.inside(s.ins[q].1), "no insertion inside an opaque node"); }
    }
}

pub fn same_ops(x: &[EditOp<Ty>], y: &[EditOp<Ty>]) -> bool { x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p == q) }
