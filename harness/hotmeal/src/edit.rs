//! Histories of edits of a document against a plain model.
use crate::dom::*;
use crate::vp::*;
use hotmeal::{Document, LocalName, NodeId, NodeKind};

struct Nd { kids: Vec<usize>, par: Option<usize> }
fn under(m: &[Nd], mut n: usize, a: usize) -> bool { loop { if n == a { return true } match m[n].par { Some(p) => n = p, None => return false } } }
fn detach(m: &mut [Nd], n: usize) { if let Some(p) = m[n].par.take() { m[p].kids.retain(|&k| k != n) } }

/// Parameters: 2 elements, 3 texts, 4 edits, 5: 1 with the body among the nodes moved and removed.
pub fn h11() {
    let (els, texts, steps) = (param(2) as usize, param(3) as usize, param(4) as usize);
    let mut d = Document::new();
    let root = d.root;
    let (Some(head), Some(b)) = (d.head(), d.body()) else { check(false, "a new document has no head or body"); return };
    check(d.parent(head) == Some(root) && d.parent(b) == Some(root) && d.next_sibling(head) == Some(b) && d.child_count(root) == 2 && d.child_count(b) == 0 && d.child_count(head) == 0, "a new document is not an empty page");
    // 0 root, 1 head, 2 body, then elements, texts, a comment
    let mut id = vec![root, head, b];
    let mut m = vec![Nd { kids: vec![1, 2], par: None }, Nd { kids: vec![], par: Some(0) }, Nd { kids: vec![], par: Some(0) }];
    let mut text: Vec<&'static str> = vec![""; 3];
    for _ in 0..els { id.push(d.create_element(LocalName::nth(1))); text.push("") }
    for _ in 0..texts { let t = one_char("text", b'a', 2); id.push(d.create_text(t)); text.push(t) }
    let c = one_char("comment", b'a', 2);
    id.push(d.create_comment(c));
    text.push(c);
    while m.len() < id.len() { m.push(Nd { kids: vec![], par: None }) }
    let first = if param(5) > 0 { 2 } else { 3 };
    let last = id.len() as u64 - 1;
    for _ in 0..steps {
        let any = |nm: &str| pick(nm, first, last) as usize;
        match pick("edit", 0, 4) {
            0 => {
                let (p, n) = (pick("parent", 2, 2 + els as u64) as usize, any("node"));
                assume(!under(&m, p, n));
                d.append_child(id[p], id[n]);
                detach(&mut m, n);
                m[p].kids.push(n);
                m[n].par = Some(p);
                reach("append");
            }
            k @ (1 | 2) => {
                let (s, n) = (any("sibling"), any("node"));
                let Some(p) = m[s].par else { assume(false); return };
                assume(s != n && !under(&m, p, n));
                if k == 1 { d.insert_before(id[s], id[n]) } else { d.insert_after(id[s], id[n]) }
                detach(&mut m, n);
                let at = m[p].kids.iter().position(|&x| x == s).unwrap();
                m[p].kids.insert(at + k as usize - 1, n);
                m[n].par = Some(p);
                reach("insert");
            }
            3 => { let n = any("node"); d.remove(id[n]); detach(&mut m, n); reach("remove") }
            _ => {
                // only texts have one to set
                let n = any("node");
                let t = one_char("text", b'x', 2);
                d.set_text(id[n], t);
                if n >= 3 + els && n < 3 + els + texts { text[n] = t }
            }
        }
        let node = |x: Option<NodeId>| x.map(|x| id.iter().position(|&y| y == x).unwrap_or(99));
        for (i, x) in m.iter().enumerate() {
            if i > 0 { check(node(d.parent(id[i])) == x.par, "a node has another parent") }
            check(d.children(id[i]).count() == x.kids.len() && d.children(id[i]).zip(&x.kids).all(|(a, &k)| a == id[k]), "a node has other children, or in another order");
            check(d.child_count(id[i]) == x.kids.len(), "the number of children is wrong");
            check(node(d.first_child(id[i])) == x.kids.first().copied() && node(d.last_child(id[i])) == x.kids.last().copied(), "the first or last child is wrong");
            let sib = x.par.map(|p| { let k = &m[p].kids; let at = k.iter().position(|&y| y == i).unwrap(); (if at > 0 { Some(k[at - 1]) } else { None }, k.get(at + 1).copied()) }).unwrap_or((None, None));
            if i > 0 { check(node(d.prev_sibling(id[i])) == sib.0 && node(d.next_sibling(id[i])) == sib.1, "a neighbour is wrong") }
            match &d.get(id[i]).kind {
                NodeKind::Text(t) => check(i >= 3 + els && i < 3 + els + texts && same_str(t, text[i]), "a text differs"),
                NodeKind::Comment(t) => check(i == last as usize && same_str(t, text[i]), "a comment differs"),
                NodeKind::Element(e) => check(i < 3 + els && e.attrs.is_empty(), "an element was changed"),
                NodeKind::Document => check(false, "a node is of another type"),
            }
        }
        check(node(d.body()) == m[0].kids.iter().find(|&&k| k == 2).copied(), "the body is not the page's body");
        check(node(d.head()) == Some(1), "the head is not the page's head");
    }
    // what is written are the texts and comments below the body, in order
    let mut want = String::new();
    fn write(m: &[Nd], text: &[&str], els: usize, n: usize, last: usize, o: &mut String) {
        for &k in &m[n].kids {
            if k < 3 + els { o.push_str("<div>"); write(m, text, els, k, last, o); o.push_str("</div>") }
            else if k == last { o.push_str("<!--"); o.push_str(text[k]); o.push_str("-->") }
            else { o.push_str(text[k]) }
        }
    }
    if m[2].par == Some(0) {
        write(&m, &text, els, 2, last as usize, &mut want);
        check(same_str(&d.to_body_html(), &want), "the page is written in another way than it is");
        check(same_str(&d.serialize_inner_html(id[2]), &want), "the content of the body is written in another way than it is");
    } else { check(d.to_body_html().is_empty(), "content is written though there is no body") }
    obs(d.to_html().len() as u64);
}
