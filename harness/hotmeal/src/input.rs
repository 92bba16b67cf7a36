//! What the parser is given: the page itself, with a doctype and a body around it where it has none.
use crate::dom::*;
use crate::vp::*;
use hotmeal::{LocalName, QualName, StrTendril, parse, parse_body_fragment};
use html5ever::script::{self, Op, Txt};
use html5ever::{INPUTS, Namespace as Ns, RECORD};

fn ci(s: &[u8], i: usize, p: &[u8]) -> bool { s.len() >= i + p.len() && (0..p.len()).all(|k| s[i + k] | 0x20 == p[k] | 0x20 && (p[k].is_ascii_alphabetic() || s[i + k] == p[k])) }
fn has(s: &[u8], p: &[u8]) -> bool { (0..s.len()).any(|i| ci(s, i, p)) }
/// Whether the first token but white space and comments is a doctype, by the states of the HTML standard.
fn doctype_first(s: &[u8]) -> bool {
    let mut i = 0;
    loop {
        while i < s.len() && matches!(s[i], b' ' | b'\t' | b'\n' | b'\r' | 12) { i += 1 }
        if ci(s, i, b"<!doctype") { return true }
        if ci(s, i, b"<!--") {
            #[derive(PartialEq)]
            enum St { Start, StartDash, Comment, Dash, End, Bang, Done }
            let mut st = St::Start;
            i += 4;
            while st != St::Done {
                if i >= s.len() { return false }
                st = match (st, s[i]) {
                    (St::Start | St::StartDash | St::End | St::Bang, b'>') => St::Done,
                    (St::Start, b'-') => St::StartDash,
                    (St::StartDash | St::Dash | St::End, b'-') => St::End,
                    (St::Comment | St::Bang, b'-') => St::Dash,
                    (St::End, b'!') => St::Bang,
                    _ => St::Comment,
                };
                i += 1;
            }
        } else if ci(s, i, b"<!") || ci(s, i, b"<?") {
            i += 2;
            while i < s.len() && s[i] != b'>' { i += 1 }
            i += 1;
        } else {
            return false;
        }
    }
}
fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && { let mut x = 0; for i in 0..a.len() { x |= a[i] ^ b[i] } x == 0 } }

fn run(page: &str, tag: bool) {
    let body = page.as_bytes();
    let body = if body.starts_with(&[0xef, 0xbb, 0xbf]) { &body[3..] } else { body };
    RECORD.with(|r| r.set(true));
    let q = |n: &str| QualName::new(None, Ns::from("http://www.w3.org/1999/xhtml"), LocalName::from(n));
    let script = || script::set(vec![Op::Doctype(Txt::Lit("html".into())), Op::Element(q("html"), vec![]), Op::Append(0, 1)]);
    script();
    let t = StrTendril::from(page);
    let d = parse(&t);
    let given = INPUTS.with(|v| std::mem::take(&mut *v.borrow_mut()));
    check(given.len() == 1, "the parser is not run once");
    let g = given[0].as_bytes();
    let dt = doctype_first(body);
    check(d.doctype.is_some() == dt, "the doctype is lost or made up");
    if dt {
        reach("doctype");
        check(same(g, body), "a page that has a doctype is not parsed as it is");
    } else {
        check(ci(g, 0, b"<!doctype html>"), "a page without a doctype is parsed in quirks mode");
        let rest = &g[15.min(g.len())..];
        if rest.len() == body.len() {
            reach("no_doctype");
            check(same(rest, body), "the page is changed before it is parsed");
            check(tag || has(body, b"<html") || has(body, b"<body"), "content without a body tag is not put into a body");
        } else {
            reach("wrapped");
            check(!tag, "a page that has html and body tags is put into another body");
            let Some(at) = given[0].find("<body>") else { check(false, "content is put into something other than a body"); return };
            let g = &g[at + 6..];
            check(g.len() >= body.len() && same(&g[..body.len()], body), "the page is changed before it is parsed");
            check(g.len() == body.len(), "something follows the content, and would end up in a comment or script that the page leaves open");
        }
    }
    script();
    let d = parse_body_fragment(&t);
    let given = INPUTS.with(|v| std::mem::take(&mut *v.borrow_mut()));
    check(given.len() == 1 && same(given[0].as_bytes(), page.as_bytes()), "a fragment is changed before it is parsed");
    obs(d.errors.len() as u64);
    RECORD.with(|r| r.set(false));
}
fn any_case(v: &mut Vec<u8>, s: &[u8]) { for &c in s { v.push(if c.is_ascii_lowercase() { c & !(0x20 * sym8("case", 1)) } else { c }) } }

/// Parameters: 2 pieces in front, 3 characters in each, 4 characters behind.
pub fn pieces() {
    let mut v: Vec<u8> = vec![];
    if pick("byte order mark", 0, 1) == 1 { v.extend([0xef, 0xbb, 0xbf]); }
    let n = param(3) as usize;
    for _ in 0..pick("pieces", 0, param(2)) {
        let c = ascii("piece", n).as_bytes();
        match pick("piece", 0, 3) {
            0 => v.push([b' ', b'\n', b'\t', 12][pick("space", 0, 3) as usize]),
            1 => { v.extend(b"<!--"); v.extend(c); v.extend(b"-->") }
            2 => { v.extend(b"<?"); v.extend(c); v.push(b'>') }
            _ => { v.extend(b"<!"); v.extend(c); v.push(b'>') }
        }
    }
    let mut tag = false;
    match pick("start", 0, 4) {
        0 => { any_case(&mut v, b"<!doctype html>") }
        1 => { any_case(&mut v, b"<html>"); tag = true }
        2 => { any_case(&mut v, b"<body class=x>"); tag = true }
        3 => v.extend(b"<p>"),
        _ => {}
    }
    v.extend(ascii("behind", param(4) as usize).as_bytes());
    run(leak(v), tag);
}
/// Parameters: 2 characters, 3: 1 with a comment started.
pub fn any() {
    let s = ascii("page", param(2) as usize);
    match param(3) {
        1 => { let c = pick("length", 0, param(2)) as usize; run(leak([b"<!--", &s.as_bytes()[..c], b"<!DOCTYPE html>"].concat()), false) }
        _ => run(s, false),
    }
}
