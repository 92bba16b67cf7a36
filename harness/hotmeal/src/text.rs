//! Pages as text: what the live-reload connection compares, from source to patched page.
use crate::dom::*;
use crate::vp::*;
use hotmeal::{Document, Patch, StrTendril, diff_html, parse};

fn load(html: &str) -> Document<'static> { parse(Box::leak(Box::new(StrTendril::from(html)))) }
fn letter(nm: &str) -> char { (b'a' + sym8(nm, param(4) - 1)) as char }

/// Attributes of an element outside of HTML, in any order.
fn foreign_attrs(out: &mut String) {
    let mut left = vec!["xmlns", "xmlns:xlink", "xlink:href", "xml:lang", "href", "xlink:title", "viewBox", "lang"];
    left.truncate(param(5) as usize);
    loop {
        let k = pick("attribute", 0, left.len() as u64) as usize;
        if k == 0 { return }
        out.push_str(&format!(" {}=\"{}\"", left.remove(k - 1), letter("value")));
    }
}
/// One piece of a page; all of them are well-formed.
fn piece(out: &mut String) {
    let k = pick("piece", param(6), param(7));
    match k {
        0 => out.push(letter("text")),
        1 => { out.push_str(["&amp;", "&lt;", "&gt;"][pick("reference", 0, 2) as usize]); out.push(letter("text")) }
        2 => out.push_str(&format!("<p id='{}'>{}</p>", letter("value"), letter("text"))),
        3 => out.push_str(&format!("<!--{}-->", letter("comment"))),
        4 => { out.push_str("<svg"); foreign_attrs(out); out.push_str("><clipPath/></svg>") }
        5 => { out.push_str("<svg><a"); foreign_attrs(out); out.push_str(&format!(">{}</a></svg>", letter("text"))) }
        6 => { out.push_str("<math"); foreign_attrs(out); out.push_str("><mi></mi></math>") }
        7 => out.push_str(&format!("<IMG ALT={} src=\"&quot;{}\">", letter("value"), letter("value"))),
        8 => out.push_str(&format!("<script>{}<b>&amp;</script>", letter("text"))),
        9 => out.push_str(&format!("<textarea>&lt;{}</textarea>", letter("text"))),
        10 => out.push_str(&format!("<div><b>{}</b><br></div>", letter("text"))),
        _ => out.push_str(&format!("<div data-hotmeal-opaque><b>{}</b></div>", letter("text"))),
    }
}
fn page(nm: &str) -> String {
    let mut s = String::new();
    match pick("frame", 0, param(3)) {
        0 => {}
        1 => s.push_str("<!DOCTYPE html><html><head><title>t</title></head><body>"),
        _ => s.push_str(&format!("<body class={}>", letter("value"))),
    }
    for _ in 0..pick(nm, 0, param(2)) { piece(&mut s) }
    s
}

/// Parameters: 2 most pieces in a page, 3 last kind of frame, 4 letters, 5 attribute names outside of HTML,
/// 6 first and 7 last kind of piece, 8: 1 with the patches sent as bytes, 9: 1 compare with itself only.
pub fn h12() {
    let b = page("new pieces");
    let new = load(&b);
    let all = Cmp { attrs: true, opaque_inside: true, ns: true };
    // written and read back the page is the same
    let again = load(&new.to_html());
    assert_same(&again, body(&again), &new, body(&new), all);
    check(same_str(&again.to_html(), &new.to_html()), "a page written, read and written again is another");
    check(same_str(&new.to_html_without_doctype(), new.to_html().trim_start_matches("<!DOCTYPE html>")), "the doctype is more than a part of the page");
    if param(9) == 1 { return }
    let a = page("old pieces");
    let (x, y) = (StrTendril::from(a.as_str()), StrTendril::from(b.as_str()));
    let ps: Vec<Patch<'static>> = match diff_html(&x, &y) { Ok(p) => p.into_iter().map(|p| p.into_owned()).collect(), Err(_) => { check(false, "the diff failed"); return } };
    #[cfg(feature = "dump")] { println!("old {a}\nnew {b}"); for p in &ps { println!("  {p:?}") } }
    super::h::marks(&ps);
    let ps = if param(8) == 1 {
        let Ok(blob) = facet_postcard::to_vec(&ps) else { check(false, "the patches cannot be sent"); return };
        let Ok(back) = facet_postcard::from_slice::<Vec<Patch<'static>>>(&blob) else { check(false, "the patches sent cannot be read"); return };
        check(back == ps, "sending patches changes them");
        back
    } else { ps };
    let mut old = load(&a);
    check(old.apply_patches(ps).is_ok(), "the old page does not accept the patches");
    assert_same(&old, body(&old), &new, body(&new), all);
    check(same_str(&old.to_body_html(), &new.to_body_html()), "the patched page is written in another way than the new one");
    obs(old.to_body_html().len() as u64);
}
