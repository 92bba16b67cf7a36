//! The live-reload server: histories of requests with a browser that follows its events, and
//! injection into the head.
use crate::dom::*;
use crate::vp::*;
use hotmeal::{Document, Patch, StrTendril, parse};
use hotmeal_server::*;

/// Pages in use; `x` and `y` are symbolic letters.
fn page(kind: u64, x: char, y: char) -> String {
    match kind {
        0 => format!("<p>{x}</p>"),
        1 => format!("<div id=\"{x}\">{y}</div><p></p>"),
        2 => format!("<html><head><title>{x}</title></head><body class=\"{x}\"><p>{y}</p></body></html>"),
        3 => format!("{x}<!--{y}-->"),
        4 => format!("<p><b>{x}</b></p><p>{y}</p>"),
        _ => String::new(),
    }
}
fn load(html: &str) -> Document<'static> { parse(Box::leak(Box::new(StrTendril::from(html)))) }
fn letter(nm: &str) -> char { (b'a' + sym8(nm, param(4) - 1)) as char }
fn symbolic_page() -> String { let k = pick("page", param(5), param(6)); let x = letter("x"); let y = if k > 0 && k != 5 { letter("y") } else { 'z' }; page(k, x, y) }
fn eq(a: &str, b: &str) -> bool { same_str(a, b) }

#[derive(Default)]
struct Route { html: Option<String>, head: Option<String>, shown: Option<Document<'static>> }

/// Parameters: 2 steps, 3 routes, 4 letters, 5 first and 6 last kind of page, 7: 1 with removal and
/// clearing, 8: 1 with head injections.
pub fn s01() {
    let mut srv = LiveReloadServer::new();
    let names = ["/", "/a"];
    let mut routes: Vec<Route> = (0..param(3)).map(|_| Route::default()).collect();
    for _ in 0..param(2) {
        let r = pick("route", 0, param(3) - 1) as usize;
        let name = names[r];
        let op = pick("request", 0, 1 + param(8) + param(7) * 2);
        let op = if param(8) == 0 && op > 1 { op + 1 } else { op };
        match op {
            0 => {
                // the browser loads the page
                let html = symbolic_page();
                let prev = srv.cache_html(name, &html);
                let known = routes[r].html.replace(html.clone());
                check(match (&prev, &known) { (None, None) => true, (Some(a), Some(b)) => eq(a, b), _ => false }, "the page returned as cached is not the one cached last");
                routes[r].shown = Some(load(&html));
            }
            1 | 2 => {
                let html = symbolic_page();
                let head = if op == 2 { Some(["", "<link>", "<meta>"][pick("head", 0, 2) as usize]) } else { None };
                let ev = match head { Some(h) => srv.diff_route_with_head(name, &html, h), None => srv.diff_route(name, &html) };
                let known = routes[r].html.replace(html.clone());
                let mut head_changed = false;
                if let Some(h) = head {
                    head_changed = match &routes[r].head { Some(o) => o != h, None => !h.is_empty() };
                    routes[r].head = Some(h.to_owned());
                }
                // the event as it arrives at the browser
                let ev = match ev.map(|e| LiveReloadEvent::from_postcard(&e.to_postcard())) { None => None, Some(Ok(e)) => Some(e), Some(Err(_)) => { check(false, "the event cannot be read where it arrives"); return } };
                match ev {
                    Some(LiveReloadEvent::HeadChanged { route }) => {
                        reach("head_changed");
                        check(head_changed && route == name, "a head change is reported that did not happen, or for another route");
                        routes[r].shown = Some(load(&html));
                    }
                    Some(LiveReloadEvent::Reload) => {
                        reach("reload");
                        check(!head_changed && known.is_none(), "a page whose old version is known is reloaded instead of patched");
                        routes[r].shown = Some(load(&html));
                    }
                    Some(LiveReloadEvent::Patches { route, patches_blob }) => {
                        reach("patches");
                        check(!head_changed && known.is_some(), "patches are sent where the page has to be reloaded");
                        check(route == name, "patches are sent for another route");
                        let ps: Vec<Patch<'static>> = match facet_postcard::from_slice(&patches_blob) { Ok(p) => p, Err(_) => { check(false, "the patches cannot be decoded"); return } };
                        check(!ps.is_empty(), "an empty list of patches is sent");
                        if let Some(d) = &mut routes[r].shown { check(d.apply_patches(ps).is_ok(), "the browser's page does not accept the patches") }
                    }
                    None => {
                        reach("nothing");
                        check(!head_changed && known.is_some(), "no event though the page has to be reloaded");
                    }
                }
                if let (Some(d), true) = (&routes[r].shown, known.is_some() || head_changed) {
                    let new = load(&html);
                    assert_same(d, body(d), &new, body(&new), Cmp { attrs: true, opaque_inside: true, ns: true });
                } else { routes[r].shown = Some(load(&html)) }
            }
            3 => {
                let had = routes[r].html.is_some() || routes[r].head.is_some();
                check(srv.remove_route(name) == had, "removing a route tells wrongly whether it was there");
                routes[r] = Route::default();
                reach("removed");
            }
            _ => {
                srv.clear();
                for x in &mut routes { *x = Route::default() }
                reach("cleared");
            }
        }
        let mut listed = srv.cached_routes();
        listed.sort();
        let expect: Vec<String> = (0..routes.len()).filter(|&i| routes[i].html.is_some()).map(|i| names[i].to_owned()).collect();
        check(listed == expect, "the cached routes are not the routes with a page");
    }
}

/// Parameters: 2 what stands before the head tag, first and 3 last; 4 attributes of the head tag;
/// 5 length of attribute values; 6 length of what follows.
pub fn s02() {
    const BEFORE: &[&str] = &["", "<!DOCTYPE html><html>", "<html>\n ", "<header>", "<headers x='<'>", "<html lang=\"<head\">", "<HTML><HeadX>", "<html data-x='a'><he>"];
    let mut h: Vec<u8> = BEFORE[pick("before", param(2), param(3)) as usize].as_bytes().to_vec();
    h.push(b'<');
    for c in b"head" { h.push(if symb("upper") { c - 32 } else { *c }) }
    let mut unquoted = false;
    for _ in 0..param(4) {
        // a slash behind an unquoted value is part of it
        h.push([b' ', b'\n', b'/'][pick("space", 0, if unquoted { 1 } else { 2 }) as usize]);
        let c = sym8("attribute", 0x7f);
        assume((c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z'));
        h.push(c);
        let style = pick("style", 0, 4);
        unquoted = style == 1;
        if style == 0 { continue }
        if style == 4 { h.extend_from_slice(b" = ") } else { h.push(b'=') }
        let q = [0, 0, b'"', b'\'', b'"'][style as usize];
        if q > 0 { h.push(q) }
        for i in 0..param(5) {
            let c = sym8("value", 0x7f);
            assume(c != 0);
            if q > 0 { assume(c != q) } else { assume(c != b'>' && c != b' ' && c != b'\t' && c != b'\n' && c != b'\r' && c != 12); if i == 0 { assume(c != b'"' && c != b'\'') } }
            h.push(c);
        }
        if q > 0 { h.push(q) }
    }
    h.push(b'>');
    let at = h.len();
    for _ in 0..param(6) { let c = sym8("behind", 0x7f); assume(c != 0); h.push(c) }
    let html = leak(h);
    let content = "<link>";
    let out = inject_into_head(html, content);
    for b in out.bytes() { obs(b as u64) }
    check(eq(&out, &[&html[..at], content, &html[at..]].concat()), "the content is not injected right behind the head tag");
}
/// Any text of parameter 2 characters: the result is the text with the content inserted once, at the
/// start if there is no head tag.
pub fn s02a() {
    let n = param(2) as usize;
    let html = ascii("page", n);
    let content = "@";
    let out = inject_into_head(html, content);
    check(out.len() == n + 1, "the result is not as long as page and content");
    let b = html.as_bytes();
    // a head tag: "<head", then white space, a slash or the end, and the end somewhere
    let mut head = false;
    for i in 0..n.saturating_sub(5) {
        let mut m = b[i] == b'<';
        for (k, c) in b"head".iter().enumerate() { m &= (b[i + 1 + k] | 0x20) == *c }
        let e = b[i + 5];
        m &= (e == b'>') | (e == b'/') | (e == b' ') | (e == b'\t') | (e == b'\n') | (e == 12);
        head |= m;
    }
    let mut fits = false;
    for p in 0..=n {
        let o = out.as_bytes();
        let mut m = o[p] == b'@';
        for i in 0..n { m &= o[if i < p { i } else { i + 1 }] == b[i] }
        if p > 0 { m &= head }
        fits |= m;
    }
    check(fits, "the page is changed otherwise than by the injected content, or content is injected where no head tag ends");
}

/// The value of a JavaScript string literal at the start of `s` and what follows, by the standard's
/// grammar for double-quoted strings.
fn literal(s: &[u8]) -> Option<(Vec<u8>, &[u8])> {
    if s.first() != Some(&b'"') { return None }
    let mut out = vec![];
    let mut i = 1;
    loop {
        match *s.get(i)? {
            b'"' => return Some((out, &s[i + 1..])),
            b'\n' | b'\r' => return None,
            b'\\' => {
                i += 1;
                match *s.get(i)? {
                    b'n' => out.push(b'\n'), b'r' => out.push(b'\r'), b't' => out.push(b'\t'), b'b' => out.push(8), b'f' => out.push(12), b'v' => out.push(11),
                    b'u' | b'x' => {
                        let n = if s[i] == b'u' { 4 } else { 2 };
                        let mut c = 0u32;
                        for k in 1..=n {
                            let h = *s.get(i + k)?;
                            c = c * 16 + match h { b'0'..=b'9' => h - b'0', b'a'..=b'f' => h - b'a' + 10, b'A'..=b'F' => h - b'A' + 10, _ => return None } as u32;
                        }
                        if c >= 0x80 { let mut b = [0; 4]; out.extend(char::from_u32(c)?.encode_utf8(&mut b).as_bytes()) } else { out.push(c as u8) }
                        i += n;
                    }
                    b'\n' => {}
                    b'0'..=b'9' => return None,
                    c => out.push(c),
                }
            }
            c => out.push(c),
        }
        i += 1;
    }
}
fn literal_then<'s>(s: &'s [u8], before: &str, want: &str, what: &str) -> &'s [u8] {
    check(s.len() >= before.len() && s[..before.len()] == *before.as_bytes(), "the script is another");
    let Some((v, rest)) = literal(&s[before.len().min(s.len())..]) else { check(false, "an address ends or breaks the script"); return &[] };
    let mut x = (v.len() != want.len()) as u8;
    if x == 0 { for i in 0..v.len() { x |= v[i] ^ want.as_bytes()[i] } }
    check(x == 0, what);
    rest
}
/// Parameters: 2 characters in one of the four addresses, 3: 1 with characters of several bytes.
pub fn s03() {
    let which = pick("which", 0, 3) as usize;
    let mut a = ["a.js", "a.wasm", "#x", "ws://a/"];
    let s = chars("address", pick("length", 0, param(2)) as usize, param(3) > 0);
    a[which] = s;
    let out = loader_script(a[0], a[1], a[2], a[3]);
    let b = out.as_bytes();
    for i in 1..b.len() { check(!(b[i - 1] == b'<' && (b[i] == b'!' || b[i] == b'/')) || i - 1 == b.len() - 9, "an address ends or breaks the script") }
    let r = literal_then(b, "<script type=\"module\">\nimport init, { start_live_reload } from ", a[0], "the script is loaded from another place");
    let r = literal_then(r, ";\nawait init(", a[1], "the module is loaded from another place");
    let r = literal_then(r, ");\nstart_live_reload(", a[3], "the connection goes to another place");
    let r = literal_then(r, ", ", a[2], "another element is updated");
    check(r == b");\n</script>", "the script is another");
    obs(out.len() as u64);
}
