//! C07: HTML attribute extraction.
use crate::ctx::*;
use crate::c06::unescaped;
enum R { Attr(Option<Option<Vec<u8>>>), Err, NoClaim }
fn ws(b: u8) -> bool { b == b' ' || b == b'\n' || b == b'\t' || b == b'\r' }
/// A start tag by the HTML standard's tokenizer, every parse error being an error.
fn tag(x: &[u8], name: &str) -> R {
    let at = |i: usize| x.get(i).copied(); let mut last: Option<Option<Vec<u8>>> = None;
    if at(0) != Some(b'<') { return R::Err; } match at(1) { Some(c) if c.is_ascii_alphabetic() => (), _ => return R::Err }
    let mut i = 2; loop { match at(i) { None | Some(0) => return R::Err, Some(c) if ws(c) || c == b'/' || c == b'>' => break, _ => i += 1 } }
    loop {
        while at(i).is_some_and(ws) { i += 1; }
        match at(i) { None => return R::Err, Some(b'>') => break, Some(b'/') => { if at(i + 1) == Some(b'>') { break; } return R::Err; } Some(b'=') => return R::Err, _ => () }
        let a = i; loop { match at(i) { None | Some(0 | b'"' | b'\'' | b'<') => return R::Err, Some(c) if ws(c) || c == b'/' || c == b'>' || c == b'=' => break, _ => i += 1 } } let n = &x[a..i];
        while at(i).is_some_and(ws) { i += 1; }
        let mut v = None;
        if at(i) == Some(b'=') {
            i += 1; while at(i).is_some_and(ws) { i += 1; }
            match at(i) { None | Some(b'>') => return R::Err, Some(q @ (b'"' | b'\'')) => { let a = i + 1; i = a; loop { match at(i) { None | Some(0) => return R::Err, Some(c) if c == q => break, _ => i += 1 } } v = Some(x[a..i].to_vec()); i += 1; match at(i) { Some(c) if ws(c) || c == b'/' || c == b'>' => (), _ => return R::Err } }
                _ => { let a = i; loop { match at(i) { None | Some(0) => return R::Err, Some(b'"' | b'\'' | b'<' | b'=' | b'`') => return R::NoClaim, Some(c) if ws(c) || c == b'>' => break, _ => i += 1 } } v = Some(x[a..i].to_vec()); } }
        }
        if sym::same_bytes(n, name.as_bytes()) { last = Some(v); }
    }
    match last { Some(Some(v)) => match unescaped(&v) { Ok(v) => R::Attr(Some(Some(v))), Err(()) => R::Err }, Some(None) => R::Attr(Some(None)), None => R::Attr(None) }
}
fn go(x: &str, name: &str) {
    let r = parse::html::get_attribute_value(x, name).map_err(|_| ()); sym::observe(match &r { Err(_) => 0, Ok(None) => 1, Ok(Some(None)) => 2, Ok(Some(Some(_))) => 3 }); if let Ok(Some(Some(v))) = &r { sym::observe_bytes(v.as_bytes()); }
    match tag(x.as_bytes(), name) { R::NoClaim => sym::cover("no-claim"), R::Err => { sym::cover("error"); sym::check(r.is_err(), "malformed-refused") }
        R::Attr(w) => { sym::cover(match &w { None => "absent", Some(None) => "no-value", _ => "value" }); sym::check(match (&r, &w) { (Ok(None), None) => true, (Ok(Some(None)), Some(None)) => true, (Ok(Some(Some(a))), Some(Some(b))) => sym::same_bytes(a.as_bytes(), b), _ => false }, "attribute-exact") } }
}
fn attr(names: &[&str]) -> String {
    let sp = || sym::pick(&["", " "]); let n = sym::pick(names); let v = sym::pick(&["v", "é&lt;", "", "a=b>/", "&", "a b"]);
    match sym::choose(5) { 0 => n.to_string(), 1 => format!("{n}{}={}'{v}'", sp(), sp()), 2 => format!("{n}{}={}\"{v}\"", sp(), sp()), 3 => format!("{n}={}{}", sp(), sym::pick(&["v", "é&lt;", "/", "&x", "é"])), _ => format!("{n}{}", sym::pick(&[" ", "\n\t", "="])) }
}
fn few(n: &str) -> String { sym::pick(&["N", "N ", "N='é>'", "N=\"é\"", "N=v", "N = v&lt;", "N=\"\"", "N='"]).replace('N', n) }
harnesses! {
    fn h_c07_start() { go(&sym::over(0, 5, b"<aZ?! />\0-"), "a") }
    fn h_c07_raw() { go(&format!("<a {}", sym::over(0, 5, b"b =>'/")), "b") }
    fn h_c07_raw_quotes() { go(&format!("<a b={}", sym::over(0, 5, b"'\"b >\0")), "b") }
    fn h_c07_raw_odd() { go(&format!("<a b{}", sym::over(0, 4, b"\0<\t`=/>b\"")), "b") }
    fn h_c07_raw_text() { go(&format!("<p é='ü' b=\"{}\"{}>", sym::over(0, 3, b"&lt;> b'"), sym::over(0, 2, b" b='")), "b") }
    fn h_c07t_raw() { go(&format!("<a {}", sym::over(0, 7, b"b =>'/")), "b") }
    fn h_c07_two_attributes() { let sp = sym::pick(&[" ", "\r\n", "/", ""]); let rich = sym::flip(); let (a, b) = if rich { (attr(&["b", "é"]), few("b")) } else { (few(sym::pick(&["é", "b"])), attr(&["b", "B"])) }; go(&format!("<a {a}{sp}{b}{}", sym::pick(&[">", " >é", "/>", " />", ""])), sym::pick(&["b", "é"])) }
    fn h_c07_three_attributes() { let n = |_: ()| sym::pick(&["b", "c", "b=1", "c='b'", "b=\"\"", "b = 2", "bc"]); let e = sym::pick(&[">", "/>"]); let t = format!("<x-é {} {}  {}{e}", n(()), n(()), n(())); go(&t, "b") }
    fn h_c07_modification() {
        let w = W::new("https://a/"); let x = format!("<a {}", sym::over(0, 4, b"b=>'")); let want = match tag(x.as_bytes(), "b") { R::Attr(Some(Some(v))) => Some(v), R::NoClaim => return, _ => None };
        expect_mod(&StringModification::GetHtmlAttribute(s("b")), &x, &w.view(), want)
    }
}
