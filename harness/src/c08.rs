//! C08: JavaScript string literals.
use crate::ctx::*;
enum R { Val(Vec<u8>), Err, NoClaim }
fn hexv(b: Option<u8>) -> Option<u32> { match b { Some(c @ b'0'..=b'9') => Some((c - b'0') as u32), Some(c @ b'a'..=b'f') => Some((c - b'a') as u32 + 10), Some(c @ b'A'..=b'F') => Some((c - b'A') as u32 + 10), _ => None } }
fn put(r: &mut Vec<u8>, c: u32) -> bool { match char::from_u32(c) { Some(c) => { let mut b = [0; 4]; r.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); true } None => false } }
/// The value of the literal the text starts with, by the ECMAScript grammar.
fn literal(x: &[u8]) -> R {
    let at = |i: usize| x.get(i).copied(); let q = match at(0) { Some(q @ (b'"' | b'\'')) => q, None => return R::NoClaim, _ => return R::Err }; let mut r = vec![]; let mut i = 1;
    loop {
        let c = match at(i) { None => return R::NoClaim, Some(c) => c }; i += 1;
        if c == q { return R::Val(r); } if c == b'\n' || c == b'\r' { return R::NoClaim; } if c != b'\\' { r.push(c); continue; }
        let e = match at(i) { None => return R::NoClaim, Some(c) => c }; i += 1;
        match e {
            b'n' => r.push(10), b't' => r.push(9), b'r' => r.push(13), b'b' => r.push(8), b'f' => r.push(12), b'v' => r.push(11), b'\n' => (), b'\r' => return R::NoClaim,
            b'0' => { if at(i).is_some_and(|c| c.is_ascii_digit()) { return R::NoClaim; } r.push(0) } b'1'..=b'7' => return R::NoClaim,
            b'x' => match (hexv(at(i)), hexv(at(i + 1))) { (Some(a), Some(b)) => { put(&mut r, a * 16 + b); i += 2; } (None, _) if at(i).is_none() => return R::NoClaim, (Some(_), None) if at(i + 1).is_none() => return R::NoClaim, _ => return R::Err },
            b'u' => {
                let mut v = 0; let mut n = 0; let brace = at(i) == Some(b'{'); if brace { i += 1; }
                loop { if !brace && n == 4 { break; } match (hexv(at(i)), at(i)) { (_, None) => return R::NoClaim, (Some(d), _) => { v = v * 16 + d; n += 1; i += 1; if n > 5 { return R::NoClaim; } } (None, Some(b'}')) if brace && n > 0 => { i += 1; break; } _ => return R::Err } }
                if !put(&mut r, v) { return R::Err; }
            }
            c => r.push(c),
        }
    }
}
fn go(x: &str) {
    let r = parse::js::string_literal_prefix(x); sym::observe(r.is_ok() as u64); if let Ok(v) = &r { sym::observe_bytes(v.as_bytes()); }
    match literal(x.as_bytes()) { R::NoClaim => sym::cover("no-claim"), R::Err => { sym::cover("error"); sym::check(r.is_err(), "malformed-refused") } R::Val(w) => { sym::cover("value"); match &r { Ok(v) => sym::check(sym::same_bytes(v.as_bytes(), &w), "value-exact"), Err(_) => sym::check(false, "decodes") } } }
}
fn hexdigit() -> String { let b = sym::u8(); match sym::choose(3) { 0 => sym::assume((b >= b'0') & (b <= b'9')), 1 => sym::assume((b >= b'a') & (b <= b'f')), _ => sym::assume((b >= b'A') & (b <= b'F')) } (b as char).to_string() }
harnesses! {
    fn h_c08_text() { go(&sym::over(0, 5, b"\"'\\ab{")) }
    /// Every single-character escape, for every ASCII character.
    fn h_c08_simple_escapes() { let c = sym::text(1, 1); let t = format!("\"a\\{c}b\"{}", sym::over(0, 1, b"\"'x")); go(&t) }
    fn h_c08_escapes() { go(&format!("{}\\{}", sym::pick(&["'", "\"é"]), sym::over(0, 5, b"xu0aF}{'\\"))) }
    fn h_c08_hex_escape() { go(&format!("'{}\\x{}{}-'", sym::pick(&["", "é", "\\\\"]), hexdigit(), hexdigit())) }
    fn h_c08_unicode_escape() { let p = sym::pick(&["\\u", "\\u{"]); let e = if p == "\\u" { "" } else { "}" }; let (a, b) = (sym::pick(&["00", "0D", "d8", "DF", "20", "fF", "7F"]), sym::pick(&["0", "7", "8", "f", "C"])); go(&format!("\"{p}{a}{b}{}{e}\"", hexdigit())) }
    fn h_c08_brace_escape() { let n = sym::choose(2); let p = sym::pick(&["", "0", "d8", "D80", "dfF", "000", "1000", "1", "1f", "10FFF"]); let mut t = format!("'\\u{{{p}"); for _ in 0..n { t += &hexdigit(); } t += sym::pick(&["}", "", "g}", "{"]); t += "z'"; go(&t) }
    fn h_c08t_text() { go(&sym::over(0, 7, b"\"'\\xu0")) }
    fn h_c08_modification() { let w = W::new("https://a/"); let x = sym::over(0, 4, b"\"'\\ax"); match literal(x.as_bytes()) { R::NoClaim => (), R::Err => expect_mod(&StringModification::GetJsStringLiteralPrefix, &x, &w.view(), None), R::Val(v) => expect_mod(&StringModification::GetJsStringLiteralPrefix, &x, &w.view(), Some(v)) } }
}
