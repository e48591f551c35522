//! C06: HTML character references and text.
use crate::ctx::*;
use crate::entities::ENTITIES;
use parse::html::*;
fn eq(r: &Result<String, ()>, w: &Result<Vec<u8>, ()>) -> bool { match (r, w) { (Ok(a), Ok(b)) => sym::same_bytes(a.as_bytes(), b), (Err(()), Err(())) => true, _ => false } }
fn white(c: u32) -> bool { (9..=13).contains(&c) | (c == 32) | (c == 0x85) | (c == 0xA0) | (c == 0x1680) | (0x2000..=0x200A).contains(&c) | (c == 0x2028) | (c == 0x2029) | (c == 0x202F) | (c == 0x205F) | (c == 0x3000) }
fn control(c: u32) -> bool { (c < 32) | (0x7F..=0x9F).contains(&c) }
/// The character with this code, if it is one that references may denote.
fn allowed(n: u64) -> Option<u32> { if (n > 0x10FFFF) | ((n >= 0xD800) & (n <= 0xDFFF)) { return None; } if white(n as u32) | control(n as u32) { return None; } Some(n as u32) }
fn num(t: &str, n: Option<u64>) {
    let r = parse_num_char_ref(t); sym::observe(match &r { Ok(c) => *c as u64, Err(_) => u64::MAX });
    match n.and_then(allowed) { Some(c) => { sym::cover("char"); match r { Ok(x) => sym::check(x as u32 == c, "number-exact"), Err(_) => sym::check(false, "decodes") } } None => { sym::cover("error"); sym::check(r.is_err(), "refused") } }
}
fn digits(n: usize, radix: u64) -> (String, u64) { let mut v = 0u64; let mut t = String::with_capacity(16); for _ in 0..n { let d = sym::u8(); if radix == 10 { sym::assume(d < 10); t.push((b'0' + d) as char); } else { let up = sym::flip(); if sym::flip() { sym::assume(d < 10); t.push((b'0' + d) as char); } else { sym::assume((d >= 10) & (d < 16)); t.push((if up { b'A' } else { b'a' } + d - 10) as char); } } v = v * radix + d as u64; } (t, v) }
fn unknown(n: usize) {
    let name = { let mut v = String::with_capacity(16); for _ in 0..n { let b = sym::u8(); sym::assume((b >= b'0') & (b <= b'z') & ((b <= b'9') | (b >= b'A')) & ((b <= b'Z') | (b >= b'a'))); v.push(b as char); } v };
    let mut known = false; for (k, _) in ENTITIES.iter() { if k.len() == n { known |= sym::same(k, &name); } }
    let r = parse_char_ref(&name); sym::observe(r.is_ok() as u64); sym::cover(if r.is_ok() { "known" } else { "unknown" }); sym::check(r.is_ok() == known, "known-exactly-the-standard's");
    if let Ok(x) = r { let mut right = false; for (k, v) in ENTITIES.iter() { if k.len() == n { right |= sym::same(k, &name) & sym::same(v, &x); } } sym::check(right, "value-exact"); }
}
/// Text with references replaced, by scanning; errors: a `&` without `;`, or an invalid reference.
pub fn unescaped(t: &[u8]) -> Result<Vec<u8>, ()> {
    let mut r = vec![]; let mut i = 0;
    while i < t.len() {
        if t[i] != b'&' { r.push(t[i]); i += 1; continue; }
        let mut j = i + 1; while j < t.len() && t[j] != b';' && t[j] != b'&' { j += 1; } if j == t.len() || t[j] != b';' { return Err(()); }
        let n = &t[i + 1..j]; i = j + 1;
        if n.first() == Some(&b'#') {
            let (radix, d) = match n.get(1) { Some(b'x' | b'X') => (16, &n[2..]), _ => (10, &n[1..]) }; if d.is_empty() { return Err(()); }
            let mut v = 0u64; for b in d { let k = match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' if radix == 16 => b - b'a' + 10, b'A'..=b'F' if radix == 16 => b - b'A' + 10, _ => return Err(()) }; v = (v * radix + k as u64).min(1 << 40); }
            let c = allowed(v).and_then(char::from_u32).ok_or(())?; let mut b = [0; 4]; r.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        } else {
            let mut hit = None; for (k, v) in ENTITIES.iter() { if k.len() == n.len() && k.bytes().all(|c| b"lgtLGTampquo".contains(&c)) && sym::same_bytes(n, k.as_bytes()) { hit = Some(*v); break; } }
            r.extend_from_slice(hit.ok_or(())?.as_bytes());
        }
    }
    Ok(r)
}
fn text_check(t: &str) { let w = unescaped(t.as_bytes()); let r = unescape_text(t).map_err(|_| ()); sym::observe(r.is_ok() as u64); if let Ok(x) = &r { sym::observe_bytes(x.as_bytes()); } sym::cover(if w.is_ok() { "text" } else { "error" }); sym::check(eq(&r, &w), "text-exact"); }
harnesses! {
    /// Every named reference of the standard, alone and in text.
    fn h_c06_named() {
        let (n, v) = ENTITIES[sym::choose(17) * 125 + sym::choose(125)]; let a = sym::over(0, 1, b"x;"); let r = parse_char_ref(n); sym::check(matches!(&r, Ok(x) if x == v), "value-exact"); sym::cover("known");
        let u = unescape_text(&format!("{a}&{n};;")).map_err(|_| ()); sym::check(eq(&u, &Ok(format!("{a}{v};").into_bytes())), "in-text");
    }
    /// No other name is accepted: all alphanumeric names of 1 to 3 characters.
    fn h_c06_unknown() { unknown(1 + sym::choose(3)) }
    fn h_c06t_unknown() { unknown(4 + sym::choose(2)) }
    /// A known name with one character replaced, added or dropped is known only if the standard says so.
    fn h_c06_near_names() {
        let (n, _) = ENTITIES[sym::choose(17) * 125 + sym::choose(125)]; let t = match sym::choose(3) { 0 => n[1..].to_string(), 1 => n[..n.len() - 1].to_string(), _ => format!("{n}{}", sym::pick(&["a", ";", " "])) };
        let w = ENTITIES.iter().find(|e| e.0 == t).map(|e| e.1); let r = parse_char_ref(&t); sym::cover(if w.is_some() { "known" } else { "unknown" }); sym::check(r.ok().as_deref() == w, "known-exactly-the-standard's");
    }
    fn h_c06_decimal() { let n = 1 + sym::choose(3); let (t, v) = digits(n, 10); num(&format!("#{t}"), Some(v)) }
    fn h_c06_long_decimal() { let p = sym::pick(&["1", "2", "81", "82", "111", "552", "553", "573", "574", "120", "123", "655", "000000000", "11140", "11141", "9999", "42949672", "42949673", "184467440737095517"]); let n = 1 + sym::choose(2); let mut v = 0u128; for b in p.bytes() { v = v * 10 + (b - b'0') as u128; } let (t, w) = digits(n, 10); let v = (v * if n == 1 { 10 } else { 100 }).min(1 << 60) as u64; num(&format!("#{p}{t}"), Some(v + w)) }
    fn h_c06_hex() { let n = 1 + sym::choose(3); let (t, v) = digits(n, 16); num(&format!("#{}{t}", sym::pick(&["x", "X"])), Some(v)) }
    fn h_c06_long_hex() { let p = sym::pick(&["1", "10", "0", "D7", "DF", "00000000", "10F", "110", "FFFFF", "1FFFFFFFF", "10000000"]); let mut v = 0u64; for b in p.bytes() { v = v * 16 + (b as char).to_digit(16).unwrap() as u64; } let (t, w) = digits(2, 16); num(&format!("#x{p}{t}"), Some(v * 256 + w)) }
    fn h_c06_not_a_number() { let t = format!("#{}", sym::over(0, 3, b"1aAxX#g ")); let b = t.as_bytes(); let d = if b.len() > 1 && (b[1] == b'x' || b[1] == b'X') { (16, &b[2..]) } else { (10, &b[1..]) }; let mut v = if d.1.is_empty() { None } else { Some(0u64) }; for c in d.1 { let k = match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' | b'A'..=b'F' if d.0 == 16 => Some((c | 32) - b'a' + 10), _ => None }; v = match (v, k) { (Some(v), Some(k)) => Some(v * d.0 + k as u64), _ => None }; } num(&t, v) }
    /// Arbitrary text.
    fn h_c06_text() { text_check(&sym::over(0, 5, b"&;lgt#")) }
    fn h_c06_text_numeric() { text_check(&format!("{}&#{};{}", sym::over(0, 1, b"&;a"), sym::over(0, 3, b"x64;&"), sym::over(0, 2, b"&;l"))) }
    fn h_c06t_text() { text_check(&sym::over(0, 7, b"&;lgt")) }
    fn h_c06_modification() { let t = sym::over(0, 4, b"&;lg"); let w = W::new("https://a/"); let want = unescaped(t.as_bytes()).ok(); expect_mod(&StringModification::UnescapeHtmlText, &t, &w.view(), want) }
}
