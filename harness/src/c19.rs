//! C19: percent-encoding, base64 and JSON pointers.
use crate::ctx::*;
type M = StringModification;
const HEX: &[u8] = b"0123456789ABCDEF";
/// Whether a byte is left alone: alphanumeric ASCII, or one of `keep`.
fn kept(c: u8, keep: &[u8]) -> bool { let mut r = c.is_ascii_alphanumeric(); for k in keep { r |= c == *k; } r }
fn pct(x: &[u8], keep: &[u8]) -> Vec<u8> { let mut r = Vec::with_capacity(64); for &c in x { if kept(c, keep) { r.push(c) } else { r.push(b'%'); r.push(HEX[(c >> 4) as usize]); r.push(HEX[(c & 15) as usize]); } } r }
fn hexval(c: u8) -> Option<u8> { if c >= b'0' && c <= b'9' { Some(c - b'0') } else if c >= b'a' && c <= b'f' { Some(c - b'a' + 10) } else if c >= b'A' && c <= b'F' { Some(c - b'A' + 10) } else { None } }
fn unpct(x: &[u8]) -> Vec<u8> { let mut r = Vec::with_capacity(64); let mut i = 0; while i < x.len() { if x[i] == b'%' && i + 2 < x.len() { if let (Some(a), Some(b)) = (hexval(x[i + 1]), hexval(x[i + 2])) { r.push(a * 16 + b); i += 3; continue; } } r.push(x[i]); i += 1; } r }
fn utf8(v: Vec<u8>) -> Option<Vec<u8>> { if std::str::from_utf8(&v).is_ok() { Some(v) } else { None } }
const COMPONENT: &[u8] = b"-_.!~*'()"; const URI: &[u8] = b"-_.!~*'();/?:@&=+$,#";
fn alphabets() -> (UrlEncodeAlphabet, &'static [u8]) { match sym::choose(4) { 0 => (UrlEncodeAlphabet::JsEncodeUriComponent, COMPONENT), 1 => (UrlEncodeAlphabet::JsEncodeUri, URI), 2 => (UrlEncodeAlphabet::NonAlphanumeric, b""), _ => (UrlEncodeAlphabet::default(), COMPONENT) } }
fn w() -> W { W::new("http://a.b/") }
fn encode(x: &str) { let (a, keep) = alphabets(); let w = w(); let v = w.view(); let want = pct(x.as_bytes(), keep); expect_mod(&M::UrlEncode(a), x, &v, Some(want)) }
fn decode(x: &str) { let w = w(); let v = w.view(); expect_mod(&M::UrlDecode, x, &v, utf8(unpct(x.as_bytes()))) }
/// A wide char of which one byte is symbolic.
fn wide() -> String { let (a, b, c) = sym::pick(&[(&b""[..], 0x80u8, &b""[..]), (b"\xe2", 0x82, b"\xac"), (b"\xe0\xa0", 0x80, b""), (b"\xf0\x9f\x98", 0x80, b""), (b"\xf4\x80", 0x80, b"\xbf")]); let y = sym::u8(); let mut v = a.to_vec(); if a.is_empty() { sym::assume((y >= 0xc2) & (y <= 0xdf)); v.push(y); v.push(b) } else { sym::assume(y & 0xc0 == 0x80); v.push(y) } v.extend_from_slice(c); string(v) }
fn string(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// Standard base64 of bytes; the alphabet's last two characters are given.
fn b64(x: &[u8], last: &[u8; 2], pad: bool) -> Vec<u8> { let sym = |v: u8| -> u8 { if v < 26 { b'A' + v } else if v < 52 { b'a' + (v - 26) } else if v < 62 { b'0' + (v - 52) } else if v == 62 { last[0] } else { last[1] } };
    let mut r = Vec::with_capacity(64); for c in x.chunks(3) { let g = |i: usize| -> u8 { if i < c.len() { c[i] } else { 0 } }; let (a, b, d) = (g(0), g(1), g(2)); r.push(sym(a >> 2)); r.push(sym((a & 3) << 4 | b >> 4)); if c.len() > 1 { r.push(sym((b & 15) << 2 | d >> 6)) } else if pad { r.push(b'=') } if c.len() > 2 { r.push(sym(d & 63)) } else if pad { r.push(b'=') } } r }
/// `None`: not the base64 of anything; the `bool`: whether anything is claimed.
fn unb64(x: &[u8], last: &[u8; 2], mode: Base64DecodePaddingMode) -> (bool, Option<Vec<u8>>) {
    let val = |c: u8| -> Option<u32> { if c >= b'A' && c <= b'Z' { Some((c - b'A') as u32) } else if c >= b'a' && c <= b'z' { Some((c - b'a') as u32 + 26) } else if c >= b'0' && c <= b'9' { Some((c - b'0') as u32 + 52) } else if c == last[0] { Some(62) } else if c == last[1] { Some(63) } else { None } };
    let mut n = x.len(); while n > 0 && x[n - 1] == b'=' { n -= 1; } let p = x.len() - n; let canon = (4 - n % 4) % 4;
    let mut r = Vec::with_capacity(64); let (mut acc, mut bits) = (0u32, 0u32); for &c in &x[..n] { match val(c) { None => return (true, None), Some(v) => { acc = acc << 6 | v; bits += 6; if bits >= 8 { bits -= 8; r.push((acc >> bits) as u8); acc &= (1 << bits) - 1; } } } }
    if n % 4 == 1 || acc != 0 { return (true, None); }
    match mode { Base64DecodePaddingMode::RequireCanonical => if p != canon { return (true, None) }, Base64DecodePaddingMode::RequireNone => if p != 0 { return (true, None) }, Base64DecodePaddingMode::Indifferent => if p != 0 && p != canon { return (false, None) } }
    (true, utf8(r)) }
fn lasts() -> (Base64Alphabet, &'static [u8; 2]) { match sym::choose(3) { 0 => (Base64Alphabet::UrlSafe, b"-_"), 1 => (Base64Alphabet::Standard, b"+/"), _ => (Base64Alphabet::default(), b"-_") } }
fn modes() -> Base64DecodePaddingMode { match sym::choose(4) { 0 => Base64DecodePaddingMode::Indifferent, 1 => Base64DecodePaddingMode::RequireCanonical, 2 => Base64DecodePaddingMode::RequireNone, _ => Base64DecodePaddingMode::default() } }
fn enc(x: &str) { let (alphabet, last) = lasts(); let pad = sym::flip(); let w = w(); let v = w.view(); expect_mod(&M::Base64Encode(Base64Config { alphabet, encode_padding: pad, ..Default::default() }), x, &v, Some(b64(x.as_bytes(), last, pad))) }
fn dec(x: &str) { let (alphabet, last) = lasts(); let m = modes(); let m2 = m; let pad = matches!(m2, Base64DecodePaddingMode::RequireNone); let w = w(); let v = w.view(); let (claimed, want) = unb64(x.as_bytes(), last, m2); if claimed { expect_mod(&M::Base64Decode(Base64Config { alphabet, encode_padding: pad, decode_padding: m }), x, &v, want) } }
fn there_and_back(a: &M, b: &M, x: &str) { let w = w(); let v = w.view(); let (ok, y) = apply(a, x, &v); sym::check(ok, "succeeds-where-specified"); let (ok, z) = apply(b, &y, &v); sym::cover("decoded-again"); sym::observe_bytes(z.as_bytes()); sym::check(ok && sym::same(&z, x), "decoding-undoes-encoding"); }
/// The value a JSON pointer (RFC 6901) names.
fn ptr(j: &str, p: &str, want: Option<&str>) { let w = w(); let v = w.view(); expect_mod(&M::JsonPointer(s(p)), j, &v, want.map(|x| x.as_bytes().to_vec())) }
harnesses! {
    fn h_c19_url_encode() { let x = sym::text(1, 1); encode(&x) }
    fn h_c19_url_encode_uni() { let x = wide(); encode(&x) }
    fn h_c19_url_encode_two() { let x = sym::over_n(2 + sym::choose(2), b"a%/ ~"); encode(&x) }
    fn h_c19_url_decode() { let x = sym::over(0, 5, b"%4cF"); decode(&x) }
    fn h_c19_url_decode_any() { let x = sym::text(4, 1); decode(&x) }
    fn h_c19_url_decode_utf8() { let (a, b, c) = (sym::byte_of(b"0123456789abcdefABCDEF"), sym::byte_of(b"0123456789abcdef"), sym::pick(&["", "%C3", "%e2%82", "%f0%9f%98", "\u{e9}%C3", "+", "%25"])); let mut v = c.as_bytes().to_vec(); v.extend([b'%', a, b]); if sym::flip() { v.extend(b"x") } decode(&string(v)) }
    fn h_c19_url_round() { let mut x = sym::over(0, 2, b"a%4~/"); x.push_str(&wide()); let (a, _) = alphabets(); there_and_back(&M::UrlEncode(a), &M::UrlDecode, &x) }
    fn h_c19_b64_encode() { let x = sym::text(4, 1); enc(&x) }
    fn h_c19_b64_encode_uni() { let mut x = wide(); x.push_str(&sym::text(1, 1)); enc(&x) }
    fn h_c19_b64_encode_long() { let mut x = sym::pick(&["0123456789abcdefghijk", "0123456789abcdefghijklmno", "0123456789abcdefghijklmnopqrstuvwxyz0123456789ABCDEF"]).to_string(); x.push_str(&sym::text(2, 1)); enc(&x) }
    fn h_c19_b64_decode() { let x = sym::text(3, 1); dec(&x) }
    fn h_c19_b64_decode_pad() { let mut x = sym::pick(&["", "YWJj", "YWJjZGVmZ2hpamtsbW5vcHFyc3R1dnd4"]).to_string(); x.push_str(&sym::over_n(sym::choose(5), b"Y2+_=")); dec(&x) }
    fn h_c19_b64_decode_uni() { let mut x = sym::over(0, 3, b"Y-"); x.push_str(sym::pick(&["\u{e9}", "\u{20ac}", "\n", " "])); x.push_str(&sym::over(0, 1, b"Y=")); dec(&x) }
    fn h_c19_b64_round() { let x = sym::text(2, 2); let (alphabet, _) = lasts(); let encode_padding = sym::flip(); let c = Base64Config { alphabet, encode_padding, decode_padding: if sym::flip() { Base64DecodePaddingMode::Indifferent } else if encode_padding { Base64DecodePaddingMode::RequireCanonical } else { Base64DecodePaddingMode::RequireNone } }; there_and_back(&M::Base64Encode(c.clone()), &M::Base64Decode(c), &x) }
    fn h_c19_json_string() { let c = sym::u8(); sym::assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\')); let mut j = b"{\"a\":[1,\"".to_vec(); j.push(c); j.extend(b"\"]}"); let j = string(j); let want = string(vec![c]); ptr(&j, "/a/1", Some(&want)) }
    fn h_c19_json_pointer() { let j = r#" {"":"e","a/b":"s","m~n":"t","o":{"a":"in","":{"":"deep"}},"~1":"u","1":"one","a":[0,"x2",["y\u00e9\n"],{"k":"v"}]} "#;
        let (p, want) = sym::pick(&[("/a/1", Some("x2")), ("/a/2/0", Some("y\u{e9}\n")), ("/a/0", None), ("/a/3/k", Some("v")), ("/a/4", None), ("/a/01", None), ("/a/-1", None), ("/a/-", None), ("/a/1/", None), ("/", Some("e")), ("", None), ("a", None), ("/a~1b", Some("s")), ("/a/b", None), ("/m~0n", Some("t")), ("/~01", Some("u")), ("/1", Some("one")), ("/o/a", Some("in")), ("/o//", Some("deep")), ("/o", None), ("/A", None), ("/zz", None), ("/a", None)]); ptr(j, p, want) }
    fn h_c19_json_other() { let (j, p, want) = sym::pick(&[("\"x\"", "", Some("x")), ("[\"a\",\"b\"]", "/1", Some("b")), ("[\"a\",\"b\"", "/1", None), ("", "", None), ("null", "", None), ("\"x\" y", "", None), ("{\"a\":\"1\"}{\"a\":\"2\"}", "/a", None), ("{a:\"1\"}", "/a", None), ("{'a':\"1\"}", "/a", None), ("{\"a\":\"\\ud83d\\ude00\"}", "/a", Some("\u{1f600}")), ("{\"a\":\"\\ud83d\"}", "/a", None), ("1", "", None), ("{\"a\":\"\"}", "/a", Some(""))]); ptr(j, p, want) }
    fn h_c19_json_source() { let w = w(); let v = w.view(); let j = "{\"a\":\"b\"}"; let mut t = j.to_string(); let r = M::JsonPointer(StringSource::None).apply(&mut t, &v).is_ok(); sym::observe(r as u64); sym::cover("absent-pointer"); sym::check(!r && t == j, "unchanged-on-error"); let mut t = j.to_string(); let r = M::JsonPointer(StringSource::Part(UrlPart::Path)).apply(&mut t, &v).is_ok(); sym::check(!r && t == j, "unchanged-on-error"); let w = W::new("http://a.b/a"); let v = w.view(); let r = M::JsonPointer(StringSource::Part(UrlPart::Path)).apply(&mut t, &v).is_ok(); sym::check(r && t == "b", "result-as-specified"); }
    fn h_c19_text() { let (t, want) = sym::pick(&[("\"UrlEncode\"", M::UrlEncode(UrlEncodeAlphabet::JsEncodeUriComponent)), ("{\"UrlEncode\":\"JsEncodeUri\"}", M::UrlEncode(UrlEncodeAlphabet::JsEncodeUri)), ("{\"UrlEncode\":\"NonAlphanumeric\"}", M::UrlEncode(UrlEncodeAlphabet::NonAlphanumeric)), ("\"UrlDecode\"", M::UrlDecode),
            ("\"Base64Encode\"", M::Base64Encode(Base64Config { alphabet: Base64Alphabet::UrlSafe, encode_padding: true, decode_padding: Base64DecodePaddingMode::Indifferent })), ("\"Base64Decode\"", M::Base64Decode(Base64Config { alphabet: Base64Alphabet::UrlSafe, encode_padding: true, decode_padding: Base64DecodePaddingMode::Indifferent })),
            ("{\"Base64Encode\":{}}", M::Base64Encode(Base64Config { alphabet: Base64Alphabet::UrlSafe, encode_padding: true, decode_padding: Base64DecodePaddingMode::Indifferent })), ("{\"Base64Encode\":{\"alphabet\":\"Standard\",\"encode_padding\":false}}", M::Base64Encode(Base64Config { alphabet: Base64Alphabet::Standard, encode_padding: false, decode_padding: Base64DecodePaddingMode::Indifferent })),
            ("{\"Base64Decode\":{\"decode_padding\":\"RequireNone\"}}", M::Base64Decode(Base64Config { alphabet: Base64Alphabet::UrlSafe, encode_padding: true, decode_padding: Base64DecodePaddingMode::RequireNone }))]); sym::cover("text"); let r = serde_json::from_str::<M>(t); sym::observe(r.is_ok() as u64); sym::check(r.is_ok_and(|x| x == want), "text-means-what-is-documented"); }
    fn h_c19t_url_encode() { let x = sym::text(2, 1); encode(&x) }
    fn h_c19t_url_decode() { let x = sym::over(6, 7, b"%4cF"); decode(&x) }
    fn h_c19t_b64_decode() { let mut x = sym::text(3, 1); x.insert_str(0, "YWJj"); dec(&x) }
    fn h_c19t_b64_decode_two() { let x = sym::over_n(8, b"Y2-_=8"); dec(&x) }
    fn h_c19t_round() { let x = sym::over(3, 3, b"a%4~/ "); let (a, _) = alphabets(); there_and_back(&M::UrlEncode(a), &M::UrlDecode, &x) }
}
