//! C03: where a needle is looked for, and what makes a string or char match.
use crate::ctx::*;
const H: &str = "https://example.com/";
type L = StringLocation;
fn has(h: &[u8], n: &[u8]) -> bool { find(h, n, 0).is_some() }
fn sw(h: &[u8], n: &[u8]) -> bool { h.len() >= n.len() && sym::same_bytes(&h[..n.len()], n) }
fn ew(h: &[u8], n: &[u8]) -> bool { h.len() >= n.len() && sym::same_bytes(&h[h.len() - n.len()..], n) }
fn at(h: &[u8], i: isize) -> Option<usize> { bound(i, h.len()).filter(|i| bnd(h, *i)) }
/// A leaf location and what it should say.  `None`: an error.
fn leaf(h: &[u8], n: &[u8], m: u8) -> (L, Option<bool>) {
    match sym::choose(9) {
        0 => (L::Anywhere, Some(has(h, n))), 1 => (L::Start, Some(sw(h, n))), 2 => (L::End, Some(ew(h, n))), 3 => (L::Equals, Some(sym::same_bytes(h, n))),
        4 => { let i = index(m); (L::StartsAt(i), at(h, i).map(|i| sw(&h[i..], n))) } 5 => { let i = index(m); (L::EndsAt(i), at(h, i).map(|i| ew(&h[..i], n))) }
        6 => { let i = index(m); (L::After(i), at(h, i).map(|i| has(&h[i..], n))) } 7 => { let i = index(m); (L::Before(i), at(h, i).map(|i| has(&h[..i], n))) }
        _ => if sym::flip() { (L::Always, Some(true)) } else { (L::Never, Some(false)) }
    }
}
fn expect(l: &L, h: &str, n: &str, want: Option<bool>) { let r = l.satisfied_by(h, n).ok(); sym::observe(match r { None => 2, Some(b) => b as u64 });
    sym::cover(match want { None => "error", Some(true) => "yes", Some(false) => "no" }); sym::check(r.is_some() == want.is_some(), "errors-exactly-where-specified"); if r.is_some() && want.is_some() { sym::check(r == want, "answer-as-specified"); } }
fn sm(m: &StringMatcher, h: &str, v: &TaskStateView, want: Option<bool>) { let r = m.satisfied_by(h, v).ok(); sym::observe(match r { None => 2, Some(b) => b as u64 });
    sym::cover(match want { None => "error", Some(true) => "yes", Some(false) => "no" }); sym::check(r.is_some() == want.is_some(), "errors-exactly-where-specified"); if r.is_some() && want.is_some() { sym::check(r == want, "answer-as-specified"); } }
fn ch() -> char { let mut v = vec![]; let w = 1 + sym::choose(4); sym::push_utf8(&mut v, w); unsafe { String::from_utf8_unchecked(v) }.chars().next().unwrap() }
fn code(c: char) -> u32 { c as u32 }
harnesses! {
fn h_c03_leaf() { let h = sym::text(3, 3); let n = sym::text(2, 2); let (l, w) = leaf(h.as_bytes(), n.as_bytes(), 7); expect(&l, &h, &n, w); }
fn h_c03_leaf_ascii() { let h = sym::over(0, 5, b"ab"); let n = sym::over(0, 3, b"ab"); let (l, w) = leaf(h.as_bytes(), n.as_bytes(), 6); expect(&l, &h, &n, w); }
fn h_c03_range() { let h = sym::text(2, 3); let n = sym::text(1, 2); let (a, b) = (index(4), opt_index(4)); let hb = h.as_bytes();
    match range(a, b, hb.len()).filter(|(i, j)| bnd(hb, *i) && bnd(hb, *j)) { Some((i, j)) => { let (l, w) = leaf(&hb[i..j], n.as_bytes(), 3); expect(&L::Range { start: a, end: b, location: Box::new(l) }, &h, &n, w) } None => expect(&L::Range { start: a, end: b, location: Box::new(L::Always) }, &h, &n, None) } }
fn h_c03_segment() { let h = sym::over(0, 3, b"-a"); let n = sym::over(0, 2, b"-a"); let l = split(h.as_bytes(), b"-"); let i = index(4);
    match idx(i, l.len()) { Some(k) => { let (lf, w) = leaf(&l[k], n.as_bytes(), 2); expect(&L::NthSegment { split: "-".into(), n: i, location: Box::new(lf) }, &h, &n, w) } None => expect(&L::NthSegment { split: "-".into(), n: i, location: Box::new(L::Always) }, &h, &n, None) } }
fn h_c03_any_segment() { let h = sym::over(0, 4, b"-ab"); let n = sym::over(0, 2, b"-ab"); let l = split(h.as_bytes(), b"-"); let nb = n.as_bytes();
    let (loc, want) = match sym::choose(5) { 0 => (L::Equals, Some(l.iter().any(|x| sym::same_bytes(x, nb)))), 1 => (L::Start, Some(l.iter().any(|x| sw(x, nb)))), 2 => (L::End, Some(l.iter().any(|x| ew(x, nb)))), 3 => (L::Anywhere, Some(l.iter().any(|x| has(x, nb)))),
        _ => { let mut r = Some(false); for x in &l { if x.is_empty() { r = None; break; } if sw(&x[1..], nb) { r = Some(true); break; } } (L::StartsAt(1), r) } };
    expect(&L::AnySegment { split: "-".into(), location: Box::new(loc) }, &h, &n, want); }
fn h_c03_matcher() { sym::opaque_hash(); let mut w = W::new(H); let h = sym::text(3, 2); let n = sym::text(2, 2); let (hb, nb) = (h.as_bytes(), n.as_bytes());
    w.params.lists = map(vec![("l", vec!["q".to_string(), n.clone()]), ("e", vec![])]); w.params.sets = map(vec![("s", [n.clone()].into_iter().collect())]);
    let v = w.view(); use StringMatcher as S;
    let none = || StringSource::None;
    match sym::choose(16) {
        0 => sm(&S::Contains { value: s(&n), r#where: L::Anywhere }, &h, &v, Some(has(hb, nb))), 1 => sm(&S::Contains { value: s(&n), r#where: L::End }, &h, &v, Some(ew(hb, nb))),
        2 => sm(&S::ContainsAny { values: vec![s("q"), s(&n)], r#where: L::Start }, &h, &v, Some(sw(hb, b"q") || sw(hb, nb))), 3 => sm(&S::ContainsAnyInList { r#where: L::Start, list: s("l") }, &h, &v, Some(sw(hb, b"q") || sw(hb, nb))),
        4 => sm(&S::ContainsAnyInList { r#where: L::Start, list: s("nope") }, &h, &v, None), 5 => sm(&S::Is(s(&n)), &h, &v, Some(sym::same_bytes(hb, nb))), 6 => sm(&S::Is(none()), &h, &v, None),
        7 => sm(&S::IsOneOf(["q".to_string(), n.clone()].into_iter().collect()), &h, &v, Some(sym::same_bytes(hb, b"q") || sym::same_bytes(hb, nb))), 8 => sm(&S::InSet(s("s")), &h, &v, Some(sym::same_bytes(hb, nb))), 9 => sm(&S::InSet(s("nope")), &h, &v, Some(false)),
        10 => sm(&S::LengthIs(hb.len()), &h, &v, Some(true)), 11 => { let k = sym::choose(8); sm(&S::LengthIs(k), &h, &v, Some(k == hb.len())) } 12 => { let mut a = true; for b in hb { a &= *b < 128; } sm(&S::IsAscii, &h, &v, Some(a)) }
        13 => sm(&S::Contains { value: none(), r#where: L::Anywhere }, &h, &v, None), 14 => sm(&S::Modified { modification: StringModification::Append(s(&n)), matcher: Box::new(S::Is(s(&cat_s(&h, &n)))) }, &h, &v, Some(true)), _ => sm(&S::Modified { modification: StringModification::Error("e".into()), matcher: Box::new(S::Always) }, &h, &v, None),
    } }
fn h_c03_matcher_segments() { let w = W::new(H); let v = w.view(); let h = sym::over(0, 3, b"-ab"); let n = sym::over(0, 2, b"-ab"); let l = split(h.as_bytes(), b"-"); let nb = n.as_bytes(); use StringMatcher as S;
    match sym::choose(4) {
        0 => { let i = index(4); sm(&S::NthSegmentMatches { split: s("-"), n: i, matcher: Box::new(S::Is(s(&n))) }, &h, &v, idx(i, l.len()).map(|k| sym::same_bytes(&l[k], nb))) }
        1 => sm(&S::AnySegmentMatches { split: s("-"), matcher: Box::new(S::Is(s(&n))) }, &h, &v, Some(l.iter().any(|x| sym::same_bytes(x, nb)))),
        2 => { let m = split(nb, b"-"); let p = m.len() < l.len() && (0..m.len()).all(|i| sym::same_bytes(&m[i], &l[i])); sm(&S::SegmentsStartWith { split: bs("-"), value: bs(&n) }, &h, &v, Some(p)) }
        _ => sm(&S::NthSegmentMatches { split: StringSource::None, n: 0, matcher: Box::new(S::Always) }, &h, &v, None),
    } }
fn h_c03_chars() { let w = W::new(H); let v = w.view(); let h = sym::text(3, 2); use StringMatcher as S; let cs: Vec<char> = h.chars().collect(); let p = sym::pick(&['a', '\u{e9}']);
    match sym::choose(3) {
        0 => sm(&S::OnlyTheseChars(vec![p, 'z']), &h, &v, Some(cs.iter().all(|c| *c == p || *c == 'z'))), 1 => sm(&S::AllCharsMatch(CharMatcher::Equals(p)), &h, &v, Some(cs.iter().all(|c| *c == p))), _ => sm(&S::AnyCharMatches(CharMatcher::Equals(p)), &h, &v, Some(cs.iter().any(|c| *c == p))) } }
/// Every char, every char class that has an ASCII definition.
fn h_c03_char() { sym::opaque_hash(); let c = ch(); let k = code(c); let inr = |a: u8, b: u8| (k >= a as u32) & (k <= b as u32); let (lo, up, dg) = (inr(b'a', b'z'), inr(b'A', b'Z'), inr(b'0', b'9')); use CharMatcher as C;
    let (m, want) = match sym::choose(16) {
        0 => (C::IsAscii, k < 128), 1 => (C::IsAsciiAlphabetic, lo | up), 2 => (C::IsAsciiAlphanumeric, lo | up | dg), 3 => (C::IsAsciiControl, (k < 32) | (k == 127)), 4 => (C::IsAsciiDigit, dg), 5 => (C::IsAsciiGraphic, inr(33, 126)), 6 => (C::IsAsciiHexdigit, dg | inr(b'a', b'f') | inr(b'A', b'F')), 7 => (C::IsAsciiLowercase, lo),
        8 => (C::IsAsciiPunctuation, inr(33, 126) & !(lo | up | dg)), 9 => (C::IsAsciiUppercase, up), 10 => (C::IsAsciiWhitespace, (k == 32) | (k == 9) | (k == 10) | (k == 12) | (k == 13)), 11 => (C::IsControl, (k < 32) | ((k >= 127) & (k < 160))), 12 => (C::IsDigit, dg),
        13 => { let d = ch(); (C::Equals(d), k == code(d)) } 14 => { let (a, b) = (ch(), ch()); (C::Between { min: a, max: b }, (k >= code(a)) & (k <= code(b))) } _ => { let (a, b) = (ch(), ch()); (C::IsOneOf([a, b].into_iter().collect()), (k == code(a)) | (k == code(b))) } };
    sym::cover("char"); let r = m.satisfied_by(c); sym::check(r.is_ok(), "total"); sym::check(r.unwrap_or(!want) == want, "char-class-as-specified"); }
/// Radix digits: every radix is answered, never a crash.
fn h_c03_radix() { let c = ch(); let r = sym::pick(&[0u32, 1, 2, 8, 10, 16, 35, 36, 37, 100, u32::MAX]); let k = code(c); let inr = |a: u8, b: u8| (k >= a as u32) & (k <= b as u32);
    let d = if inr(b'0', b'9') { k - 48 } else if inr(b'a', b'z') { k - 87 } else if inr(b'A', b'Z') { k - 55 } else { u32::MAX };
    let o = CharMatcher::IsDigitRadix(r).satisfied_by(c).ok(); sym::observe(match o { None => 2, Some(b) => b as u64 }); sym::cover("radix");
    if !(2..=36).contains(&r) { sym::check(o.is_none(), "bad-radix-is-an-error"); } else { sym::check(o == Some(d < r), "radix-digit"); } }
/// Unicode classes agree with the standard library's.
fn h_c03_unicode() { let c = if sym::flip() { let mut v = vec![]; sym::push_utf8(&mut v, 1); v[0] as char } else { sym::pick(&['\u{e9}', '\u{c9}', '\u{3a9}', '\u{1c5}', '\u{663}', '\u{bd}', '\u{a0}', '\u{2003}', '\u{b5}', '\u{2160}', '\u{4e00}', '\u{200b}', '\u{85}', '\u{1d7d8}']) }; use CharMatcher as C;
    let (m, want) = match sym::choose(6) { 0 => (C::IsAlphabetic, c.is_alphabetic()), 1 => (C::IsAlphanumeric, c.is_alphanumeric()), 2 => (C::IsLowercase, c.is_lowercase()), 3 => (C::IsNumeric, c.is_numeric()), 4 => (C::IsUppercase, c.is_uppercase()), _ => (C::IsWhitespace, c.is_whitespace()) };
    sym::cover("unicode"); sym::check(m.satisfied_by(c).ok() == Some(want), "unicode-class"); }
fn h_c03t_leaf() { let h = sym::text(4, 3); let n = sym::text(3, 2); let (l, w) = leaf(h.as_bytes(), n.as_bytes(), 13); expect(&l, &h, &n, w); }
fn h_c03t_leaf_ascii() { let h = sym::over(0, 9, b"ab"); let n = sym::over(0, 4, b"ab"); let (l, w) = leaf(h.as_bytes(), n.as_bytes(), 10); expect(&l, &h, &n, w); }
}
fn cat_s(a: &str, b: &str) -> String { let mut r = a.to_string(); r.push_str(b); r }
