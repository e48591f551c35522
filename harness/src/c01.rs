//! C01: modifications addressed by byte index, range, prefix, suffix or delimiter.
use crate::ctx::*;
const H: &str = "https://example.com/";
fn rm(index: isize, x: &str, w: &W) {
    let b = x.as_bytes();
    let want = idx(index, b.len()).and_then(|i| if !bnd(b, i) { None } else { let mut e = i + 1; while !bnd(b, e) { e += 1; } Some(cat(&b[..i], &b[e..], b"")) });
    expect_mod(&StringModification::RemoveChar(index), x, &w.view(), want);
}
fn slice(x: &str, st: isize, en: Option<isize>) -> Option<(usize, usize)> { range(st, en, x.len()).filter(|(a, b)| bnd(x.as_bytes(), *a) && bnd(x.as_bytes(), *b)) }
harnesses! {
fn h_c01_remove() { let w = W::new(H); let x = sym::text(3, 4); rm(index(6), &x, &w); }
fn h_c01_keep() { let w = W::new(H); let x = sym::text(2, 4); let (a, b) = (index(5), opt_index(5)); let want = slice(&x, a, b).map(|(i, j)| x.as_bytes()[i..j].to_vec()); expect_mod(&StringModification::KeepRange { start: a, end: b }, &x, &w.view(), want); }
fn h_c01_replace_range() { let w = W::new(H); let x = sym::text(2, 3); let (a, b) = (index(4), opt_index(4)); let r = sym::over(0, 2, b"xyz");
    let want = slice(&x, a, b).map(|(i, j)| cat(&x.as_bytes()[..i], r.as_bytes(), &x.as_bytes()[j..])); expect_mod(&StringModification::ReplaceRange { start: a, end: b, replace: s(&r) }, &x, &w.view(), want); }
fn h_c01_replace_range_none() { let w = W::new(H); let x = sym::text(2, 2); let (a, b) = (index(4), opt_index(4)); expect_mod(&StringModification::ReplaceRange { start: a, end: b, replace: StringSource::None }, &x, &w.view(), None); }
fn h_c01_insert() { let w = W::new(H); let x = sym::text(3, 3); let i = index(6); let r = sym::over(0, 2, b"xyz");
    let want = bound(i, x.len()).filter(|i| bnd(x.as_bytes(), *i)).map(|i| cat(&x.as_bytes()[..i], r.as_bytes(), &x.as_bytes()[i..]));
    expect_mod(&StringModification::Insert { index: i, value: s(&r) }, &x, &w.view(), want); }
fn h_c01_insert_none() { let w = W::new(H); let x = sym::text(2, 2); expect_mod(&StringModification::Insert { index: index(4), value: StringSource::None }, &x, &w.view(), None); }
/// Long strings: the arithmetic on lengths must not depend on the string being short.
fn h_c01_long() { let w = W::new(H); let n = sym::choose(40); let mut x = sym::over_n(n, b"abcdefgh"); if sym::flip() { x.push('\u{e9}'); } let b = x.as_bytes();
    let i = index(45);
    match sym::choose(4) {
        0 => rm(i, &x, &w),
        1 => expect_mod(&StringModification::KeepRange { start: i, end: None }, &x, &w.view(), slice(&x, i, None).map(|(i, j)| b[i..j].to_vec())),
        2 => expect_mod(&StringModification::KeepRange { start: 0, end: Some(i) }, &x, &w.view(), slice(&x, 0, Some(i)).map(|(i, j)| b[i..j].to_vec())),
        _ => expect_mod(&StringModification::ReplaceRange { start: i, end: Some(-1), replace: s("_") }, &x, &w.view(), slice(&x, i, Some(-1)).map(|(i, j)| cat(&b[..i], b"_", &b[j..]))),
    } }
fn h_c01_affix() { let w = W::new(H); let v = w.view(); let x = sym::text(3, 2); let p = sym::text(2, 2); let (b, q) = (x.as_bytes(), p.as_bytes());
    let pre = b.len() >= q.len() && sym::same_bytes(&b[..q.len()], q); let suf = b.len() >= q.len() && sym::same_bytes(&b[b.len() - q.len()..], q);
    match sym::choose(4) {
        0 => expect_mod(&StringModification::StripPrefix(s(&p)), &x, &v, if pre { Some(b[q.len()..].to_vec()) } else { None }),
        1 => expect_mod(&StringModification::StripSuffix(s(&p)), &x, &v, if suf { Some(b[..b.len() - q.len()].to_vec()) } else { None }),
        2 => expect_mod(&StringModification::StripMaybePrefix(s(&p)), &x, &v, Some(if pre { b[q.len()..].to_vec() } else { b.to_vec() })),
        _ => expect_mod(&StringModification::StripMaybeSuffix(s(&p)), &x, &v, Some(if suf { b[..b.len() - q.len()].to_vec() } else { b.to_vec() })),
    } }
fn h_c01_between() { let w = W::new(H); let x = sym::over(0, 5, b"ab[]"); let (st, en) = (sym::over(1, 2, b"a["), sym::over(1, 2, b"a]")); let b = x.as_bytes();
    let want = find(b, st.as_bytes(), 0).and_then(|i| { let f = i + st.len(); find(b, en.as_bytes(), f).map(|j| b[f..j].to_vec()) });
    expect_mod(&StringModification::ExtractBetween { start: s(&st), end: s(&en) }, &x, &w.view(), want);
}
fn h_c01_replace() { let w = W::new(H); let v = w.view(); let x = sym::over(0, 4, b"abc"); let f = sym::over(1, 2, b"ab"); let r = sym::over(0, 2, b"ax");
    let count = sym::choose(4); let parts = split(x.as_bytes(), f.as_bytes());
    if count == 3 { expect_mod(&StringModification::Replace { find: s(&f), replace: s(&r) }, &x, &v, Some(join(&parts, r.as_bytes()))); }
    else { let mut o = vec![]; for (i, p) in parts.iter().enumerate() { if i > 0 { o.extend_from_slice(if i <= count { r.as_bytes() } else { f.as_bytes() }); } o.extend_from_slice(p); } expect_mod(&StringModification::Replacen { find: s(&f), replace: s(&r), count }, &x, &v, Some(o)); } }
fn h_c01_concat() { let w = W::new(H); let v = w.view(); let x = sym::text(3, 3); let r = sym::text(2, 2); let (a, b) = (x.as_bytes(), r.as_bytes());
    match sym::choose(3) { 0 => expect_mod(&StringModification::Append(s(&r)), &x, &v, Some(cat(a, b, b""))), 1 => expect_mod(&StringModification::Prepend(s(&r)), &x, &v, Some(cat(b, a, b""))), _ => expect_mod(&StringModification::Set(s(&r)), &x, &v, Some(b.to_vec())) } }
/// A value that is absent where one is required: an error, and the string is left alone.
fn h_c01_absent() { let w = W::new(H); let v = w.view(); let x = sym::text(2, 2); let n = || StringSource::None; let e = || StringSource::Error("e".into()); let g = if sym::flip() { n } else { e };
    let m = match sym::choose(13) { 0 => StringModification::Append(g()), 1 => StringModification::Prepend(g()), 2 => StringModification::Set(g()), 3 => StringModification::Replace { find: g(), replace: s("a") }, 4 => StringModification::Replace { find: s("a"), replace: g() },
        5 => StringModification::Replacen { find: s("a"), replace: g(), count: 1 }, 6 => StringModification::StripPrefix(g()), 7 => StringModification::StripSuffix(g()), 8 => StringModification::StripMaybePrefix(g()), 9 => StringModification::StripMaybeSuffix(g()),
        10 => StringModification::ExtractBetween { start: g(), end: s("a") }, 11 => StringModification::ExtractBetween { start: s(""), end: g() }, _ => StringModification::Replacen { find: g(), replace: s("b"), count: 1 } };
    expect_mod(&m, &x, &v, None); }
fn h_c01_case() { let w = W::new(H); let v = w.view(); let x = sym::text(3, 1); let mut lo = x.clone().into_bytes(); let mut up = lo.clone(); for c in &mut lo { *c = if (*c >= b'A') & (*c <= b'Z') { *c + 32 } else { *c }; } for c in &mut up { *c = if (*c >= b'a') & (*c <= b'z') { *c - 32 } else { *c }; }
    if sym::flip() { expect_mod(&StringModification::Lowercase, &x, &v, Some(lo)); } else { expect_mod(&StringModification::Uppercase, &x, &v, Some(up)); } }
/// Beyond ASCII, where case mappings change lengths and depend on the place.
fn h_c01_case_unicode() { let w = W::new(H); let v = w.view(); let p = sym::over(0, 2, b"a Z"); let (x, lo, up) = sym::pick(&[("\u{c9}", "\u{e9}", "\u{c9}"), ("\u{df}", "\u{df}", "SS"), ("\u{149}", "\u{149}", "\u{2bc}N"), ("\u{130}", "i\u{307}", "\u{130}"), ("\u{391}\u{3a3}", "\u{3b1}\u{3c2}", "\u{391}\u{3a3}"), ("\u{fb01}", "\u{fb01}", "FI"), ("\u{1c5}", "\u{1c6}", "\u{1c4}"), ("\u{42f}1z", "\u{44f}1z", "\u{42f}1Z"), ("\u{10400}", "\u{10428}", "\u{10400}")]);
    let (pl, pu) = (p.to_ascii_lowercase(), p.to_ascii_uppercase()); let t = [&p, x].concat(); if sym::flip() { expect_mod(&StringModification::Lowercase, &t, &v, Some([&pl, lo].concat().into_bytes())); } else { expect_mod(&StringModification::Uppercase, &t, &v, Some([&pu, up].concat().into_bytes())); } }
/// Deeper: three chars of any width, both ends of the range.
fn h_c01t_keep() { let w = W::new(H); let x = sym::text(3, 4); let (a, b) = (index(9), opt_index(9)); let want = slice(&x, a, b).map(|(i, j)| x.as_bytes()[i..j].to_vec()); expect_mod(&StringModification::KeepRange { start: a, end: b }, &x, &w.view(), want); }
fn h_c01t_replace_range() { let w = W::new(H); let x = sym::text(3, 3); let (a, b) = (index(7), opt_index(7)); let r = sym::text(1, 4);
    let want = slice(&x, a, b).map(|(i, j)| cat(&x.as_bytes()[..i], r.as_bytes(), &x.as_bytes()[j..])); expect_mod(&StringModification::ReplaceRange { start: a, end: b, replace: s(&r) }, &x, &w.view(), want); }
fn h_c01t_between() { let w = W::new(H); let x = sym::over(0, 8, b"ab[]"); let (st, en) = (sym::over(1, 3, b"a["), sym::over(1, 3, b"a]")); let b = x.as_bytes();
    let want = find(b, st.as_bytes(), 0).and_then(|i| { let f = i + st.len(); find(b, en.as_bytes(), f).map(|j| b[f..j].to_vec()) });
    expect_mod(&StringModification::ExtractBetween { start: s(&st), end: s(&en) }, &x, &w.view(), want); }
}
