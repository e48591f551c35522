//! C02: modifications of delimiter-separated segments behave like list operations.
use crate::ctx::*;
const H: &str = "https://example.com/";
type M = StringModification;
fn vals() -> (Option<String>, StringSource) { let n = sym::choose(4); if n == 3 { (None, StringSource::None) } else { let v = sym::over_n(n, b"b-x"); (Some(v.clone()), StringSource::String(v)) } }
fn ops(x: &str, sep: &str, i: isize, w: &W) {
    let v = w.view(); let l = split(x.as_bytes(), sep.as_bytes()); let n = l.len(); let q = sep.as_bytes();
    match sym::choose(4) {
        0 => expect_mod(&M::KeepNthSegment { split: s(sep), index: i }, x, &v, idx(i, n).map(|k| l[k].clone())),
        1 => { let (val, src) = vals(); let want = idx(i, n).map(|k| { let mut l = l.clone(); match &val { Some(t) => l[k] = t.clone().into_bytes(), None => { l.remove(k); } } join(&l, q) }); expect_mod(&M::SetSegment { split: s(sep), index: i, value: src }, x, &v, want) }
        2 => { let (val, src) = vals(); let want = bound(i, n).map(|k| { let mut l = l.clone(); if let Some(t) = &val { l.insert(k, t.clone().into_bytes()); } join(&l, q) }); expect_mod(&M::InsertSegment { split: s(sep), index: i, value: src }, x, &v, want) }
        _ => { let e = opt_index(4); let want = range(i, e, n).map(|(a, b)| join(&l[a..b], q)); expect_mod(&M::KeepSegmentRange { split: s(sep), start: i, end: e }, x, &v, want) }
    }
}
harnesses! {
fn h_c02_single() { let w = W::new(H); let x = sym::over(0, 3, b"-ab"); ops(&x, "-", index(4), &w); }
fn h_c02_multi() { let w = W::new(H); let x = sym::over(0, 4, b"-=a"); let sep = sym::over(2, 2, b"-="); ops(&x, &sep, index(3), &w); }
fn h_c02_unicode() { let w = W::new(H); let mut x = String::new(); for _ in 0..sym::choose(4) { x.push_str(sym::pick(&["\u{e9}", "\u{3b1}", "a", "\u{10348}"])); } ops(&x, sym::pick(&["\u{e9}", "\u{10348}"]), index(4), &w); }
fn h_c02_many() { let w = W::new(H); let n = sym::choose(20); let mut x = String::new(); for i in 0..n { if i > 0 { x.push_str(", "); } let t = sym::over_n(1, b"abcd"); x.push_str(&t); } ops(&x, ", ", index(21), &w); }
/// A failing or absent delimiter or value: error, string untouched.
fn h_c02_absent() { let w = W::new(H); let v = w.view(); let x = sym::over(0, 3, b"-a"); let e = sym::flip(); let g = || if e { StringSource::Error("e".into()) } else { StringSource::None };
    let m = match sym::choose(6) { 0 => M::KeepNthSegment { split: g(), index: 0 }, 1 => M::SetSegment { split: g(), index: 0, value: s("v") }, 2 => M::InsertSegment { split: g(), index: 0, value: s("v") }, 3 => M::KeepSegmentRange { split: g(), start: 0, end: None },
        4 => M::SetSegment { split: s("-"), index: 0, value: StringSource::Error("e".into()) }, _ => M::InsertSegment { split: s("-"), index: 0, value: StringSource::Error("e".into()) } };
    expect_mod(&m, &x, &v, None); }
/// An empty delimiter never panics, and keeping everything gives everything back.
fn h_c02_empty_delimiter() { let w = W::new(H); let v = w.view(); let x = sym::text(3, 2); let i = index(6);
    let (ok, t) = apply(&M::KeepSegmentRange { split: s(""), start: 0, end: None }, &x, &v); sym::check(ok && sym::same(&t, &x), "keep-all-is-identity");
    match sym::choose(3) { 0 => { apply(&M::KeepNthSegment { split: s(""), index: i }, &x, &v); } 1 => { apply(&M::SetSegment { split: s(""), index: i, value: s("q") }, &x, &v); } _ => { apply(&M::InsertSegment { split: s(""), index: i, value: s("q") }, &x, &v); } } sym::cover("no-panic"); }
/// Insert then remove is the identity; set then get returns what was set.
fn h_c02_laws() { let w = W::new(H); let v = w.view(); let x = sym::over(0, 4, b"-ab"); let val = sym::over(0, 2, b"xy"); let i = index(4);
    let (ok, t) = apply(&M::InsertSegment { split: s("-"), index: i, value: s(&val) }, &x, &v);
    if ok { let k = if i < 0 { split(x.as_bytes(), b"-").len() as isize + i } else { i }; let (ok2, u) = apply(&M::SetSegment { split: s("-"), index: k, value: StringSource::None }, &t, &v); sym::cover("insert"); sym::check(ok2 && sym::same(&u, &x), "insert-remove-identity");
        let (ok3, g) = apply(&M::KeepNthSegment { split: s("-"), index: k }, &t, &v); sym::check(ok3 && sym::same(&g, &val), "inserted-segment-readable"); }
    let (ok, t) = apply(&M::SetSegment { split: s("-"), index: i, value: s(&val) }, &x, &v);
    if ok { sym::cover("set"); let (ok2, g) = apply(&M::KeepNthSegment { split: s("-"), index: i }, &t, &v); sym::check(ok2 && sym::same(&g, &val), "set-get"); } }
fn h_c02t_single() { let w = W::new(H); let x = sym::over(0, 6, b"-ab"); ops(&x, "-", index(7), &w); }
fn h_c02t_multi() { let w = W::new(H); let x = sym::over(0, 7, b"-=a"); let sep = sym::over(2, 3, b"-="); ops(&x, &sep, index(5), &w); }
}
