//! C11: query parameters.
use crate::ctx::*;
use crate::c10::Comp;
const D: u8 = 6;
type P = (Vec<u8>, Vec<u8>);
fn hex(b: u8) -> Option<u8> { match b { b'0'..=b'9' => Some(b - b'0'), b'a'..=b'f' => Some(b - b'a' + 10), b'A'..=b'F' => Some(b - b'A' + 10), _ => None } }
/// `+` is a space, `%XX` a byte (only ASCII results here).
fn unescape(x: &[u8]) -> Vec<u8> { let mut r = vec![]; let mut i = 0; while i < x.len() { if x[i] == b'+' { r.push(b' '); i += 1; continue; } if x[i] == b'%' && i + 2 < x.len() { if let (Some(a), Some(b)) = (hex(x[i + 1]), hex(x[i + 2])) { r.push(a * 16 + b); i += 3; continue; } } r.push(x[i]); i += 1; } r }
/// The parameters of a query: between `&`, non-empty, name up to the first `=`.
fn pairs(q: &[u8]) -> Vec<P> { split(q, b"&").into_iter().filter(|x| !x.is_empty()).map(|x| match find(&x, b"=", 0) { Some(i) => (unescape(&x[..i]), unescape(&x[i + 1..])), None => (unescape(&x), vec![]) }).collect() }
fn now(u: &BetterUrl) -> Vec<P> { match u.query() { None => vec![], Some(q) => pairs(q.as_bytes()) } }
fn eq(a: &[P], b: &[P]) -> bool { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r &= sym::same_bytes(&a[i].0, &b[i].0) & sym::same_bytes(&a[i].1, &b[i].1); } r }
fn is(a: &[u8], b: &str) -> bool { sym::same_bytes(a, b.as_bytes()) }
/// A query text: none, or a mixture of arbitrary bytes of a small alphabet and fixed pieces.
fn query(n: u8) -> Option<String> { match sym::choose(5) { 0 => None, 1 => Some(sym::over(0, n, b"a=&")), 2 => Some(sym::over(0, n - 1, b"a=&+b")), 3 => Some(format!("{}{}", sym::pick(&["%61", "%2B=%26&", "a=%3D&", "a=1&b=2&a=3&", "%6"]), sym::over(0, n - 2, b"a&=1"))), _ => Some(sym::pick(&["b=1&a=2&c=3&a=4&&a", "a&b&a&b", "=&=a", "A=1&a=2", "aa=1&a=1", "+a=1&a+=2", "%20=a b", "a=1&b=2&a=3&b=4&a=5&b=6&c=7&a=8&b=9", "%C3%A9=%E2%82%AC&a=%F0%9F%98%80&b=\u{e9}", "a=1&&b==2&a==&=b=&&"]).into()) } }
fn world(q: Option<String>) -> (W, Comp) { let c = Comp { scheme: "https".into(), user: "u".into(), pass: None, host: Some("h.com".into()), port: None, path: "/p".into(), query: q, frag: Some("f".into()) }; let w = W::new(&c.text()); let c = Comp::of(&w.url); (w, c) }
/// Everything but the query is as it was.
fn rest(c: &Comp, u: &BetterUrl) { let w = Comp { query: u.query().map(Into::into), ..c.clone() }; w.expect(u); }
fn run(w: &mut W, m: Mapper) -> bool { let old = w.url.as_str().to_string(); let ok = m.apply(&mut w.state()).is_ok(); sym::observe(ok as u64); sym::observe_bytes(w.url.as_str().as_bytes()); if !ok { sym::check(sym::same(w.url.as_str(), &old), "unchanged-on-error"); } ok }
fn filtered(m: Mapper, q: Option<String>, keep: impl Fn(&[u8]) -> bool) {
    let had = q.is_some(); let (mut w, c) = world(q); let before = now(&w.url); let want: Vec<P> = before.iter().filter(|p| keep(&p.0)).cloned().collect();
    let ok = run(&mut w, m); sym::check(ok, "succeeds"); let after = now(&w.url);
    sym::check(eq(&after, &want), "exactly-the-others-in-order"); if want.is_empty() { sym::cover("none-left"); sym::check(w.url.query().is_none(), "empty-query-removed"); } else { sym::cover("some-left"); }
    if !had { sym::check(w.url.query().is_none(), "no-query-stays-no-query"); } if want.len() < before.len() { sym::cover("removed"); }
    rest(&c, &w.url);
}
fn not_a(x: &str, _: &TaskStateView) -> Result<bool, StringMatcherError> { if sym::same(x, "b") { Err(StringMatcherError::ExplicitError(String::new())) } else { Ok(sym::same(x, "a")) } }
harnesses! {
    fn h_c11_remove_query() { let (mut w, c) = world(query(D)); let ok = run(&mut w, Mapper::RemoveQuery); sym::check(ok, "succeeds"); sym::check(w.url.query().is_none(), "removed"); rest(&c, &w.url); sym::cover("removed"); }
    fn h_c11_remove_param() { let n = sym::pick(&["a", "", "b", "+", "é"]); filtered(Mapper::RemoveQueryParam(s(n)), query(D), |x| !is(x, n)) }
    fn h_c11_remove_allow_params() {
        sym::opaque_hash(); let (k, allow) = (sym::pick(&[&["a", "b"][..], &["a"], &["", "a a"], &[]]), sym::flip());
        filtered(if allow { Mapper::AllowQueryParams(set(k)) } else { Mapper::RemoveQueryParams(set(k)) }, query(D), |x| k.iter().any(|n| is(x, n)) == allow)
    }
    fn h_c11_remove_allow_matching() {
        let (allow, n) = (sym::flip(), sym::pick(&["a", "b", ""])); let m = StringMatcher::Is(s(n));
        filtered(if allow { Mapper::AllowQueryParamsMatching(m) } else { Mapper::RemoveQueryParamsMatching(m) }, query(D), |x| is(x, n) == allow)
    }
    /// A matcher that fails on one of the names fails the whole step and changes nothing.
    fn h_c11_matching_errors() {
        let allow = sym::flip(); let (mut w, c) = world(query(D)); let before = now(&w.url); let err = before.iter().any(|p| is(&p.0, "b")); let want: Vec<P> = before.into_iter().filter(|p| is(&p.0, "a") == allow).collect();
        let m = StringMatcher::Custom(not_a); let ok = run(&mut w, if allow { Mapper::AllowQueryParamsMatching(m) } else { Mapper::RemoveQueryParamsMatching(m) });
        sym::check(ok == !err, "error-exactly-when-the-matcher-errs"); if ok { sym::cover("ok"); sym::check(eq(&now(&w.url), &want), "exactly-the-others-in-order"); } else { sym::cover("error"); } rest(&c, &w.url);
    }
    /// Names that are absent are errors, and nothing happens.
    fn h_c11_none_name() {
        let (mut w, _) = world(Some(sym::over(1, 3, b"a=&"))); let old = w.url.as_str().to_string(); let none = StringSource::NoneTo { value: Box::new(StringSource::None), if_none: Box::new(StringSource::None) };
        let m = match sym::choose(2) { 0 => Mapper::RemoveQueryParam(none), _ => Mapper::GetUrlFromQueryParam(none) };
        sym::check(!run(&mut w, m), "refused"); sym::check(sym::same(w.url.as_str(), &old), "unchanged"); sym::cover("refused");
    }
    /// The n-th value of a name, for every 64-bit n; and whether a name occurs.
    fn h_c11_select() {
        let q = query(D); let (w, _) = world(q); let b = now(&w.url); let n = sym::pick(&["a", "b", ""]); let i = { let i = index(5); i as usize };
        let all: Vec<(usize, &P)> = b.iter().enumerate().filter(|(_, p)| is(&p.0, n)).collect(); let want = all.get(i);
        let sel = QueryParamSelector { name: n.into(), index: i };
        let g = UrlPart::QueryParam(sel.clone()).get(&w.url); let gi = sel.get_with_index(&w.url);
        match (want, &g, &gi) { (None, None, None) => sym::cover("none"), (Some((k, p)), Some(g), Some((gk, gv))) => { sym::cover("some"); sym::check(sym::same_bytes(g.as_bytes(), &p.1), "value-exact"); sym::check(sym::same_bytes(gv.as_bytes(), &p.1) & (*gk == *k), "index-exact"); } _ => sym::check(false, "present-exactly-when-selected") }
        let has = Condition::QueryHasParam(n.into()).satisfied_by(&w.view()); sym::check(matches!(has, Ok(x) if x == !all.is_empty()), "query-has-param-exact");
    }
    /// Setting the n-th value: replaced, removed, appended, or refused.
    fn h_c11_set_selected() { set_selected(4) }
    fn h_c11t_set_selected() { set_selected(6) }
    fn h_c11t_remove_param() { let n = sym::pick(&["a", "é"]); filtered(Mapper::RemoveQueryParam(s(n)), query(8), |x| is(x, n)) }
    fn h_c11t_remove_allow_matching() { let (allow, n) = (sym::flip(), "a"); let m = StringMatcher::Is(s(n)); filtered(if allow { Mapper::AllowQueryParamsMatching(m) } else { Mapper::RemoveQueryParamsMatching(m) }, query(7), |x| is(x, n) == allow) }
    /// The new URL is the first parameter of that name.
    fn h_c11_url_from_param() {
        let inner = sym::pick(&["http://a/", "https%3A%2F%2Fb.c%2Fx%3Fy", "x", "", "foo:+"]); let q = match sym::choose(5) { 0 => format!("r={inner}&r=http://z/"), 1 => format!("{}={inner}", sym::over(0, 2, b"rR%")), 2 => format!("a=1&r={inner}"), 3 => "r".into(), _ => format!("r=http://z/&r={inner}") };
        let (mut w, _) = world(Some(q)); let b = now(&w.url); let want = b.iter().find(|p| is(&p.0, "r")).map(|p| String::from_utf8(p.1.clone()).unwrap()).and_then(|t| BetterUrl::parse(&t).ok());
        let ok = run(&mut w, Mapper::GetUrlFromQueryParam(s("r"))); sym::check(ok == want.is_some(), "succeeds-exactly-when-a-url");
        if ok { sym::cover("set"); if let Some(u) = &want { sym::check(sym::same(u.as_str(), w.url.as_str()), "url-exact"); sym::check(u.host_details() == w.url.host_details(), "host-details-fresh"); } } else { sym::cover("refused"); }
    }
    /// The string modifications keep the raw text of the kept parameters.
    fn h_c11_string_filter() {
        let w = W::new("https://a/"); let x = match sym::choose(2) { 0 => sym::over(0, 7, b"a=&"), _ => sym::over(0, 5, b"a=&b+") }; let allow = sym::flip();
        let mut err = false; let mut r = vec![]; for p in split(x.as_bytes(), b"&") { let n = split(&p, b"=")[0].clone(); if is(&n, "b") { err = true; } if is(&n, "a") == allow { r.push(p); } }
        let m = Box::new(StringMatcher::Custom(not_a)); let m = if allow { StringModification::AllowQueryParamsMatching(m) } else { StringModification::RemoveQueryParamsMatching(m) };
        expect_mod(&m, &x, &w.view(), if err { None } else { Some(join(&r, b"&")) });
    }
}
fn set_selected(n: u8) {
        let q = query(n); let (mut w, c) = world(q); let mut b = now(&w.url); let nm = sym::pick(&["a", "b", "c d"]); let i = { let i = index(4); i as usize }; let to = sym::flip().then(|| sym::over(0, 1, b"x &=+%"));
        let all: Vec<usize> = b.iter().enumerate().filter(|(_, p)| is(&p.0, nm)).map(|x| x.0).collect(); let mut err = false; let mut same = false;
        match (all.get(i), &to) { (Some(k), Some(t)) => b[*k].1 = t.as_bytes().to_vec(), (Some(k), None) => { b.remove(*k); } (None, Some(t)) => if i == all.len() { b.push((nm.as_bytes().to_vec(), t.as_bytes().to_vec())) } else { err = true }, (None, None) => same = true }
        let old = w.url.as_str().to_string(); let ok = UrlPart::QueryParam(QueryParamSelector { name: nm.into(), index: i }).set(&mut w.url, to.as_deref()).is_ok(); sym::observe(ok as u64); sym::observe_bytes(w.url.as_str().as_bytes());
        sym::check(ok == !err, "refused-exactly-beyond-the-end"); if !ok { sym::cover("refused"); sym::check(sym::same(w.url.as_str(), &old), "unchanged-on-error"); } else { sym::cover(if same { "nothing-to-remove" } else { "set" }); sym::check(eq(&now(&w.url), &b), "parameters-exact"); if b.is_empty() { sym::check(w.url.query().is_none(), "empty-query-removed"); } rest(&c, &w.url); }
}
