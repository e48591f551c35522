//! C12: conditions about, and mappers of, URL parts.
use crate::ctx::*;
use crate::c10::{Comp, letters, parse, path_of, segs, some_url};
/// A URL of known structure with arbitrary letters: (components, labels of the host).
fn letter_url() -> (Comp, Vec<String>) {
    let mut l: Vec<String> = (0..sym::choose(3)).map(|_| letters(1, 1)).collect(); for x in sym::pick(&[&["com"][..], &["co", "uk"]]) { l.push(x.to_string()); }
    let s = segs(1, 2); (Comp { scheme: "https".into(), user: String::new(), pass: None, host: Some(l.join(".") + sym::pick(&["", "."])), port: None, path: path_of(&s), query: sym::flip().then(|| letters(0, 2)), frag: sym::flip().then(|| letters(0, 1)) }, l)
}
fn holds(c: Condition, w: &W, want: Option<bool>) { let r = c.satisfied_by(&w.view()); sym::observe(match &r { Ok(x) => *x as u64, Err(_) => 2 }); match want { None => { sym::cover("error"); sym::check(r.is_err(), "errors-where-specified") } Some(b) => { sym::cover(if b { "true" } else { "false" }); sym::check(matches!(r, Ok(x) if x == b), "answer-exact") } } }
fn eqo(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => sym::same(a, b), _ => false } }
fn none() -> StringSource { StringSource::None }
fn opt_src(v: &Option<String>) -> StringSource { match v { Some(v) => s(v), None => none() } }
fn run(w: &mut W, m: &Mapper) -> bool { let ok = m.apply(&mut w.state()).is_ok(); sym::observe(ok as u64); sym::observe_bytes(w.url.as_str().as_bytes()); ok }
/// The mapper does what these steps do to the URL; if they fail, nothing at all.
fn like(c: &Comp, m: Mapper, steps: impl Fn(&mut BetterUrl) -> bool) {
    let mut w = W::new(&c.text()); let mut u = parse(c); let old = u.as_str().to_string(); let od = u.host_details(); let good = steps(&mut u); let ok = run(&mut w, &m);
    sym::check(ok == good, "succeeds-exactly-when-the-steps-do");
    if good { sym::cover("done"); sym::check(sym::same(w.url.as_str(), u.as_str()), "same-as-the-steps"); sym::check(w.url.host_details() == u.host_details(), "same-host-details"); }
    else { sym::cover("refused"); sym::check(sym::same(w.url.as_str(), &old), "unchanged-on-error"); sym::check(w.url.host_details() == od, "host-details-unchanged-on-error"); }
}
fn some_part() -> UrlPart {
    let i = || sym::pick(&[0, -1, 2]);
    match sym::choose(21) { 0 => UrlPart::Whole, 1 => UrlPart::Scheme, 2 => UrlPart::Username, 3 => UrlPart::Password, 4 => UrlPart::Host, 5 => UrlPart::Domain, 6 => UrlPart::Subdomain, 7 => UrlPart::DomainMiddle, 8 => UrlPart::DomainSuffix, 9 => UrlPart::RegDomain, 10 => UrlPart::NotDomainSuffix, 11 => UrlPart::FqdnPeriod, 12 => UrlPart::Port, 13 => UrlPart::Path, 14 => UrlPart::Query, 15 => UrlPart::Fragment, 16 => UrlPart::PathSegment(i()), 17 => UrlPart::NextPathSegment, 18 => UrlPart::SubdomainSegment(i()), 19 => UrlPart::HostWithoutWWWDotPrefixAndFqdnPeriod, _ => UrlPart::QueryParam(QueryParamSelector { name: "q".into(), index: 0 }) }
}
fn few_url() -> Comp { let (query, frag) = sym::pick(&[(None, Some("f")), (Some("q=1&r=2"), None), (Some("q"), Some(""))]); Comp { scheme: sym::pick(&["https", "foo"]).into(), user: sym::pick(&["", "u"]).into(), pass: None, host: Some(sym::pick(&["a.b.co.uk", "www.a.com.", "com", "1.2.3.4"]).into()), port: None, path: sym::pick(&["/", "/x/com"]).into(), query: query.map(Into::into), frag: frag.map(Into::into) } }
fn get(p: &UrlPart, u: &BetterUrl) -> Option<String> { p.get(u).map(|x| x.into_owned()) }
harnesses! {
    /// The host conditions compare exactly the part they name.
    fn h_c12_host_conditions() {
        let (c, l) = letter_url(); let w = W::new(&c.text()); let n = l.len(); let sl = if l.last().unwrap() == "uk" { 2 } else { 1 }; let fq = c.host.as_deref().unwrap().ends_with('.');
        let j = |a: usize, b: usize| l[a..b].join("."); let (dom, suf) = (Some(j(0, n)), Some(j(n - sl, n))); let has = n > sl; let reg = has.then(|| j(n - sl - 1, n)); let mid = has.then(|| j(n - sl - 1, n - sl)); let nds = has.then(|| j(0, n - sl)); let sub = (n > sl + 1).then(|| j(0, n - sl - 1));
        let v = match sym::choose(5) { 0 => None, 1 => Some(letters(1, 1)), 2 => Some(format!("{}.{}", letters(1, 1), sym::pick(&["com", "co.uk", "co.uk."]))), 3 => Some(format!("{}.{}", letters(1, 1), letters(1, 1))), _ => Some(sym::pick(&["com", "co.uk", "com.", "uk", ""]).to_string()) };
        type F = fn(Option<String>) -> Condition;
        let (f, part): (F, &Option<String>) = match sym::choose(7) { 0 => (|x| Condition::HostIs(x), &c.host), 1 => (|x| Condition::SubdomainIs(x), &sub), 2 => (|x| Condition::RegDomainIs(x), &reg), 3 => (|x| Condition::DomainIs(x), &dom), 4 => (|x| Condition::DomainMiddleIs(x), &mid), 5 => (|x| Condition::NotDomainSuffixIs(x), &nds), _ => (|x| Condition::DomainSuffixIs(x), &suf) };
        let want = eqo(part.as_deref(), v.as_deref()); holds(f(v), &w, Some(want));
        holds(Condition::HostIsFqdn, &w, Some(fq)); holds(Condition::HostIsDomain, &w, Some(true)); holds(Condition::HostIsIp, &w, Some(false)); holds(Condition::HostIsIpv4, &w, Some(false)); holds(Condition::HostIsIpv6, &w, Some(false)); holds(Condition::UrlHasHost, &w, Some(true));
    }
    fn h_c12_host_one_of() {
        sym::opaque_hash(); let (c, _) = letter_url(); let w = W::new(&c.text()); let k = sym::pick(&[&["a.com", "b.com", "a.b.com."][..], &["com", "a.co.uk", "co.uk."], &[]]); let h = c.host.clone().unwrap();
        holds(Condition::HostIsOneOf(set(k)), &w, Some(k.iter().any(|x| sym::same(x, &h))));
    }
    fn h_c12_host_kinds() {
        let (u, host, dom, ip, fq) = sym::pick(&[("https://a.b", true, true, false, false), ("https://a.b.", true, true, false, true), ("https://1.2.3.4", true, false, true, false), ("http://0x7f.1", true, false, true, false), ("https://[::1]", true, false, true, false), ("foo://1.2.3.4", true, true, false, false), ("foo:x", false, false, false, false), ("foo:/x", false, false, false, false), ("file:///x", false, false, false, false), ("mailto:a@b.c", false, false, false, false), ("https://1.2.3.4.", true, false, true, false)]);
        let w = W::new(u); holds(Condition::UrlHasHost, &w, Some(host)); holds(Condition::HostIsDomain, &w, Some(dom)); holds(Condition::HostIsIp, &w, Some(ip)); holds(Condition::HostIsIpv4, &w, Some(ip && !u.contains('['))); holds(Condition::HostIsIpv6, &w, Some(ip && u.contains('['))); holds(Condition::HostIsFqdn, &w, Some(fq));
        holds(Condition::HostIs(None), &w, Some(!host)); holds(Condition::DomainIs(None), &w, Some(!dom)); sym::opaque_hash(); holds(Condition::HostIsOneOf(set(&["a.b", ""])), &w, Some(u == "https://a.b"));
    }
    fn h_c12_path_is() { let (c, _) = letter_url(); let w = W::new(&c.text()); let v = sym::over(0, 4, b"/ab"); let want = sym::same(&v, &c.path); holds(Condition::PathIs(v), &w, Some(want)); }
    fn h_c12_part_conditions() {
        let (c, l) = letter_url(); let w = W::new(&c.text()); let host = c.host.as_deref().unwrap(); let bare = host.strip_suffix('.').unwrap_or(host);
        let (p, val) = match sym::choose(6) { 0 => (UrlPart::Host, c.host.clone()), 1 => (UrlPart::Path, Some(c.path.clone())), 2 => (UrlPart::Query, c.query.clone()), 3 => (UrlPart::Fragment, c.frag.clone()), 4 => (UrlPart::Port, None), _ => (UrlPart::Domain, Some(bare.to_string())) }; let _ = l;
        let v = match sym::choose(3) { 0 => None, 1 => Some(sym::over(0, 2, b"ab/.")), _ => Some(sym::pick(&["a.com", "/a/b", "c.co.uk."]).to_string()) };
        match sym::choose(4) {
            0 => holds(Condition::PartIs { part: p, value: opt_src(&v) }, &w, Some(eqo(val.as_deref(), v.as_deref()))),
            1 => { let want = match (&val, &v) { (Some(h), Some(n)) => Some(find(h.as_bytes(), n.as_bytes(), 0).is_some()), _ => None }; holds(Condition::PartContains { part: p, value: opt_src(&v), r#where: StringLocation::Anywhere }, &w, want) }
            2 => { let want = match (&val, &v) { (None, _) => None, (Some(h), Some(n)) => Some(sym::same(h, n)), (_, None) => None }; holds(Condition::PartMatches { part: p, matcher: StringMatcher::Is(opt_src(&v)) }, &w, want) }
            _ => { let want = match (&val, &v) { (Some(h), Some(n)) => Some(sym::same(h, n)), _ => None }; if let (Some(v), Some(_)) = (&v, &want) { let want = want; holds(Condition::PartMatches { part: p, matcher: StringMatcher::Any(vec![StringMatcher::Never, StringMatcher::Is(s(v))]) }, &w, want) } }
        }
    }
    fn h_c12_part_one_of() {
        sym::opaque_hash(); let (c, _) = letter_url(); let w = W::new(&c.text()); let k = sym::pick(&[&["a", "/b", ""][..], &["ab", "/a/b", "/"], &[]]);
        let (p, val) = match sym::choose(4) { 0 => (UrlPart::Path, Some(c.path.clone())), 1 => (UrlPart::Query, c.query.clone()), 2 => (UrlPart::Fragment, c.frag.clone()), _ => (UrlPart::Password, None) };
        holds(Condition::PartIsOneOf { part: p, values: set(k) }, &w, val.map(|v| k.iter().any(|x| sym::same(x, &v))));
    }
    fn h_c12_set_part() { let c = few_url(); let p = some_part(); let v = match sym::choose(4) { 0 => None, 1 => Some(letters(0, 1)), 2 => Some(format!("{}.com", letters(1, 1))), _ => Some(sym::pick(&["80", ".", "https://x/", "https", "a/b?c#d"]).to_string()) }; let q = p.clone(); like(&c, Mapper::SetPart { part: p, value: opt_src(&v) }, |u| q.set(u, v.as_deref()).is_ok()) }
    fn h_c12_copy_part() { let c = few_url(); let (a, b) = (some_part(), some_part()); let (x, y) = (a.clone(), b.clone()); like(&c, Mapper::CopyPart { from: a, to: b }, |u| { let v = get(&x, u); y.set(u, v.as_deref()).is_ok() }) }
    /// Moving is copying then clearing, and all or nothing.
    fn h_c12_move_part() { let c = few_url(); let (a, b) = (some_part(), some_part()); let (x, y) = (a.clone(), b.clone()); like(&c, Mapper::MovePart { from: a, to: b }, |u| { let v = get(&x, u); y.set(u, v.as_deref()).is_ok() && x.set(u, None).is_ok() }) }
    /// Modifying is reading, modifying, writing; an absent part is left alone; a failed modification changes nothing.
    fn h_c12_modify_part() {
        let c = few_url(); let p = some_part(); let q = p.clone(); let k = sym::choose(4); let t = letters(0, 1); let m = match k { 0 => StringModification::Append(s(&t)), 1 => StringModification::Set(s(&t)), 2 => StringModification::StripPrefix(s("a")), _ => StringModification::Error(String::new()) };
        let f = move |x: &str| match k { 0 => Some(format!("{x}{t}")), 1 => Some(t.clone()), 2 => x.strip_prefix('a').map(Into::into), _ => None };
        like(&c, Mapper::ModifyPart { part: p, modification: m }, |u| match get(&q, u) { None => true, Some(x) => match f(&x) { None => false, Some(y) => q.set(u, Some(&y)).is_ok() } })
    }
    fn h_c12_set_host() { let c = some_url(); let v = match sym::choose(5) { 0 => None, 1 => Some(letters(0, 2)), 2 => Some(format!("{}.{}.", letters(1, 1), letters(0, 1))), 3 => Some(sym::over(1, 2, b"a/:@[ %")), _ => Some(sym::pick(&["1.2.3.4", "[::2]", "É.com", "a b"]).to_string()) }; let q = v.clone(); like(&c, Mapper::SetHost(v), |u| UrlPart::Host.set(u, q.as_deref()).is_ok()) }
    /// Joining relative references.
    fn h_c12_join() {
        let (mut c, _) = letter_url(); c.path = sym::pick(&["/", "/a/b", "/a/"]).into(); let x = letters(1, 2); let dir = c.path[..c.path.rfind('/').unwrap() + 1].to_string(); let mut w = Comp { query: None, frag: None, ..c.clone() };
        let (with, ok) = match sym::choose(8) { 0 => { w.path = c.path.clone(); w.query = c.query.clone(); (String::new(), true) } 1 => { w.path = format!("{dir}{x}"); (x.clone(), true) } 2 => { w.path = format!("/{x}"); (w.path.clone(), true) } 3 => { w.query = Some(x.clone()); (format!("?{x}"), true) } 4 => { w.query = c.query.clone(); w.frag = Some(x.clone()); (format!("#{x}"), true) } 5 => { w.host = Some(x.clone()); w.path = "/".into(); (format!("//{x}"), true) } 6 => { w.path = format!("{}{x}", if c.path == "/a/" || c.path == "/a/b" { "/" } else { "/" }); (format!("../{x}"), true) } _ => ("https://".into(), false) };
        let mut t = W::new(&c.text()); let old = t.url.as_str().to_string(); let r = run(&mut t, &Mapper::Join(s(&with))); sym::check(r == ok, "succeeds-exactly-for-references"); if ok { sym::cover("done"); w.expect(&t.url); sym::check(t.url.host_details() == parse(&w).host_details(), "same-host-details"); } else { sym::cover("refused"); sym::check(sym::same(t.url.as_str(), &old), "unchanged-on-error"); }
    }
    fn h_c12_join_none() { let c = few_url(); like(&c, Mapper::Join(none()), |_| false); }
}
