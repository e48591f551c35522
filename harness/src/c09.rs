//! C09: hosts, their cached structure, and the host-changing operations.
use crate::ctx::*;
const LABELS: [&str; 7] = ["a", "www", "com", "co", "uk", "ck", "1"];
/// A label: one of the fixed ones, or one arbitrary letter of a..=e.
fn label() -> String { match sym::choose(7) { 0 => sym::over_n(1, b"abcde"), i => LABELS[i].to_string() } }
fn labels(min: u8, max: u8) -> Vec<String> { let n = min as usize + sym::choose(max - min + 1); (0..n).map(|_| label()).collect() }
fn numeric(l: &str) -> bool { l == "1" }
/// The number of labels of the public suffix, from the list's rules *, com, uk, co.uk, *.ck, !www.ck, uk.com, co.com, co, com.co.
fn suffix_len(l: &[String]) -> usize {
    let n = l.len(); if n < 2 { return n.min(1); }
    let (a, b) = (&*l[n - 2], &*l[n - 1]);
    match b { "uk" if a == "co" => 2, "ck" if a == "www" => 1, "ck" => 2, "com" if a == "uk" || a == "co" => 2, "co" if a == "com" => 2, _ => 1 }
}
/// What the parts of a domain must be.
struct Parts { domain: String, sub: Option<String>, middle: Option<String>, reg: Option<String>, nds: Option<String>, suffix: Option<String> }
fn parts(l: &[String]) -> Parts {
    let n = l.len(); let s = suffix_len(l); let j = |a: usize, b: usize| l[a..b].join(".");
    Parts { domain: j(0, n), suffix: Some(j(n - s, n)), middle: (n > s).then(|| j(n - s - 1, n - s)), reg: (n > s).then(|| j(n - s - 1, n)), nds: (n > s).then(|| j(0, n - s)), sub: (n > s + 1).then(|| j(0, n - s - 1)) }
}
fn is(g: Option<&str>, w: &Option<String>) -> bool { sym::same_opt(g, w.as_deref()) }
fn check_parts(u: &BetterUrl, l: &[String], fqdn: bool) {
    let p = parts(l);
    sym::check(is(u.domain(), &Some(p.domain)), "domain-exact"); sym::check(is(u.subdomain(), &p.sub), "subdomain-exact"); sym::check(is(u.domain_middle(), &p.middle), "domain-middle-exact"); sym::check(is(u.reg_domain(), &p.reg), "reg-domain-exact");
    sym::check(is(u.not_domain_suffix(), &p.nds), "not-domain-suffix-exact"); sym::check(is(u.domain_suffix(), &p.suffix), "domain-suffix-exact"); sym::check(u.fqdn_period() == fqdn.then_some("."), "fqdn-period-exact");
}
/// The cached details are those of the URL as it reads.
fn consistent(u: &BetterUrl) {
    let host = u.host(); let want = host.map(|h| match h { url::Host::Domain(d) => HostDetails::from_domain_str_unchecked(d), url::Host::Ipv4(a) => HostDetails::from_ipv4_addr(a), url::Host::Ipv6(a) => HostDetails::from_ipv6_addr(a) }); sym::check(u.host_details() == want, "host-details-fresh");
    sym::check(u.host_details().is_some() == u.host_str().is_some(), "details-iff-host");
}
/// Reading the URL's text back gives the same URL.
fn reads_back(u: &BetterUrl) { match BetterUrl::parse(u.as_str()) { Ok(f) => { sym::check(sym::same(f.as_str(), u.as_str()), "reads-back"); sym::check(f.host_details() == u.host_details(), "reads-back-details"); } Err(_) => sym::check(false, "still-a-url") } }
fn unchanged(u: &BetterUrl, old: &BetterUrl) { sym::check(u.as_str() == old.as_str() && u.host_details() == old.host_details(), "unchanged-on-error"); }
fn host_url(l: &[String], fqdn: bool) -> Option<BetterUrl> { BetterUrl::parse(&["https://", &l.join("."), if fqdn { "." } else { "" }, "/p?q#f"].concat()).ok() }
const OPS: u8 = 8;
fn op(i: usize, u: &mut BetterUrl, v: Option<&str>) -> bool { match i {
    0 => UrlPart::Domain.set(u, v), 1 => UrlPart::Subdomain.set(u, v), 2 => UrlPart::RegDomain.set(u, v), 3 => UrlPart::NotDomainSuffix.set(u, v), 4 => UrlPart::DomainMiddle.set(u, v), 5 => UrlPart::DomainSuffix.set(u, v), 6 => UrlPart::FqdnPeriod.set(u, v), _ => UrlPart::Host.set(u, v) }.is_ok() }
/// The labels after the operation; `Err(true)`: must fail, `Err(false)`: no claim about success.
fn expected(i: usize, l: &[String], v: Option<&[String]>) -> Result<Vec<String>, bool> {
    let n = l.len(); let s = suffix_len(l); let some = |x: &[String], y: &[String], z: &[String]| -> Result<Vec<String>, bool> { let mut r = x.to_vec(); r.extend_from_slice(y); r.extend_from_slice(z); if r.is_empty() { Err(true) } else { Ok(r) } };
    let (sub, reg, nds, suf) = (if n > s { &l[..n - s - 1] } else { &l[..0] }, if n > s { &l[n - s - 1..] } else { &l[..0] }, if n > s { &l[..n - s] } else { &l[..0] }, &l[n - s..]);
    let e: &[String] = &[]; let w = v.unwrap_or(e);
    match i { 0 => if v.is_none() { Err(true) } else { some(w, e, e) }, 1 => if reg.is_empty() { Err(v.is_some()) } else { some(w, reg, e) }, 2 => some(sub, w, e), 3 => some(w, suf, e), 4 => some(sub, w, suf), _ => some(nds, w, e) }
}
fn setter(ops: core::ops::Range<u8>, max: u8, vmax: u8) {
    let i = ops.start as usize + sym::choose(ops.end - ops.start); let l = labels(1, max); let fqdn = sym::flip(); if l.iter().last().is_some_and(|x| numeric(x)) { return; }
    let Some(mut u) = host_url(&l, fqdn) else { sym::check(false, "parses"); return };
    let v = if sym::flip() { Some(labels(1, vmax)) } else { None }; let text = v.as_ref().map(|v| v.join("."));
    let old = u.clone(); let ok = op(i, &mut u, text.as_deref()); sym::observe(ok as u64); sym::observe_bytes(u.as_str().as_bytes());
    consistent(&u); reads_back(&u); if !ok { unchanged(&u, &old); }
    match expected(i, &l, v.as_deref()) {
        Ok(e) if !e.last().is_some_and(|x| numeric(x)) => { sym::cover("set"); sym::check(ok, "succeeds"); if ok { check_parts(&u, &e, fqdn); let h = [e.join("."), if fqdn { ".".into() } else { String::new() }].concat(); sym::check(is(u.host_str(), &Some(h.clone())), "host-exact"); sym::check(sym::same(u.as_str(), &["https://", &h, "/p?q#f"].concat()), "rest-of-url-untouched"); } }
        Ok(_) => { sym::cover("number"); sym::check(!ok, "never-becomes-an-address"); }
        Err(true) if !fqdn || i == 0 => { sym::cover("refused"); sym::check(!ok, "refused"); }
        Err(_) => sym::cover("no-claim"),
    }
}
const BASES: [&str; 10] = ["https://1.2.3.4/p", "https://[::1]/p", "foo://A.b.com/p", "foo://a.b.com./p", "file:///p", "file://a.com/p", "mailto:a@b.com", "foo:/p", "https://a.1../", "https://./p"];
const VALUES: [Option<&str>; 13] = [None, Some(""), Some("."), Some("b.com"), Some("é.com"), Some("%41.com"), Some("A.com."), Some("1.2.3.4"), Some("[::1]"), Some("localhost"), Some("a b"), Some("a:1"), Some("a..b")];
fn odd_op(i: usize, u: &mut BetterUrl, v: Option<&str>) -> bool { match i { 0..8 => op(i, u, v), 8 => UrlPart::FqdnPeriod.set(u, Some(".")).is_ok(), 9 => u.set_fqdn(v.is_some()).is_ok(), 10 => UrlPart::HostWithoutWWWDotPrefixAndFqdnPeriod.set(u, v).is_ok(), 11 => u.set_ip_host(std::net::IpAddr::V4(std::net::Ipv4Addr::new(10, 0, 0, 1))).is_ok(), 12 => UrlPart::DomainSegment(0).set(u, v).is_ok(), 13 => UrlPart::NextSubdomainSegment.set(u, v).is_ok(), 14 => u.set_domain_host(v.unwrap_or("")).is_ok(), _ => UrlPart::BeforeDomainSuffixSegment(-1).set(u, v).is_ok() } }
fn odd(steps: usize) {
    let b = sym::pick(&BASES); let Ok(mut u) = BetterUrl::parse(b) else { sym::check(false, "base-parses"); return }; consistent(&u);
    for _ in 0..steps { let old = u.clone(); let i = sym::choose(16); let v = sym::pick(&VALUES); let ok = odd_op(i, &mut u, v); if ok && i == 11 { sym::check(u.host_str() == Some("10.0.0.1"), "sets-the-address"); } if ok && i == 14 { sym::check(u.host_details().is_some_and(|h| matches!(h, HostDetails::Domain(_))), "sets-a-domain"); } sym::cover(if ok { "ok" } else { "refused" }); sym::observe(ok as u64); sym::observe_bytes(u.as_str().as_bytes()); consistent(&u); if !ok { unchanged(&u, &old); } }
}
harnesses! {
fn h_c09_domains() { let l = labels(1, 4); let fqdn = sym::flip(); match host_url(&l, fqdn) { Some(u) => { sym::observe_bytes(u.as_str().as_bytes()); consistent(&u); reads_back(&u);
    if l.iter().last().is_some_and(|x| numeric(x)) { sym::cover("address"); sym::check(l.iter().all(|x| numeric(x)), "numeric-is-address"); sym::check(u.ipv4_details().is_some() && u.domain().is_none() && u.subdomain().is_none() && u.reg_domain().is_none() && u.domain_suffix().is_none() && u.domain_middle().is_none() && u.not_domain_suffix().is_none() && u.fqdn_period().is_none(), "address-has-no-domain-parts"); }
    else { sym::cover("domain"); check_parts(&u, &l, fqdn); } }
    None => { sym::cover("not-a-host"); sym::check(l.iter().last().is_some_and(|x| numeric(x)), "parses"); } } }
fn h_c09_whole_parts() { setter(0..3, 3, 2) }
fn h_c09_inner_parts() { setter(3..6, 3, 2) }
fn h_c09_fqdn() { let l = labels(1, 3); let fqdn = sym::flip(); if l.iter().last().is_some_and(|x| numeric(x)) { return; } let Some(mut u) = host_url(&l, fqdn) else { return }; let on = sym::flip(); let ok = if sym::flip() { u.set_fqdn(on).is_ok() } else { UrlPart::FqdnPeriod.set(&mut u, on.then_some(".")).is_ok() }; sym::cover("fqdn"); sym::observe_bytes(u.as_str().as_bytes()); sym::check(ok, "succeeds"); consistent(&u); check_parts(&u, &l, on); }
/// Arbitrary short hosts.
fn h_c09_any_host() { let h = sym::over(1, 4, b"a1.-Cx%"); match BetterUrl::parse(&["https://", &h, "/"].concat()) { Ok(mut u) => { sym::cover("ok"); sym::observe_bytes(u.as_str().as_bytes()); consistent(&u); reads_back(&u); let old = u.clone(); let on = sym::flip(); let ok = u.set_fqdn(on).is_ok(); sym::observe(ok as u64); consistent(&u); if !ok { unchanged(&u, &old); } else { sym::check(!on || u.fqdn_period().is_some(), "fqdn-set"); } } Err(_) => sym::cover("err") } }
/// Hosts of schemes the URL standard knows nothing about are opaque: no number in them is an address.
fn h_c09_opaque() { let h = sym::over(1, 3, b"a10.-x"); let Ok(mut u) = BetterUrl::parse(&["foo://", &h, "/p"].concat()) else { sym::cover("err"); return }; sym::cover("ok"); consistent(&u); sym::check(sym::same_opt(u.host_str(), Some(&h)), "reads-as-written"); sym::observe_bytes(u.as_str().as_bytes());
    let old = u.clone(); let new = match sym::choose(4) { 0 => None, 1 => Some("1"), 2 => Some("0x1.2"), _ => Some("b.co.uk") }; let ok = if sym::flip() { u.set_host(new).is_ok() } else { UrlPart::Host.set(&mut u, new).is_ok() }; sym::observe(ok as u64); consistent(&u); if ok { sym::cover("set"); sym::check(sym::same_opt(u.host_str().filter(|x| !x.is_empty()), new), "reads-back"); } else { unchanged(&u, &old); } }
/// A subdomain of empty labels is not the absence of one.
fn h_c09_empty_labels() { let l = ["https://", ["", "w.", ".", "w.w."][sym::choose(4)], ["a.com", "b.co.uk"][sym::choose(2)], ["", "."][sym::choose(2)], "/p?q#f"].concat(); let Ok(mut u) = BetterUrl::parse(&l) else { sym::check(false, "parses"); return }; let old = u.clone(); let v = sym::over(0, 3, b"x."); let ok = if sym::flip() { u.set_subdomain(Some(&v)).is_ok() } else { UrlPart::Subdomain.set(&mut u, Some(&v)).is_ok() };
    sym::observe(ok as u64); sym::observe_bytes(u.as_str().as_bytes()); consistent(&u); reads_back(&u); if !ok { sym::cover("refused"); unchanged(&u, &old); return; } sym::cover("set"); sym::check(sym::same_opt(u.subdomain(), Some(&v)), "reading-back-gives-what-was-set"); sym::check(u.reg_domain() == old.reg_domain() && u.domain_suffix() == old.domain_suffix() && u.fqdn_period() == old.fqdn_period() && u.path() == old.path(), "others-untouched"); }
fn h_c09_odd() { odd(1) }
fn h_c09t_odd_twice() { odd(2) }
fn h_c09t_whole_parts() { setter(0..3, 4, 3) }
fn h_c09t_inner_parts() { setter(3..6, 4, 3) }
}
