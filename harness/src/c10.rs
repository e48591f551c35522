//! C10: reading and writing the parts of a URL.
use crate::ctx::*;
/// What a URL consists of.
#[derive(Clone)]
pub struct Comp { pub scheme: String, pub user: String, pub pass: Option<String>, pub host: Option<String>, pub port: Option<u16>, pub path: String, pub query: Option<String>, pub frag: Option<String> }
impl Comp {
    pub fn of(u: &BetterUrl) -> Comp { Comp { scheme: u.scheme().into(), user: u.username().into(), pass: u.password().map(Into::into), host: u.host_str().map(Into::into), port: u.port(), path: u.path().into(), query: u.query().map(Into::into), frag: u.fragment().map(Into::into) } }
    /// The text of the URL with these components.
    pub fn text(&self) -> String {
        let mut r = format!("{}:", self.scheme);
        if let Some(h) = &self.host {
            r += "//"; r += &self.user; if let Some(p) = &self.pass { r += ":"; r += p; } if !self.user.is_empty() || self.pass.is_some() { r += "@"; }
            r += h; if let Some(p) = self.port { r += &format!(":{p}"); }
        }
        r += &self.path; if let Some(q) = &self.query { r += "?"; r += q; } if let Some(f) = &self.frag { r += "#"; r += f; } r
    }
    /// The components say exactly what the URL says.
    pub fn expect(&self, u: &BetterUrl) {
        sym::check(sym::same(u.scheme(), &self.scheme), "scheme"); sym::check(sym::same(u.username(), &self.user), "username"); sym::check(sym::same_opt(u.password(), self.pass.as_deref()), "password"); sym::check(sym::same_opt(u.host_str(), self.host.as_deref()), "host");
        sym::check(u.port() == self.port, "port"); sym::check(sym::same(u.path(), &self.path), "path"); sym::check(sym::same_opt(u.query(), self.query.as_deref()), "query"); sym::check(sym::same_opt(u.fragment(), self.frag.as_deref()), "fragment");
        sym::check(sym::same(u.as_str(), &self.text()), "text");
    }
}
pub fn letters(min: u8, max: u8) -> String { sym::over(min, max, b"abc") }
fn opt_letters(max: u8) -> Option<String> { sym::flip().then(|| letters(0, max)) }
pub fn segs(min: u8, max: u8) -> Vec<String> { let n = min as usize + sym::choose(max - min + 1); (0..n).map(|_| letters(0, 1)).collect() }
pub fn path_of(s: &[String]) -> String { let mut r = String::new(); for x in s { r += "/"; r += x; } r }
/// A URL with a host; optional components vary.
pub fn some_url() -> Comp {
    let (user, pass) = match sym::choose(4) { 0 => (String::new(), None), 1 => ("u".into(), None), 2 => ("u".into(), Some("p".to_string())), _ => (String::new(), Some("p".into())) };
    let (query, frag) = match sym::choose(4) { 0 => (None, None), 1 => (Some("q=1".to_string()), None), 2 => (Some(String::new()), Some("f".to_string())), _ => (None, Some(String::new())) };
    Comp { scheme: sym::pick(&["https", "http", "foo"]).into(), user, pass, host: Some(sym::pick(&["a.b.co.uk", "www.www.com.", "com", "1.2.3.4", "[::1]"]).into()), port: sym::pick(&[None, Some(8080)]), path: sym::pick(&["/", "/x/y", "//"]).into(), query, frag }
}
fn plain_url() -> Comp { Comp { scheme: sym::pick(&["https", "foo"]).into(), user: String::new(), pass: None, host: Some("h.com".into()), port: None, path: "/".into(), query: sym::flip().then(|| "q".into()), frag: sym::flip().then(|| "f".into()) } }
pub fn parse(c: &Comp) -> BetterUrl { BetterUrl::parse(&c.text()).unwrap() }
fn is(p: UrlPart, u: &BetterUrl, w: Option<&str>) -> bool { let g = p.get(u); sym::same_opt(g.as_deref(), w) }
/// List operation of a segment part: At, Before, After.  `None`: no such segment.
#[derive(Clone, Copy, PartialEq)] enum Rel { At, Before, After }
fn seg_op(s: &[String], i: isize, rel: Rel, to: Option<&str>) -> Option<Vec<String>> {
    let mut r = s.to_vec();
    match (idx(i, s.len()), to, rel) {
        (Some(i), Some(t), Rel::At) => r[i] = t.into(), (Some(i), None, Rel::At) => { r.remove(i); }
        (Some(i), Some(t), Rel::Before) => r.insert(i, t.into()), (Some(i), Some(t), Rel::After) => r.insert(i + 1, t.into()),
        (_, None, _) => (), (None, Some(_), _) => return None }
    Some(r)
}
fn setp(p: &UrlPart, u: &mut BetterUrl, to: Option<&str>) -> bool { let old = u.as_str().to_string(); let ok = p.set(u, to).is_ok(); sym::observe(ok as u64); sym::observe_bytes(u.as_str().as_bytes()); if !ok { sym::check(sym::same(u.as_str(), &old), "unchanged-on-error"); } ok }
/// Set one component and compare with what the URL then must be; `None`: must fail.
fn expect_set(p: UrlPart, c: &Comp, to: Option<&str>, want: Option<Comp>) {
    let mut u = parse(c); let ok = setp(&p, &mut u, to);
    match want { Some(w) => { sym::cover("set"); sym::check(ok, "succeeds"); if ok { w.expect(&u); } } None => { sym::cover("refused"); sym::check(!ok, "refused"); } }
}
harnesses! {
    /// Every getter returns the component the URL was built from.
    fn h_c10_get() {
        let c = some_url(); let u = parse(&c); c.expect(&u);
        let h = c.host.as_deref().unwrap(); let dom = !h.starts_with('[') && (c.scheme == "foo" || h != "1.2.3.4"); let port = c.port.map(|p| p.to_string());
        sym::check(is(UrlPart::Whole, &u, Some(&c.text())), "get-whole"); sym::check(is(UrlPart::Scheme, &u, Some(&c.scheme)), "get-scheme"); sym::check(is(UrlPart::Username, &u, Some(&c.user)), "get-username"); sym::check(is(UrlPart::Password, &u, c.pass.as_deref()), "get-password");
        sym::check(is(UrlPart::Host, &u, Some(h)), "get-host"); sym::check(is(UrlPart::Port, &u, port.as_deref()), "get-port"); sym::check(is(UrlPart::Path, &u, Some(&c.path)), "get-path"); sym::check(is(UrlPart::Query, &u, c.query.as_deref()), "get-query"); sym::check(is(UrlPart::Fragment, &u, c.frag.as_deref()), "get-fragment");
        let bare = h.strip_suffix('.').unwrap_or(h);
        sym::check(is(UrlPart::HostWithoutWWWDotPrefixAndFqdnPeriod, &u, Some(bare.strip_prefix("www.").unwrap_or(bare))), "get-bare-host");
        sym::check(is(UrlPart::Domain, &u, dom_then(dom, bare)), "get-domain"); sym::check(is(UrlPart::FqdnPeriod, &u, dom_then(h.ends_with('.'), ".")), "get-fqdn-period");
        let (sub, reg, nds, mid, suf) = match h { "a.b.co.uk" => (Some("a"), Some("b.co.uk"), Some("a.b"), Some("b"), Some("co.uk")), "www.www.com." => (Some("www"), Some("www.com"), Some("www.www"), Some("www"), Some("com")), "com" => (None, None, None, None, Some("com")), "1.2.3.4" if dom => (Some("1.2"), Some("3.4"), Some("1.2.3"), Some("3"), Some("4")), _ => (None, None, None, None, None) };
        sym::check(is(UrlPart::Subdomain, &u, sub), "get-subdomain"); sym::check(is(UrlPart::RegDomain, &u, reg), "get-reg-domain"); sym::check(is(UrlPart::NotDomainSuffix, &u, nds), "get-not-domain-suffix"); sym::check(is(UrlPart::DomainMiddle, &u, mid), "get-domain-middle"); sym::check(is(UrlPart::DomainSuffix, &u, suf), "get-domain-suffix");
        sym::cover("url");
    }
    /// Segment getters at every 64-bit index.
    fn h_c10_get_segments() {
        let mut c = plain_url(); let (p, d, k);
        match sym::choose(4) {
            0 => { let s = segs(1, 4); c.path = path_of(&s); k = s; p = 0; d = "h.com"; }
            i => { d = sym::pick(&["x.y.z.w.co.uk", "y.z.co.uk.", "a.com", "com.uk.ck", "com"]); let bare = d.strip_suffix('.').unwrap_or(d); c.host = Some(d.into());
                let u = parse(&c); let t = match i { 1 => Some(bare.to_string()), 2 => u.subdomain().map(Into::into), _ => u.domain_suffix().map(Into::into) };
                k = t.map(|t: String| t.split('.').map(Into::into).collect()).unwrap_or_default(); p = i; } }
        let u = parse(&c); let i = index(7); let _ = d;
        let part = match p { 0 => UrlPart::PathSegment(i), 1 => UrlPart::DomainSegment(i), 2 => UrlPart::SubdomainSegment(i), _ => UrlPart::DomainSuffixSegment(i) };
        let want = idx(i, k.len()).map(|j| k[j].as_str()); sym::cover(if want.is_some() { "segment" } else { "no-such-segment" });
        sym::check(is(part, &u, want), "get-segment");
        for q in match p { 0 => [UrlPart::BeforePathSegment(i), UrlPart::AfterPathSegment(i), UrlPart::NextPathSegment], 1 => [UrlPart::BeforeDomainSegment(i), UrlPart::AfterDomainSegment(i), UrlPart::NextDomainSegment], 2 => [UrlPart::BeforeSubdomainSegment(i), UrlPart::AfterSubdomainSegment(i), UrlPart::NextSubdomainSegment], _ => [UrlPart::BeforeDomainSuffixSegment(i), UrlPart::AfterDomainSuffixSegment(i), UrlPart::NextDomainSuffixSegment] } { sym::check(q.get(&u).is_none(), "positions-have-no-value"); }
    }
    /// Setting one component changes that component only.
    fn h_c10_set_components() {
        let c = some_url(); let mut w = c.clone(); let special = c.scheme != "foo";
        match sym::choose(6) {
            0 => { let v = letters(0, 2); w.user = v.clone(); expect_set(UrlPart::Username, &c, Some(&v), Some(w)); }
            1 => { let v = opt_letters(2); w.pass = v.clone().filter(|x| !x.is_empty()); expect_set(UrlPart::Password, &c, v.as_deref(), Some(w)); }
            2 => { let v = letters(0, 2); let slash = sym::flip(); w.path = format!("/{v}"); let v = if slash { w.path.clone() } else { v }; if v.is_empty() && !special { w.path = String::new(); } expect_set(UrlPart::Path, &c, Some(&v), Some(w)); }
            3 => { let v = opt_letters(3); w.query = v.clone(); expect_set(UrlPart::Query, &c, v.as_deref(), Some(w)); }
            4 => { let v = opt_letters(3); w.frag = v.clone(); expect_set(UrlPart::Fragment, &c, v.as_deref(), Some(w)); }
            _ => { let (p, v) = match sym::choose(4) { 0 => (UrlPart::Whole, None), 1 => (UrlPart::Scheme, None), 2 => (UrlPart::Username, None), _ => (UrlPart::Path, None) }; expect_set(p, &c, v, None); }
        }
    }
    /// Ports: exactly the numbers 0..=65535, the scheme's default reading as none.
    fn h_c10_set_port() {
        let c = Comp { port: sym::pick(&[None, Some(8080)]), ..plain_url() }; let mut w = c.clone(); let def = if c.scheme == "foo" { None } else { Some(443) };
        match sym::choose(3) {
            0 => { w.port = None; expect_set(UrlPart::Port, &c, None, Some(w)); }
            1 => { let v = sym::pick(&["0", "1", "80", "443", "00443", "8080", "65535", "065535", "65536", "70000", "99999", "4294967376", "18446744073709551696", "", "-1", "-0", " 1", "1 ", "0x1", "x", "6553_5"]);
                let n = (!v.is_empty() && v.bytes().all(|b| b.is_ascii_digit())).then(|| v.bytes().fold(0u128, |a, b| a * 10 + (b - b'0') as u128)).filter(|n| *n < 65536);
                let want = n.map(|n| { w.port = Some(n as u16).filter(|n| Some(*n) != def); w }); expect_set(UrlPart::Port, &c, Some(v), want); }
            _ => { let v = sym::over(1, 2, b"0123456789ax-"); for b in v.bytes() { sym::conc(b as u64); } let mut n = Some(0u16); for b in v.bytes() { n = match n { Some(n) if b.is_ascii_digit() => Some(n * 10 + (b - b'0') as u16), _ => None }; }
                match n { Some(n) => { sym::cover("number"); let n = sym::conc(n as u64) as u16; w.port = Some(n); expect_set(UrlPart::Port, &c, Some(&v), Some(w)); } None => expect_set(UrlPart::Port, &c, Some(&v), None) } }
        }
    }
    /// The whole URL is replaced by another whole URL, never by a relative one.
    fn h_c10_set_whole() {
        let c = some_url(); let old = parse(&c); let mut u = old.clone(); let v = match sym::choose(3) { 0 => sym::over(0, 2, b"a:/?#."), 1 => sym::pick(&["//x.y/", "https:x", "https:/x", "foo:x", "foo:/x", "//", "https://", "https:", "?q", "#f", "/p"]).to_string(), _ => [sym::pick(&["http", "https", "foo", "file"]), "://", sym::pick(&["x.y", "1.2.3.4", ""]), "/", &letters(0, 2)].concat() };
        let ok = UrlPart::Whole.set(&mut u, Some(&v)).is_ok(); sym::observe(ok as u64); sym::observe_bytes(u.as_str().as_bytes());
        match url::Url::parse(&v) { Ok(w) => { sym::cover("url"); sym::check(ok, "succeeds"); sym::check(sym::same(u.as_str(), w.as_str()), "whole-replaced"); } Err(_) => { sym::cover("not-a-url"); sym::check(!ok, "refused"); sym::check(u.as_str() == old.as_str() && u.host_details() == old.host_details(), "unchanged-on-error"); } }
    }
    /// The period of a fully qualified domain is there or not: no other value.
    fn h_c10_set_fqdn_period() {
        let h = sym::pick(&["h.com", "h.com.", "b.co.uk", "1.2.3.4", "[::1]"]); let c = Comp { scheme: "https".into(), host: Some(h.into()), ..plain_url() }; let mut w = c.clone(); let v = if sym::flip() { Some(sym::over(0, 2, b". x")) } else { None }; let bare = h.strip_suffix('.').unwrap_or(h);
        let dom = h.ends_with(|x: char| x.is_ascii_alphabetic() || x == '.'); let want = match v.as_deref() { None if dom => Some(bare.to_string()), Some(x) if dom && sym::same(x, ".") => Some([bare, "."].concat()), _ => None };
        sym::cover(if want.is_some() { "settable" } else { "refused" }); expect_set(UrlPart::FqdnPeriod, &c, v.as_deref(), want.map(|x| { w.host = Some(x.into()); w }));
    }
    /// Characters with a meaning in URLs are encoded, so they cannot leak into another component.
    fn h_c10_set_escapes() { set_escapes(2) }
    fn h_c10t_set_escapes() { set_escapes(3) }
    /// Writing back what was read changes nothing.
    fn h_c10_set_of_get() {
        let c = some_url(); sym::assume(c.scheme != "foo" || c.host.as_deref() != Some("1.2.3.4")); let mut u = parse(&c); let i = sym::small(3);
        let parts = [UrlPart::Whole, UrlPart::Scheme, UrlPart::Username, UrlPart::Password, UrlPart::Host, UrlPart::Port, UrlPart::Path, UrlPart::Query, UrlPart::Fragment, UrlPart::Domain, UrlPart::Subdomain, UrlPart::RegDomain, UrlPart::NotDomainSuffix, UrlPart::DomainMiddle, UrlPart::DomainSuffix, UrlPart::FqdnPeriod, UrlPart::PathSegment(i), UrlPart::DomainSegment(i), UrlPart::SubdomainSegment(i), UrlPart::DomainSuffixSegment(i)];
        let p = sym::pick(&parts); let t = u.as_str().to_string(); let d = u.host_details();
        if let Some(x) = p.get(&u).map(|x| x.into_owned()) { sym::cover("value"); let ok = setp(&p, &mut u, Some(&x)); sym::check(ok, "set-of-get-succeeds"); sym::check(sym::same(u.as_str(), &t), "set-of-get-changes-nothing"); sym::check(u.host_details() == d, "host-details-kept"); } else { sym::cover("none"); }
    }
    /// Path segments are a list: set, remove, insert before/after at every 64-bit index.
    fn h_c10_path_segments() {
        let mut c = plain_url(); let s = segs(1, 3); c.path = path_of(&s); let i = index(4); let to = opt_letters(1); let rel = sym::pick(&[Rel::At, Rel::Before, Rel::After]);
        let part = match rel { Rel::At => UrlPart::PathSegment(i), Rel::Before => UrlPart::BeforePathSegment(i), Rel::After => UrlPart::AfterPathSegment(i) };
        let want = seg_op(&s, i, rel, to.as_deref()).filter(|r| !r.is_empty()).map(|r| Comp { path: path_of(&r), ..c.clone() });
        expect_set(part, &c, to.as_deref(), want);
    }
    /// Appending a path segment replaces one trailing empty segment.
    fn h_c10_next_path_segment() {
        let mut c = plain_url(); let mut s = segs(1, 3); c.path = path_of(&s); let to = opt_letters(2);
        sym::assume(to.is_none() || s.len() != 2 || !s[0].is_empty() || !s[1].is_empty());
        if let Some(t) = &to { if s.last().is_some_and(|x| x.is_empty()) { s.pop(); } s.push(t.clone()); }
        expect_set(UrlPart::NextPathSegment, &c, to.as_deref(), Some(Comp { path: path_of(&s), ..c.clone() }));
    }
    /// The same for the path `//`: the segment before the trailing empty one is to be kept.
    fn h_c10_next_path_segment_of_two_empty() {
        let mut c = plain_url(); c.path = "//".into(); let to = letters(0, 2); let mut u = parse(&c); let ok = setp(&UrlPart::NextPathSegment, &mut u, Some(&to)); sym::check(ok, "succeeds"); sym::cover("set");
        let (good, bad) = (Comp { path: format!("//{to}"), ..c.clone() }, Comp { path: format!("/{to}"), ..c }); let lost = sym::same(u.path(), &bad.path); sym::check(!lost, "keeps-the-first-empty-segment"); if lost { bad.expect(&u) } else { good.expect(&u) }
    }
    /// URLs without path segments.
    fn h_c10_opaque() {
        let t = format!("{}{}", sym::pick(&["mailto:a@b", "data:,x", "foo:x/y"]), sym::pick(&["", "?q", "#f"])); let mut u = BetterUrl::parse(&t).unwrap(); let i = index(2); let to = opt_letters(1);
        let p = match sym::choose(4) { 0 => UrlPart::PathSegment(i), 1 => UrlPart::BeforePathSegment(i), 2 => UrlPart::AfterPathSegment(i), _ => UrlPart::NextPathSegment };
        sym::check(p.get(&u).is_none(), "no-segment"); let next = matches!(p, UrlPart::NextPathSegment); let ok = setp(&p, &mut u, to.as_deref());
        if !(next && to.is_none()) { sym::check(!ok, "refused"); sym::cover("refused"); }
        for q in [UrlPart::Host, UrlPart::Domain, UrlPart::Subdomain, UrlPart::DomainSuffix, UrlPart::FqdnPeriod, UrlPart::Port, UrlPart::Password] { sym::check(q.get(&u).is_none(), "no-host-parts"); }
    }
    /// Domain, subdomain and suffix segments: the same as setting the whole part to the edited list.
    fn h_c10_domain_segments() {
        let d = sym::pick(&["x.y.z.co.uk", "y.z.com.", "z.com", "uk", "1.2.3.4"]); let c = Comp { host: Some(d.into()), ..plain_url() }; let i = index(6); let to = match sym::choose(4) { 0 => None, 1 => Some(letters(1, 1)), 2 => Some("com".to_string()), _ => Some(letters(0, 2)) };
        let which = sym::choose(3); let whole = [UrlPart::Domain, UrlPart::Subdomain, UrlPart::DomainSuffix][which].clone(); let rk = sym::choose(4); let rel = [Rel::At, Rel::Before, Rel::After, Rel::After][rk];
        let j = if rk == 3 { -1 } else { i };
        let part = match (which, rk) { (0, 0) => UrlPart::DomainSegment(i), (0, 1) => UrlPart::BeforeDomainSegment(i), (0, 2) => UrlPart::AfterDomainSegment(i), (0, _) => UrlPart::NextDomainSegment, (1, 0) => UrlPart::SubdomainSegment(i), (1, 1) => UrlPart::BeforeSubdomainSegment(i), (1, 2) => UrlPart::AfterSubdomainSegment(i), (1, _) => UrlPart::NextSubdomainSegment, (_, 0) => UrlPart::DomainSuffixSegment(i), (_, 1) => UrlPart::BeforeDomainSuffixSegment(i), (_, 2) => UrlPart::AfterDomainSuffixSegment(i), _ => UrlPart::NextDomainSuffixSegment };
        let mut a = parse(&c); let mut b = parse(&c); let cur: Option<Vec<String>> = whole.get(&a).map(|x| x.split('.').map(Into::into).collect());
        let ok = setp(&part, &mut a, to.as_deref());
        match cur.and_then(|s| seg_op(&s, j, rel, to.as_deref())) {
            Some(r) => { let t = r.join("."); let okb = whole.set(&mut b, Some(&*t).filter(|x| !x.is_empty())).is_ok(); sym::check(ok == okb, "succeeds-like-the-whole-part"); sym::check(sym::same(a.as_str(), b.as_str()), "same-as-setting-the-whole-part"); sym::check(a.host_details() == b.host_details(), "same-details"); sym::cover(if ok { "set" } else { "not-a-host" }); }
            None => { sym::cover("refused"); sym::check(!ok, "refused"); } }
    }
    /// Scheme changes keep everything else.
    fn h_c10_set_scheme() {
        let c = some_url(); let v = sym::pick(&["http", "https", "ftp", "ws", "foo", "bar", "file", "", "1", "a b", "HTTP", "é"]); let mut u = parse(&c); let ok = setp(&UrlPart::Scheme, &mut u, Some(v));
        if ok { let l = v.to_ascii_lowercase(); let port = c.port; let w = Comp { scheme: l, port, ..c.clone() }; w.expect(&u); sym::cover("set"); } else { sym::cover("refused"); }
        let special = |x: &str| matches!(x, "http" | "https" | "ftp" | "ws"); if c.scheme != "foo" { if special(v) { sym::check(ok, "special-to-special"); } }
        sym::check(!(ok && (v == "" || v == "1" || v == "a b" || v == "é")), "not-a-scheme-refused");
    }
}
fn dom_then(c: bool, s: &str) -> Option<&str> { if c { Some(s) } else { None } }
fn set_escapes(n: u8) {
        let c = plain_url(); let v = sym::over(0, n, b"a/?#@:% \"<[\\"); let mut u = parse(&c); let before = Comp::of(&u);
        let k = sym::choose(5); let p = [UrlPart::Username, UrlPart::Password, UrlPart::Path, UrlPart::Query, UrlPart::Fragment][k].clone();
        let ok = setp(&p, &mut u, Some(&v)); sym::check(ok, "succeeds"); let a = Comp::of(&u);
        sym::check(sym::same(&a.scheme, &before.scheme), "scheme-untouched"); sym::check(sym::same_opt(a.host.as_deref(), before.host.as_deref()), "host-untouched"); sym::check(a.port == before.port, "port-untouched");
        if k != 0 { sym::check(sym::same(&a.user, &before.user), "username-untouched"); } if k != 1 { sym::check(sym::same_opt(a.pass.as_deref(), before.pass.as_deref()), "password-untouched"); }
        if k != 2 { sym::check(sym::same(&a.path, &before.path), "path-untouched"); } if k != 3 { sym::check(sym::same_opt(a.query.as_deref(), before.query.as_deref()), "query-untouched"); } if k != 4 { sym::check(sym::same_opt(a.frag.as_deref(), before.frag.as_deref()), "fragment-untouched"); }
        let r = BetterUrl::parse(u.as_str()); sym::check(r.is_ok(), "reads-back"); if let Ok(r) = r { Comp::of(&r).expect(&u); }
        let again = p.get(&u).map(|x| x.into_owned()); let t = u.as_str().to_string(); if let Some(x) = again { let ok = setp(&p, &mut u, Some(&x)); sym::check(ok, "set-of-get-succeeds"); sym::check(sym::same(u.as_str(), &t), "set-of-get-changes-nothing"); }
        sym::cover("set");
}
