//! C14: string sources.
use crate::ctx::*;
use std::borrow::Cow;
/// What a source yields: an error (of leaf i, or 255), nothing, or text.
type Out = Result<Option<Vec<u8>>, u8>;
const N: usize = 8;
/// Per leaf: 0 error, 1 none, 2 borrowed text, 3 owned text; and its text.
static mut OUT: [u8; N] = [0; N];
static mut TXT: [String; N] = [const { String::new() }; N];
fn txt(i: usize) -> &'static String { unsafe { &(*std::ptr::addr_of!(TXT))[i] } }
fn out(i: usize) -> u8 { unsafe { OUT[i] } }
fn leaf<const I: usize>(_: &TaskStateView) -> Result<Option<Cow<'static, str>>, StringSourceError> { Ok(match out(I) { 0 => Err(StringSourceError::ExplicitError(["0", "1", "2", "3", "4", "5", "6", "7"][I].into()))?, 1 => None, 2 => Some(Cow::Borrowed(txt(I))), _ => Some(Cow::Owned(txt(I).clone())) }) }
fn w0<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<0>(t) } fn w1<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<1>(t) } fn w2<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<2>(t) } fn w3<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<3>(t) }
fn w4<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<4>(t) } fn w5<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<5>(t) } fn w6<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<6>(t) } fn w7<'a>(t: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { leaf::<7>(t) }
fn lf(i: usize) -> StringSource { StringSource::Custom([w0, w1, w2, w3, w4, w5, w6, w7][i]) }
#[derive(Clone)]
enum S { Leaf(usize), None, Err, E2N(B), E2E(B), Try(B, B), N2E(B), NoneTo(B, B), Join(Vec<S>, String), Flag(u8, B, B), Match(B, u8, B, B), IsNone(B, B, B), Map(B, u8), Mod(B, u8) }
type B = Box<S>;
/// `None`: either nothing or an error (the documentation and the code disagree).
fn run(s: &S) -> Option<Out> { Some(match s {
    S::Leaf(i) => match out(*i) { 0 => Err(*i as u8), 1 => Ok(None), _ => Ok(Some(txt(*i).as_bytes().to_vec())) },
    S::None => Ok(None), S::Err => Err(255),
    S::E2N(x) => Ok(run(x)?.unwrap_or(None)), S::E2E(x) => Ok(run(x)?.unwrap_or(Some(vec![]))), S::Try(a, b) => match run(a)? { Ok(x) => Ok(x), Err(_) => run(b)? },
    S::N2E(x) => run(x)?.map(|x| Some(x.unwrap_or(vec![]))), S::NoneTo(a, b) => match run(a)? { Ok(None) => run(b)?, r => r },
    S::Join(v, j) => { let mut p = vec![]; let mut none = false; let mut e = None; for x in v { match run(x)? { Err(f) => { if e.is_none() { e = Some(f); } } Ok(None) => none = true, Ok(Some(t)) => p.push(t) } } if none { return None; } match e { Some(e) => Err(e), None => Ok(Some(join(&p, j.as_bytes()))) } }
    S::Flag(f, a, b) => match f { 0 => run(b)?, 1 => run(a)?, _ => Err(255) },
    S::Match(x, m, a, b) => match run(x)? { Err(e) => Err(e), Ok(None) => Err(255), Ok(Some(_)) => match m { 0 => run(b)?, 1 => run(a)?, _ => Err(255) } },
    S::IsNone(x, a, b) => match run(x)? { Err(e) => Err(e), Ok(None) => run(a)?, Ok(Some(_)) => run(b)? },
    S::Map(x, m) => match run(x)? { Err(e) => Err(e), Ok(k) => { let hit = match &k { None => if m & 2 != 0 { Some(b"null") } else { None }, Some(k) => if m & 1 != 0 && sym::same_bytes(k, b"k") { Some(b"is k") } else { None } }; match hit { Some(h) => Ok(Some(h.to_vec())), None => if m & 4 != 0 { Ok(Some(b"else".to_vec())) } else { Err(255) } } } },
    S::Mod(x, m) => match run(x)? { Ok(Some(t)) => match m { 0 => Ok(Some(cat(&t, b"+", b""))), _ => Err(255) }, r => r },
}) }
fn flag(f: u8) -> Box<FlagRef> { Box::new(match f { 0 => FlagRef { r#type: FlagType::Params, name: s("off") }, 1 => FlagRef { r#type: FlagType::Params, name: s("on") }, _ => FlagRef { r#type: FlagType::Params, name: StringSource::None } }) }
fn mk(x: &S) -> StringSource { use StringSource as K; let b = |x: &S| Box::new(mk(x)); match x {
    S::Leaf(i) => lf(*i), S::None => K::None, S::Err => K::Error("e".into()), S::E2N(x) => K::ErrorToNone(b(x)), S::E2E(x) => K::ErrorToEmptyString(b(x)), S::Try(x, y) => K::TryElse { r#try: b(x), r#else: b(y) }, S::N2E(x) => K::NoneToEmptyString(b(x)), S::NoneTo(x, y) => K::NoneTo { value: b(x), if_none: b(y) },
    S::Join(v, j) => K::Join { sources: v.iter().map(mk).collect(), join: j.clone() }, S::Flag(f, x, y) => K::IfFlag { flag: flag(*f), then: b(x), r#else: b(y) },
    S::Match(v, m, x, y) => K::IfStringMatches { value: b(v), matcher: Box::new(match m { 0 => StringMatcher::Never, 1 => StringMatcher::Always, _ => StringMatcher::Error("m".into()) }), then: b(x), r#else: b(y) },
    S::IsNone(v, x, y) => K::IfStringIsNone { value: b(v), then: b(x), r#else: b(y) },
    S::Map(v, m) => K::Map { value: b(v), map: Map { map: if m & 1 != 0 { map(vec![("k", s("is k"))]) } else { map(vec![]) }, if_null: (m & 2 != 0).then(|| bs("null")), r#else: (m & 4 != 0).then(|| bs("else")) } },
    S::Mod(v, m) => K::Modified { value: b(v), modification: Box::new(match m { 0 => StringModification::Append(s("+")), _ => StringModification::Error("m".into()) }) },
} }
struct Gen { n: usize, owned: u8, t: String }
impl Gen {
    fn leaf(&mut self) -> S { let i = self.n; self.n += 1; unsafe { OUT[i] = sym::choose(self.owned) as u8; TXT[i] = if i == 0 { self.t.clone() } else { ["", "b", "c", "d", "e", "f", "g", "h"][i].into() }; } S::Leaf(i) }
    fn kids(&mut self, n: usize, nest: usize) -> Vec<S> { let at = if nest > 0 && n > 0 { sym::choose(n as u8) } else { n }; (0..n).map(|i| if i == at { self.node(nest - 1) } else { self.leaf() }).collect() }
    fn node(&mut self, nest: usize) -> S { let mut k = |n: usize| { let mut v = self.kids(n, nest); v.reverse(); v }; let b = |v: &mut Vec<S>| Box::new(v.pop().unwrap());
        match sym::choose(13) {
            0 => S::E2N(b(&mut k(1))), 1 => S::E2E(b(&mut k(1))), 2 => { let mut v = k(2); S::Try(b(&mut v), b(&mut v)) } 3 => S::N2E(b(&mut k(1))), 4 => { let mut v = k(2); S::NoneTo(b(&mut v), b(&mut v)) }
            5 => { let n = if nest > 0 { 1 + sym::choose(2) } else { sym::choose(4) }; let mut v = k(n); v.reverse(); S::Join(v, if nest > 0 { ", " } else { sym::pick(&["", ", "]) }.into()) }
            6 => { let f = sym::choose(3) as u8; let mut v = k(2); S::Flag(f, b(&mut v), b(&mut v)) } 7 => { let m = sym::choose(3) as u8; let mut v = k(3); S::Match(b(&mut v), m, b(&mut v), b(&mut v)) } 8 => { let mut v = k(3); S::IsNone(b(&mut v), b(&mut v), b(&mut v)) }
            9 => { let m = if nest > 0 { sym::pick(&[1u8, 2, 5, 6]) } else { sym::choose(8) as u8 }; S::Map(b(&mut k(1)), m) } 10 => { let m = sym::choose(2) as u8; S::Mod(b(&mut k(1)), m) } 11 => S::None, _ => S::Err,
        }
    }
}
fn check(got: Result<Option<Cow<str>>, StringSourceError>, want: Option<Out>) {
    match &got { Ok(None) => sym::observe(0), Ok(Some(t)) => { sym::observe(1); sym::observe_bytes(t.as_bytes()); } Err(_) => sym::observe(2) }
    match (got, want) { (_, None) => sym::cover("no-claim"),
        (Ok(None), Some(Ok(None))) => sym::cover("none"), (Ok(Some(t)), Some(Ok(Some(w)))) => { sym::cover("text"); sym::check(sym::same_bytes(t.as_bytes(), &w), "text-exact") }
        (Err(_), Some(Err(_))) => sym::cover("error"), (_, Some(Ok(None))) => sym::check(false, "none-exact"), (_, Some(Ok(Some(_)))) => sym::check(false, "text-present"), (_, Some(Err(_))) => sym::check(false, "error-reported") }
}
fn world() -> W { let mut w = W::new("https://u:p@www.a.co.uk:8/x/y?q=1#f"); w.params.flags.insert("on".into()); w }
fn go(nest: usize, owned: u8) { let mut g = Gen { n: 0, owned, t: "k".into() }; let x = g.node(nest); let w = world(); let v = w.view(); let m = mk(&x); let r = m.get(&v); if nest == 0 { if let (S::Join(..), None) = (&x, run(&x)) { sym::check(!matches!(r, Ok(Some(_))), "join-of-nothing-is-no-text"); } } check(r, run(&x)) }
fn three() -> (StringSource, Out) { three_of(sym::over(0, 2, b"ab")) }
fn three_of(t: String) -> (StringSource, Out) { let i = unsafe { NEXT += 1; NEXT - 1 }; unsafe { OUT[i] = sym::choose(4) as u8; TXT[i] = t; } (lf(i), run(&S::Leaf(i)).unwrap()) }
static mut NEXT: usize = 0;
fn need(o: Out) -> Result<Vec<u8>, u8> { match o { Ok(Some(x)) => Ok(x), Ok(None) => Err(255), Err(e) => Err(e) } }
fn between(v: Out, a: Out, b: Out) -> Out { let (v, a, b) = (need(v)?, need(a)?, need(b)?); let i = find(&v, &a, 0).ok_or(255u8)? + a.len(); let j = find(&v, &b, i).ok_or(255u8)?; Ok(Some(v[i..j].to_vec())) }
harnesses! {
    fn h_c14_flat() { go(0, 4) }
    fn h_c14_nested() { go(1, 3) }
    fn h_c14t_nested() { go(2, 3) }
    /// The text of a leaf is arbitrary.
    fn h_c14_text() { sym::opaque_hash(); let mut g = Gen { n: 0, owned: 4, t: sym::text(2, 2) }; let x = g.node(0); let w = world(); let v = w.view(); let m = mk(&x); check(m.get(&v), run(&x)) }
    fn h_c14_both_fail() { let w = world(); let v = w.view(); unsafe { OUT = [0; N]; } let m = StringSource::TryElse { r#try: Box::new(lf(0)), r#else: Box::new(lf(1)) }; let r = m.get(&v); sym::observe(r.is_ok() as u64); sym::check(matches!(&r, Err(StringSourceError::ExplicitError(m)) if m == "1"), "the-else-error") }
    fn h_c14_extract_between() { unsafe { NEXT = 0; } let w = world(); let v = w.view(); let (x, xo) = three_of(sym::over(0, 4, b"ab")); let (a, ao) = three(); let (b, bo) = if sym::flip() { three() } else { (s("b"), Ok(Some(b"b".to_vec()))) }; let m = StringSource::ExtractBetween { value: Box::new(x), start: Box::new(a), end: Box::new(b) }; check(m.get(&v), Some(between(xo, ao, bo))) }
    fn h_c14_extract_between_unicode() { unsafe { NEXT = 0; } let w = world(); let v = w.view(); let t = sym::text(3, 2); let (a, b) = (sym::text(1, 2), sym::text(1, 2)); let m = StringSource::ExtractBetween { value: Box::new(s(&t)), start: Box::new(s(&a)), end: Box::new(s(&b)) }; check(m.get(&v), Some(between(Ok(Some(t.into_bytes())), Ok(Some(a.into_bytes())), Ok(Some(b.into_bytes()))))) }
    /// A part of the current URL, and a part of a URL given as text.
    fn h_c14_part() {
        unsafe { NEXT = 0; } let w = world(); let v = w.view();
        let p = sym::pick(&[UrlPart::Whole, UrlPart::Scheme, UrlPart::Username, UrlPart::Password, UrlPart::Host, UrlPart::Subdomain, UrlPart::RegDomain, UrlPart::DomainSuffix, UrlPart::Port, UrlPart::Path, UrlPart::PathSegment(-1), UrlPart::Query, UrlPart::QueryParam("q".parse().unwrap()), UrlPart::Fragment, UrlPart::NextPathSegment]);
        if sym::flip() { let t = p.get(&w.url).map(|x| x.into_owned().into_bytes()); let m = StringSource::Part(p); check(m.get(&v), Some(Ok(t))) }
        else { let (x, o) = three_of(sym::pick(&["http://b/z?q=2", "foo:bar", "http://1.2.3.4:9#g", "", "a b", "http://"]).into()); let want = match o { Err(e) => Err(e), Ok(None) => Ok(None), Ok(Some(t)) => match BetterUrl::parse(std::str::from_utf8(&t).unwrap()) { Ok(u) => Ok(p.get(&u).map(|x| x.into_owned().into_bytes())), Err(_) => Err(255) } }; let m = StringSource::ExtractPart { value: Box::new(x), part: p }; check(m.get(&v), Some(want)) }
    }
}
