//! C16: lookups by name and by value.
use crate::ctx::*;
/// How each of the entries `a`, `b`, empty name, null and else ends (0 false, 1 true, 2 error), and which of them ran.
static mut DO: [u8; 5] = [0; 5];
static mut RAN: Vec<usize> = Vec::new();
fn ran() -> &'static mut Vec<usize> { unsafe { &mut *std::ptr::addr_of_mut!(RAN) } }
fn end(i: usize) -> u8 { ran().push(i); unsafe { DO[i] } }
fn c<const I: usize>(_: &TaskStateView) -> Result<bool, ConditionError> { match end(I) { 2 => Err(ConditionError::PartIsNone), d => Ok(d == 1) } }
fn m<const I: usize>(_: &mut TaskState) -> Result<(), MapperError> { match end(I) { 2 => Err(MapperError::CannotFindQueryParam), _ => Ok(()) } }
fn r<const I: usize>(_: &mut TaskState) -> Result<(), RuleError> { match end(I) { 2 => Err(RuleError::CommonRuleNotFound), _ => Ok(()) } }
fn d<const I: usize>(h: &mut String, _: &TaskStateView) -> Result<(), StringModificationError> { h.push('!'); match end(I) { 2 => Err(StringModificationError::InvalidIndex), _ => Ok(()) } }
const C: [fn(&TaskStateView) -> Result<bool, ConditionError>; 5] = [c::<0>, c::<1>, c::<2>, c::<3>, c::<4>];
const M: [fn(&mut TaskState) -> Result<(), MapperError>; 5] = [m::<0>, m::<1>, m::<2>, m::<3>, m::<4>];
const R: [fn(&mut TaskState) -> Result<(), RuleError>; 5] = [r::<0>, r::<1>, r::<2>, r::<3>, r::<4>];
const D: [fn(&mut String, &TaskStateView) -> Result<(), StringModificationError>; 5] = [d::<0>, d::<1>, d::<2>, d::<3>, d::<4>];
const KEYS: [&str; 3] = ["a", "b", ""];
/// Which entries there are.
fn has() -> [bool; 5] { let k = sym::pick(&[0u8, 1, 3, 4, 7]); [k & 1 != 0, k & 2 != 0, k & 4 != 0, sym::flip(), sym::flip()] }
fn mk<T>(h: [bool; 5], f: impl Fn(usize) -> T) -> Map<T> { Map { map: (0..3).filter(|i| h[*i]).map(|i| (KEYS[i].to_string(), f(i))).collect(), if_null: if h[3] { Some(Box::new(f(3))) } else { None }, r#else: if h[4] { Some(Box::new(f(4))) } else { None } } }
/// The entry for a value.
fn want(h: [bool; 5], v: Option<&str>) -> Option<usize> { let e = if h[4] { Some(4) } else { None }; match v { None => if h[3] { Some(3) } else { e }, Some(v) => { for i in 0..3 { if h[i] && sym::same(v, KEYS[i]) { return Some(i); } } e } } }
/// A value: text, nothing or an error.
fn value() -> (StringSource, Option<Option<String>>) { match sym::choose(3) { 0 => (StringSource::None, Some(None)), 1 => (StringSource::Error("v".into()), None), _ => { let t = sym::over(0, 2, b"abc"); (s(&t), Some(Some(t))) } } }
fn ends(fails: bool) { for i in 0..5 { unsafe { DO[i] = 1; } } let _ = fails; }
/// Exactly the selected entry ran, once, and its outcome is the outcome.
fn judge(got: Option<u8>, w: Option<Option<usize>>, mode: u8, plain: bool) {
    sym::observe(got.map_or(9, |x| x as u64)); for x in ran().iter() { sym::observe(*x as u64); }
    match w { None => { sym::cover("value-error"); sym::check(got.is_none(), "failing-value-is-an-error"); sym::check(ran().is_empty(), "nothing-runs"); }
        Some(None) => { sym::cover("no-entry"); sym::check(got == Some(0), "no-entry-does-nothing"); sym::check(ran().is_empty(), "nothing-runs"); }
        Some(Some(i)) => { sym::cover("entry"); sym::check(*ran() == [i], "exactly-the-selected-entry-runs"); sym::check(got == match mode { 2 => None, 0 if plain => Some(0), _ => Some(1) }, "outcome-of-the-entry"); } }
}
fn setup() -> ([bool; 5], u8) { sym::opaque_hash(); ran().clear(); ends(false); let mode = sym::choose(3) as u8; unsafe { DO = [mode; 5]; } (has(), mode) }
/// A world whose fragment is the value (when there is one).
fn world(v: &Option<String>) -> W { let mut w = W::new("https://a.b/p"); w.url.set_fragment(v.as_deref()); w }
fn part() -> (Option<String>, W) { let v = if sym::flip() { Some(sym::over(0, 2, b"abc")) } else { None }; let w = world(&v); (v, w) }
fn done<E>(r: Result<(), E>) -> Option<u8> { r.ok().map(|()| if ran().is_empty() { 0 } else { 1 }) }
fn untouched(w: &W, u: &str) { sym::check(sym::same(w.url.as_str(), u), "url-untouched"); sym::check(w.scratchpad == JobScratchpad::default(), "scratchpad-untouched"); }
harnesses! {
    fn h_c16_map() {
        sym::opaque_hash(); let h = [sym::flip(), sym::flip(), sym::flip(), sym::flip(), sym::flip()]; let x = mk(h, |i| i); let v = if sym::flip() { Some(sym::over(0, 2, b"abc")) } else { None };
        let g = match sym::choose(3) { 0 => x.get(v.as_deref()).copied(), 1 => x.get(v.clone()).copied(), _ => x.get(v.clone().map(std::borrow::Cow::<str>::Owned)).copied() }; let w = want(h, v.as_deref());
        sym::observe(g.map_or(9, |x| x as u64)); sym::cover(if w.is_some() { "entry" } else { "no-entry" }); sym::check(g == w, "selected-entry-exact");
    }
    fn h_c16_map_any_text() {
        sym::opaque_hash(); let (a, b, v) = (sym::text(2, 2), sym::text(2, 2), sym::text(2, 2)); let x: Map<usize> = Map { map: map(vec![(&a[..], 0), (&b[..], 1)]), if_null: Some(Box::new(2)), r#else: if sym::flip() { Some(Box::new(3)) } else { None } };
        let g = x.get(Some(&v)).copied(); let w = if sym::same(&b, &v) { Some(1) } else if sym::same(&a, &v) { Some(0) } else { x.r#else.as_deref().copied() };
        sym::observe(g.map_or(9, |x| x as u64)); sym::cover(if w.is_some() { "entry" } else { "no-entry" }); sym::check(g == w, "selected-entry-exact");
    }
    fn h_c16_condition() {
        let (h, mode) = setup(); let x = mk(h, |i| Condition::Custom(C[i]));
        if sym::flip() { let (v, vo) = value(); let w = world(&None); let g = Condition::StringMap { value: v, map: x }.satisfied_by(&w.view()).ok().map(|b| b as u8); judge(g, vo.map(|v| want(h, v.as_deref())), mode, true) }
        else { let (v, w) = part(); let g = Condition::PartMap { part: UrlPart::Fragment, map: x }.satisfied_by(&w.view()).ok().map(|b| b as u8); judge(g, Some(want(h, v.as_deref())), mode, true) }
    }
    fn h_c16_modification() {
        let (h, mode) = setup(); let (v, vo) = value(); let w = world(&None); let mut t = String::from("x");
        let g = done(StringModification::StringMap { value: Box::new(v), map: mk(h, |i| StringModification::Custom(D[i])) }.apply(&mut t, &w.view()));
        judge(g, vo.map(|v| want(h, v.as_deref())), mode, false); sym::check(t == if ran().is_empty() { "x" } else { "x!" }, "string-as-the-entry-left-it");
    }
    fn h_c16_mapper() {
        let (h, mode) = setup(); let x = mk(h, |i| Mapper::Custom(M[i]));
        if sym::flip() { let (v, vo) = value(); let mut w = world(&None); let u = w.url.as_str().to_string(); let g = done(Mapper::StringMap { value: v, map: x }.apply(&mut w.state())); judge(g, vo.map(|v| want(h, v.as_deref())), mode, false); untouched(&w, &u); }
        else { let (v, mut w) = part(); let u = w.url.as_str().to_string(); let g = done(Mapper::PartMap { part: UrlPart::Fragment, map: x }.apply(&mut w.state())); judge(g, Some(want(h, v.as_deref())), mode, false); untouched(&w, &u); }
    }
    fn h_c16_rule_part() {
        let (h, mode) = setup(); let k = sym::choose(3); let (v, mut w) = part(); let u = w.url.as_str().to_string(); let p = UrlPart::Fragment;
        let q = match k { 0 => Rule::PartMap { part: p, map: mk(h, |i| Mapper::Custom(M[i])) }, 1 => Rule::PartRuleMap { part: p, map: mk(h, |i| Rule::Custom(R[i])) }, _ => Rule::PartRulesMap { part: p, map: mk(h, |i| Rules(vec![Rule::Custom(R[i])])) } };
        judge(done(q.apply(&mut w.state())), Some(want(h, v.as_deref())), mode, false); untouched(&w, &u);
    }
    fn h_c16_rule_string() {
        let (h, mode) = setup(); let k = sym::choose(3); let (v, vo) = value(); let mut w = world(&None); let u = w.url.as_str().to_string();
        let q = match k { 0 => Rule::StringMap { value: v, map: mk(h, |i| Mapper::Custom(M[i])) }, 1 => Rule::StringRuleMap { value: v, map: mk(h, |i| Rule::Custom(R[i])) }, _ => Rule::StringRulesMap { value: v, map: mk(h, |i| Rules(vec![Rule::Custom(R[i])])) } };
        judge(done(q.apply(&mut w.state())), vo.map(|v| want(h, v.as_deref())), mode, false); untouched(&w, &u);
    }
    /// Maps by name: other maps hold other values under the same keys.
    fn h_c16_params_map() {
        sym::opaque_hash(); let h = has(); let mut w = world(&None); w.params.maps = map(vec![("m", mk(h, |i| ["is a", "is b", "is empty", "null", "else"][i].to_string())), ("o", mk([true; 5], |_| "other".to_string()))]);
        let (n, no) = match sym::choose(4) { 0 => (StringSource::None, None), 1 => (StringSource::Error("n".into()), None), _ => { let t = sym::over(0, 1, b"mx"); (s(&t), if sym::same(&t, "m") { Some(()) } else { None }) } }; let (k, ko) = value();
        let g = StringSource::ParamsMap { name: Box::new(n), key: Box::new(k) }; let v = w.view(); let g = g.get(&v).ok().map(|x| x.map(|x| x.into_owned()));
        let x = match (no, ko) { (Some(()), Some(k)) => Some(want(h, k.as_deref()).map(|i| ["is a", "is b", "is empty", "null", "else"][i])), _ => None };
        sym::observe(g.is_some() as u64); match (&g, x) { (None, None) => sym::cover("error"), (Some(g), Some(x)) => { sym::cover(if x.is_some() { "entry" } else { "no-entry" }); sym::check(g.as_deref() == x, "selected-entry-exact"); } (None, Some(_)) => sym::check(false, "answers-where-specified"), (Some(_), None) => sym::check(false, "errors-where-specified") }
    }
    fn h_c16_set() {
        sym::opaque_hash(); let (a, b, t) = (sym::text(1, 2), sym::over(0, 1, b"a"), sym::text(1, 2)); let mut w = world(&None); let n = sym::choose(3); w.params.sets = map(vec![("m", [a.clone(), b.clone()].into_iter().take(n).collect()), ("o", [t.clone()].into())]);
        let (x, no) = match sym::choose(4) { 0 => (StringSource::None, None), 1 => (StringSource::Error("n".into()), None), 2 => (s("m"), Some(((n > 0) & sym::same(&a, &t)) | ((n > 1) & sym::same(&b, &t)))), _ => (s("missing"), Some(false)) };
        let g = StringMatcher::InSet(x).satisfied_by(&t, &w.view()).ok();
        sym::observe(g.map_or(9, |x| x as u64)); match (g, no) { (None, None) => sym::cover("error"), (Some(g), Some(x)) => { sym::cover("answer"); sym::check(g == x, "membership-exact"); } _ => sym::check(false, "errors-where-specified") }
    }
    /// Any two or three partitions of up to two values each.
    fn h_c16_partitioning() {
        sym::opaque_hash(); let n = 1 + sym::choose(3); let mut ps: Vec<(String, Vec<String>)> = vec![]; for i in 0..n { let k = if i == 2 { 1 } else { sym::choose(3) }; ps.push((sym::over(1, 1, b"pqr"), (0..k).map(|_| sym::over(1, 1, b"abc")).collect())); }
        let mut bad = false; let mut all: Vec<(&str, &str)> = vec![]; for (i, (p, vs)) in ps.iter().enumerate() { for (q, _) in &ps[..i] { if sym::same(p, q) { bad = true; } } for v in vs { for (w, _) in &all { if sym::same(v, w) { bad = true; } } all.push((v, p)); } }
        let g = NamedPartitioning::try_from_iter(ps.clone()); sym::observe(g.is_ok() as u64);
        match g { Err(_) => { sym::cover("refused"); sym::check(bad, "disjoint-partitions-are-accepted"); }
            Ok(g) => { sym::cover("accepted"); sym::check(!bad, "duplicates-are-refused");
                let mut w = world(&None); w.params.named_partitionings = map(vec![("n", g.clone())]);
                for t in ["a", "b", "d", ""] { let mut x = None; for (v, p) in &all { if sym::same(v, t) { x = Some(*p); } } sym::check(sym::same_opt(g.get_partition(t), x), "partition-exact");
                    let q = StringSource::ParamsNamedPartitioning { name: bs("n"), element: bs(t) }; let v = w.view(); match q.get(&v) { Ok(y) => sym::check(sym::same_opt(y.as_deref(), x), "partition-exact"), Err(_) => sym::check(false, "answers-where-specified") } }
                sym::check(g.partition_names().len() == ps.len(), "names-complete"); for (i, x) in g.partition_names().iter().enumerate() { sym::check(sym::same(x, &ps[i].0), "names-in-order"); } } }
    }
    fn h_c16_partitioning_source() {
        let mut w = world(&None); w.params.named_partitionings = map(vec![("n", NamedPartitioning::try_from_iter([("p".to_string(), vec!["a".to_string()]), ("a".to_string(), vec!["p".to_string(), "".to_string()])]).unwrap()), ("o", NamedPartitioning::try_from_iter([("z".to_string(), vec!["a".to_string(), "p".to_string()])]).unwrap())]);
        let src = |t: &str| match sym::choose(3) { 0 => (StringSource::None, false), 1 => (StringSource::Error("e".into()), false), _ => (s(t), true) };
        let n = sym::pick(&["n", "o", "missing"]); let e = sym::pick(&["a", "p", "", "x"]); let (a, ao) = src(n); let (b, bo) = src(e);
        let want = if !ao || !bo || n == "missing" { None } else { Some(match (n, e) { ("n", "a") => Some("p"), ("n", "p") | ("n", "") => Some("a"), ("o", "a") | ("o", "p") => Some("z"), _ => None }) };
        let q = StringSource::ParamsNamedPartitioning { name: Box::new(a), element: Box::new(b) }; let v = w.view(); let g = q.get(&v).ok();
        sym::observe(g.is_some() as u64); match (&g, want) { (None, None) => sym::cover("error"), (Some(g), Some(x)) => { sym::cover("answer"); sym::check(g.as_deref() == x, "partition-exact"); } _ => sym::check(false, "errors-where-specified") }
    }
    fn h_c16_string_conditions() {
        let w = world(&None); let v = w.view(); let src = || match sym::choose(3) { 0 => (StringSource::None, Some(None)), 1 => (StringSource::Error("e".into()), None), _ => { let t = sym::text(2, 1); (s(&t), Some(Some(t))) } };
        let (a, ao) = src(); let (b, bo) = src();
        let (q, x) = match sym::choose(3) {
            0 => (Condition::StringIs { left: a, right: b }, match (&ao, &bo) { (Some(a), Some(b)) => Some(sym::same_opt(a.as_deref(), b.as_deref())), _ => None }),
            1 => { let e = sym::flip(); (Condition::StringContains { value: a, substring: b, r#where: if e { StringLocation::End } else { StringLocation::Anywhere } }, match (&ao, &bo) { (Some(Some(a)), Some(Some(b))) => Some(if e { a.len() >= b.len() && sym::same_bytes(&a.as_bytes()[a.len() - b.len()..], b.as_bytes()) } else { find(a.as_bytes(), b.as_bytes(), 0).is_some() }), _ => None }) }
            _ => (Condition::StringMatches { value: a, matcher: StringMatcher::Is(b) }, match (&ao, &bo) { (Some(Some(a)), Some(Some(b))) => Some(sym::same(a, b)), _ => None }),
        };
        let g = q.satisfied_by(&v).ok(); sym::observe(g.map_or(9, |x| x as u64)); match (g, x) { (None, None) => sym::cover("error"), (Some(g), Some(x)) => { sym::cover("answer"); sym::check(g == x, "answer-exact"); } (Some(_), None) => sym::check(false, "errors-where-specified"), (None, Some(_)) => sym::check(false, "answers-where-specified") }
    }
}
