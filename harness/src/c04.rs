//! C04: boolean and error combinators of conditions and matchers.
use crate::ctx::*;
const H: &str = "https://example.com/";
/// Outcome: 1 true, 0 false, else an error whose identity is the byte string.
#[derive(Clone, PartialEq)]
enum O { B(bool), E(Vec<u8>) }
fn both(a: Vec<u8>, b: Vec<u8>) -> O { let mut r = vec![254]; r.extend(a); r.push(253); r.extend(b); O::E(r) }
/// Which errors a handler handles: all, none, only explicit ones, only absent parts, only double failures.
#[derive(Clone, Copy, PartialEq)]
enum Fl { All, Explicit, Absent, Both, Nothing }
fn handles(f: Fl, e: &[u8]) -> bool { match f { Fl::All => true, Fl::Explicit => e[0] < 100, Fl::Absent => e[0] == 250, Fl::Both => e[0] == 254, Fl::Nothing => false } }
enum T { Leaf(usize), If(Box<T>, Box<T>, Box<T>), Not(Box<T>), All(Vec<T>), Any(Vec<T>), Pass(Box<T>, Fl), Fail(Box<T>, Fl), Try(Box<T>, Box<T>, Fl), First(Vec<T>) }
fn reference(t: &T, leaf: &dyn Fn(usize) -> O) -> O { match t {
    T::Leaf(i) => leaf(*i),
    T::If(a, b, c) => match reference(a, leaf) { O::B(true) => reference(b, leaf), O::B(false) => reference(c, leaf), e => e },
    T::Not(a) => match reference(a, leaf) { O::B(x) => O::B(!x), e => e },
    T::All(v) => { for x in v { match reference(x, leaf) { O::B(true) => (), o => return o } } O::B(true) }
    T::Any(v) => { for x in v { match reference(x, leaf) { O::B(false) => (), o => return o } } O::B(false) }
    T::Pass(a, f) => match reference(a, leaf) { O::E(e) if handles(*f, &e) => O::B(true), o => o },
    T::Fail(a, f) => match reference(a, leaf) { O::E(e) if handles(*f, &e) => O::B(false), o => o },
    T::Try(a, b, f) => match reference(a, leaf) { O::E(e) if handles(*f, &e) => match reference(b, leaf) { O::E(g) => both(e, g), o => o }, o => o },
    T::First(v) => { let mut r = O::B(false); for x in v { r = reference(x, leaf); if let O::B(_) = r { return r; } } r }
} }
/// What the tree is over.
struct Gen { leaves: usize, filters: bool, first: bool, arity: u8 }
impl Gen {
    fn leaf(&mut self) -> T { self.leaves += 1; T::Leaf(self.leaves - 1) }
    fn fl(&mut self) -> Fl { if self.filters { sym::pick(&[Fl::All, Fl::Explicit, Fl::Absent, Fl::Both, Fl::Nothing]) } else { Fl::All } }
    /// A combinator over leaves, one of which (`nest` levels down) is itself a combinator.
    fn node(&mut self, nest: usize) -> T {
        let k = sym::choose(if self.first { 8 } else { 7 });
        let n = match k { 0 => 3, 1 | 4 | 5 => 1, 6 => 2, 7 => 1 + sym::choose(self.arity), _ => sym::choose(self.arity + 1) };
        let at = if nest > 0 && n > 0 { sym::choose(n as u8) } else { n };
        let mut v: Vec<T> = (0..n).map(|i| if i == at { self.node(nest - 1) } else { self.leaf() }).collect();
        let mut p = || Box::new(v.remove(0));
        match k { 0 => T::If(p(), p(), p()), 1 => T::Not(p()), 2 => T::All(v), 3 => T::Any(v), 4 => T::Pass(p(), self.fl()), 5 => T::Fail(p(), self.fl()), 6 => T::Try(p(), p(), self.fl()), _ => T::First(v) }
    }
}
fn expect(got: O, want: O) {
    sym::observe(match &got { O::B(b) => *b as u64, O::E(e) => { sym::observe_bytes(e); 2 } });
    match &want { O::B(true) => sym::cover("pass"), O::B(false) => sym::cover("fail"), O::E(e) => sym::cover(if e[0] == 254 { "both-errors" } else { "error" }) }
    match (&got, &want) { (O::B(a), O::B(b)) => sym::check(a == b, "answer-as-specified"), (O::E(a), O::E(b)) => sym::check(a == b, "error-as-specified"), _ => sym::check(false, "error-exactly-where-specified") }
}
// ---- conditions: leaves are custom functions with symbolic outcomes
static mut OUT: [u8; 12] = [0; 12];
fn cond<const N: usize>(_: &TaskStateView) -> Result<bool, ConditionError> { match unsafe { OUT[N] } { 0 => Ok(false), 1 => Ok(true), 2 => Err(ConditionError::ExplicitError(String::from(DIG[N]))), _ => Err(ConditionError::PartIsNone) } }
const DIG: [&str; 12] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B"];
const CONDS: [fn(&TaskStateView) -> Result<bool, ConditionError>; 12] = [cond::<0>, cond::<1>, cond::<2>, cond::<3>, cond::<4>, cond::<5>, cond::<6>, cond::<7>, cond::<8>, cond::<9>, cond::<10>, cond::<11>];
fn smat<const N: usize>(_: &str, _: &TaskStateView) -> Result<bool, StringMatcherError> { match unsafe { OUT[N] } { 0 => Ok(false), 1 => Ok(true), 2 => Err(StringMatcherError::ExplicitError(String::from(DIG[N]))), _ => Err(StringMatcherError::SegmentNotFound) } }
const SMATS: [fn(&str, &TaskStateView) -> Result<bool, StringMatcherError>; 12] = [smat::<0>, smat::<1>, smat::<2>, smat::<3>, smat::<4>, smat::<5>, smat::<6>, smat::<7>, smat::<8>, smat::<9>, smat::<10>, smat::<11>];
fn draw(n: usize) { for i in 0..n { let b = sym::u8(); sym::assume(b < 4); unsafe { OUT[i] = b } } }
fn leaf_out(i: usize) -> O { match unsafe { OUT[i] } { 0 => O::B(false), 1 => O::B(true), 2 => O::E(vec![DIG[i].as_bytes()[0]]), _ => O::E(vec![250]) } }
fn names(f: Fl) -> ConditionErrorFilter { use ConditionErrorNames as N; ConditionErrorFilter(match f { Fl::All => None, Fl::Explicit => Some([N::ExplicitError, N::StringSourceIsNone].into_iter().collect()), Fl::Absent => Some([N::PartIsNone].into_iter().collect()), Fl::Both => Some([N::TryElseError].into_iter().collect()), Fl::Nothing => Some(Default::default()) }) }
fn c(t: &T) -> Condition { let b = |t: &T| Box::new(c(t)); match t {
    T::Leaf(i) => Condition::Custom(CONDS[*i]), T::If(x, y, z) => Condition::If { r#if: b(x), then: b(y), r#else: b(z) }, T::Not(x) => Condition::Not(b(x)), T::All(v) => Condition::All(v.iter().map(c).collect()), T::Any(v) => Condition::Any(v.iter().map(c).collect()),
    T::Pass(x, f) => Condition::TreatErrorAsPass { condition: b(x), filter: names(*f) }, T::Fail(x, f) => Condition::TreatErrorAsFail { condition: b(x), filter: names(*f) }, T::Try(x, y, f) => Condition::TryElse { r#try: b(x), r#else: b(y), filter: names(*f) }, T::First(_) => unreachable!() } }
fn cerr(e: ConditionError) -> Vec<u8> { match e { ConditionError::ExplicitError(m) => m.into_bytes(), ConditionError::PartIsNone => vec![250], ConditionError::TryElseError { try_error, else_error } => { let O::E(r) = both(cerr(*try_error), cerr(*else_error)) else { unreachable!() }; r } _ => vec![99] } }
fn serr(e: StringMatcherError) -> Vec<u8> { match e { StringMatcherError::ExplicitError(m) => m.into_bytes(), StringMatcherError::SegmentNotFound => vec![250], StringMatcherError::TryElseError { try_error, else_error } => { let O::E(r) = both(serr(*try_error), serr(*else_error)) else { unreachable!() }; r } _ => vec![99] } }
fn lerr(e: StringLocationError) -> Vec<u8> { match e { StringLocationError::ExplicitError(m) => m.into_bytes(), StringLocationError::SegmentNotFound => vec![250], StringLocationError::TryElseError { try_error, else_error } => { let O::E(r) = both(lerr(*try_error), lerr(*else_error)) else { unreachable!() }; r } _ => vec![99] } }
fn herr(e: CharMatcherError) -> Vec<u8> { match e { CharMatcherError::InvalidRadix(r) => vec![DIG[r as usize - 100].as_bytes()[0]], CharMatcherError::ExplicitError => vec![250], CharMatcherError::TryElseError { try_error, else_error } => { let O::E(r) = both(herr(*try_error), herr(*else_error)) else { unreachable!() }; r } } }
fn o<E>(r: Result<bool, E>, f: fn(E) -> Vec<u8>) -> O { match r { Ok(b) => O::B(b), Err(e) => O::E(f(e)) } }
macro_rules! simple { ($f:ident, $t:ident, $leaf:expr) => { fn $f(t: &T) -> $t { let b = |t: &T| Box::new($f(t)); match t {
    T::Leaf(i) => $leaf(*i), T::If(x, y, z) => $t::If { r#if: b(x), then: b(y), r#else: b(z) }, T::Not(x) => $t::Not(b(x)), T::All(v) => $t::All(v.iter().map($f).collect()), T::Any(v) => $t::Any(v.iter().map($f).collect()),
    T::Pass(x, _) => $t::TreatErrorAsPass(b(x)), T::Fail(x, _) => $t::TreatErrorAsFail(b(x)), T::Try(x, y, _) => $t::TryElse { r#try: b(x), r#else: b(y) }, T::First(v) => $t::FirstNotError(v.iter().map($f).collect()) } } } }
simple!(sm, StringMatcher, |i: usize| StringMatcher::Custom(SMATS[i]));
// haystack "a-b", needle "a": segment 0 is it, segment 1 is not, segment 2 does not exist
simple!(lo, StringLocation, |i: usize| match unsafe { OUT[i] } { 2 => StringLocation::Error(DIG[i].to_string()), 3 => StringLocation::NthSegment { split: "-".into(), n: 2, location: Box::new(StringLocation::Equals) }, k => StringLocation::NthSegment { split: "-".into(), n: 1 - k as isize, location: Box::new(StringLocation::Equals) } });
// char '5': a digit of radix 6 and up
simple!(hm, CharMatcher, |i: usize| match unsafe { OUT[i] } { 2 => CharMatcher::IsDigitRadix(100 + i as u32), 3 => CharMatcher::Error, 0 => CharMatcher::Never, _ => CharMatcher::IsDigitRadix(10) });
fn conditions(nest: usize, arity: u8) { let mut g = Gen { leaves: 0, filters: true, first: false, arity }; let t = g.node(nest); draw(g.leaves); let w = W::new(H); expect(o(c(&t).satisfied_by(&w.view()), cerr), reference(&t, &leaf_out)); }
fn matchers(nest: usize, arity: u8) { let mut g = Gen { leaves: 0, filters: false, first: true, arity }; let t = g.node(nest); draw(g.leaves); let w = W::new(H); expect(o(sm(&t).satisfied_by("a", &w.view()), serr), reference(&t, &leaf_out)); }
fn locations(nest: usize, arity: u8) { let mut g = Gen { leaves: 0, filters: false, first: true, arity }; let t = g.node(nest); draw(g.leaves); expect(o(lo(&t).satisfied_by("a-b", "a"), lerr), reference(&t, &leaf_out)); }
fn chars(nest: usize, arity: u8) { let mut g = Gen { leaves: 0, filters: false, first: true, arity }; let t = g.node(nest); draw(g.leaves); expect(o(hm(&t).satisfied_by('5'), herr), reference(&t, &leaf_out)); }
harnesses! {
fn h_c04_conditions() { conditions(0, 3) }
fn h_c04_conditions_nested() { conditions(1, 2) }
fn h_c04_matchers() { matchers(0, 3) }
fn h_c04_matchers_nested() { matchers(1, 2) }
fn h_c04_locations() { locations(0, 3) }
fn h_c04_locations_nested() { locations(1, 2) }
fn h_c04_chars() { chars(0, 3) }
fn h_c04_chars_nested() { chars(1, 2) }
/// Constants and named shared items.
fn h_c04_constants() { let w = W::new(H); let v = w.view(); let x = sym::text(1, 2); use StringMatcher as S;
    let r = match sym::choose(9) { 0 => o(Condition::Always.satisfied_by(&v), cerr) == O::B(true), 1 => o(Condition::Never.satisfied_by(&v), cerr) == O::B(false), 2 => o(Condition::Error("m".into()).satisfied_by(&v), cerr) == O::E(b"m".to_vec()), 3 => o(S::Always.satisfied_by(&x, &v), serr) == O::B(true), 4 => o(S::Never.satisfied_by(&x, &v), serr) == O::B(false),
        5 => o(S::Error("m".into()).satisfied_by(&x, &v), serr) == O::E(b"m".to_vec()), 6 => o(StringLocation::Error("m".into()).satisfied_by(&x, &x), lerr) == O::E(b"m".to_vec()), 7 => CharMatcher::Always.satisfied_by('a').ok() == Some(true) && CharMatcher::Never.satisfied_by('a').ok() == Some(false), _ => matches!(CharMatcher::Error.satisfied_by('a'), Err(CharMatcherError::ExplicitError)) };
    sym::cover("constant"); sym::check(r, "constants"); }
fn h_c04_conditions_deep() { conditions(2, 2) }
fn h_c04_matchers_deep() { matchers(2, 2) }
fn h_c04t_locations() { locations(1, 3) }
fn h_c04t_chars() { chars(1, 3) }
}
