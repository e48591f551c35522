//! C05: sequencing, choice, repetition and error recovery of mappers, rules and string modifications.
use crate::ctx::*;
use std::time::Duration;
const H: &str = "https://example.com/p?q=1";
/// The observable state: a scratchpad variable and the URL's fragment.
#[derive(Clone, PartialEq)]
struct St { pad: String, frag: String, flags: [bool; 10], sub: String }
type Er = Vec<u8>;
/// Every leaf call takes the next entry of the tape: bit 0 writes the scratchpad, bit 1 writes the URL, bit 2 fails afterwards.
const N: usize = 16;
static mut TAPE: [u8; N] = [0; N];
static mut POS: usize = 0;
/// What a leaf does once the tape is used up, and where its writes go: a variable and the fragment, or a flag and the subdomain.
static mut REST: u8 = 0;
static mut OTHER: bool = false;
fn other() -> bool { unsafe { OTHER } }
const REST_OF: [u8; 9] = [1, 1, 5, 1, 3, 7, 0, 3, 7];
fn next() -> u8 { unsafe { let p = POS; POS += 1; if p >= N { REST } else { TAPE[p] } } }
const DIG: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
#[derive(Clone)]
enum M { Leaf(usize), None, If(usize, Box<M>, Option<Box<M>>), Chain(Vec<(usize, M)>), All(Vec<M>), Ignore(Box<M>), Revert(Box<M>), Try(Box<M>, Box<M>), First(Vec<M>), Retry(Box<M>, u8), Normal(usize, Box<M>, Option<Box<M>>), Repeat(Vec<M>, u64), Shared(usize, Vec<M>), Rules(Vec<M>) }
fn cond(i: usize) -> Result<bool, Er> { match next() & 3 { 0 => Ok(false), 1 | 2 => Ok(true), _ => Err(vec![b'c', i as u8]) } }
fn both(a: Er, b: Er) -> Er { let mut r = vec![254]; r.extend(a); r.push(253); r.extend(b); r }
fn seq(v: &[M], s: &mut St) -> Result<(), Er> { for x in v { run(x, s)?; } Ok(()) }
fn run(m: &M, s: &mut St) -> Result<(), Er> { match m {
    M::Leaf(i) => { let t = next(); if t & 1 != 0 { if other() { s.flags[*i] ^= true; } else { s.pad.push_str(DIG[*i]); } } if t & 2 != 0 { if other() { s.sub.push_str(DIG[*i]); } else { s.frag.push_str(DIG[*i]); } } if t & 4 != 0 { Err(vec![b'm', *i as u8]) } else { Ok(()) } }
    M::None => Ok(()),
    M::If(c, a, b) | M::Normal(c, a, b) => if cond(*c)? { run(a, s) } else if let Some(b) = b { run(b, s) } else { Ok(()) },
    M::Chain(v) => { for (c, x) in v { if cond(*c)? { return run(x, s); } } Ok(()) }
    M::All(v) | M::Rules(v) => seq(v, s),
    M::Ignore(x) => { let _ = run(x, s); Ok(()) }
    M::Revert(x) => { let old = s.clone(); let r = run(x, s); if r.is_err() { *s = old; } r }
    M::Try(a, b) => match run(a, s) { Ok(()) => Ok(()), Err(e) => run(b, s).map_err(|f| both(e, f)) },
    M::First(v) => { let mut r = Ok(()); for x in v { r = run(x, s); if r.is_ok() { break; } } r }
    M::Retry(x, n) => { let mut r = Ok(()); for _ in 0..*n { r = run(x, s); if r.is_ok() { break; } } r }
    M::Repeat(v, n) => { for _ in 0..*n { let old = s.clone(); seq(v, s)?; if *s == old { break; } } Ok(()) }
    M::Shared(c, v) => if cond(*c)? { seq(v, s) } else { Ok(()) },
} }
// ---- the real thing
fn cmsg(i: usize) -> ConditionError { ConditionError::ExplicitError(format_c(i)) }
fn format_c(i: usize) -> String { let mut s = String::from("c"); s.push(i as u8 as char); s }
fn cleaf<const I: usize>(_: &TaskStateView) -> Result<bool, ConditionError> { match next() & 3 { 0 => Ok(false), 1 | 2 => Ok(true), _ => Err(cmsg(I)) } }
const CL: [fn(&TaskStateView) -> Result<bool, ConditionError>; 10] = [cleaf::<0>, cleaf::<1>, cleaf::<2>, cleaf::<3>, cleaf::<4>, cleaf::<5>, cleaf::<6>, cleaf::<7>, cleaf::<8>, cleaf::<9>];
fn mleaf<const I: usize>(t: &mut TaskState) -> Result<(), MapperError> {
    let b = next();
    if other() {
        if b & 1 != 0 { if !t.scratchpad.flags.remove(DIG[I]) { t.scratchpad.flags.insert(DIG[I].to_string()); } }
        if b & 2 != 0 { let mut s = t.url.subdomain().unwrap_or("").to_string(); s.push_str(DIG[I]); if t.url.set_subdomain(Some(&s)).is_err() { sym::check(false, "subdomain-settable"); } }
    } else if b & 1 != 0 { t.scratchpad.vars.entry("t".to_string()).or_default().push_str(DIG[I]); }
    if !other() && b & 2 != 0 { let mut f = t.url.fragment().unwrap_or("").to_string(); f.push_str(DIG[I]); t.url.set_fragment(Some(&f)); }
    if b & 4 != 0 { let mut s = String::from("m"); s.push(I as u8 as char); Err(MapperError::ExplicitError(s)) } else { Ok(()) }
}
const ML: [fn(&mut TaskState) -> Result<(), MapperError>; 10] = [mleaf::<0>, mleaf::<1>, mleaf::<2>, mleaf::<3>, mleaf::<4>, mleaf::<5>, mleaf::<6>, mleaf::<7>, mleaf::<8>, mleaf::<9>];
fn c(i: usize) -> Condition { Condition::Custom(CL[i]) }
fn mp(m: &M) -> Mapper { let b = |x: &M| Box::new(mp(x)); match m {
    M::Leaf(i) => Mapper::Custom(ML[*i]), M::None => Mapper::None, M::If(i, x, y) => Mapper::If { condition: c(*i), mapper: b(x), else_mapper: y.as_ref().map(|y| b(y)) }, M::Chain(v) => Mapper::ConditionChain(v.iter().map(|(i, x)| ConditionChainLink { condition: c(*i), mapper: mp(x) }).collect()),
    M::All(v) => Mapper::All(v.iter().map(mp).collect()), M::Ignore(x) => Mapper::IgnoreError(b(x)), M::Revert(x) => Mapper::RevertOnError(b(x)), M::Try(x, y) => Mapper::TryElse { r#try: b(x), r#else: b(y) }, M::First(v) => Mapper::FirstNotError(v.iter().map(mp).collect()),
    M::Retry(x, n) => Mapper::Retry { mapper: b(x), delay: Duration::ZERO, limit: *n }, M::Rules(v) => Mapper::Rules(rules(v)), r => Mapper::Rule(Box::new(ru(r))) } }
fn ru(m: &M) -> Rule { match m { M::Normal(i, x, y) => Rule::Normal { condition: c(*i), mapper: mp(x), else_mapper: y.as_ref().map(|y| mp(y)) }, M::Repeat(v, n) => Rule::Repeat { rules: rules(v), limit: *n }, M::Shared(i, v) => Rule::SharedCondition { condition: c(*i), rules: rules(v) }, M::Rules(v) => Rule::Rules(rules(v)), x => Rule::Mapper(mp(x)) } }
fn rules(v: &[M]) -> Rules { Rules(v.iter().map(ru).collect()) }
fn cerr(e: ConditionError) -> Er { match e { ConditionError::ExplicitError(m) => m.into_bytes(), _ => vec![0] } }
fn merr(e: MapperError) -> Er { match e { MapperError::ExplicitError(m) => m.into_bytes(), MapperError::ConditionError(e) => cerr(e), MapperError::RuleError(e) => rerr(*e), MapperError::TryElseError { try_error, else_error } => both(merr(*try_error), merr(*else_error)), _ => vec![1] } }
fn rerr(e: RuleError) -> Er { match e { RuleError::ConditionError(e) => cerr(e), RuleError::MapperError(e) => merr(e), _ => vec![2] } }
/// Tree shapes: a combinator over leaves; the `at`-th child is itself a combinator.
struct Gen { leaves: usize, conds: usize, arity: u8, lim: u8 }
impl Gen {
    fn leaf(&mut self) -> M { self.leaves += 1; M::Leaf(self.leaves - 1) }
    fn cond(&mut self) -> usize { self.conds += 1; self.conds - 1 }
    fn kids(&mut self, n: usize, nest: usize) -> Vec<M> { let at = if nest > 0 && n > 0 { sym::choose(n as u8) } else { n }; (0..n).map(|i| if i == at { self.node(nest - 1) } else { self.leaf() }).collect() }
    fn node(&mut self, nest: usize) -> M {
        match sym::choose(13) {
            0 => { let e = sym::choose(2); let c = self.cond(); let mut v = self.kids(1 + e, nest); let a = v.remove(0); M::If(c, Box::new(a), v.pop().map(Box::new)) }
            1 => { let e = sym::choose(2); let c = self.cond(); let mut v = self.kids(1 + e, nest); let a = v.remove(0); M::Normal(c, Box::new(a), v.pop().map(Box::new)) }
            2 => { let n = sym::choose(self.arity + 1); let v = self.kids(n, nest); M::Chain(v.into_iter().map(|x| (self.cond(), x)).collect()) }
            3 => { let n = sym::choose(self.arity + 1); M::All(self.kids(n, nest)) }
            4 => M::Ignore(Box::new(self.kids(1, nest).remove(0))), 5 => M::Revert(Box::new(self.kids(1, nest).remove(0))),
            6 => { let mut v = self.kids(2, nest); let a = v.remove(0); M::Try(Box::new(a), Box::new(v.remove(0))) }
            7 => { let n = sym::choose(self.arity + 1); M::First(self.kids(n, nest)) }
            8 => { let n = sym::choose(self.lim + 1) as u8; M::Retry(Box::new(self.kids(1, nest).remove(0)), n) }
            9 => { let n = sym::choose(self.lim + 1) as u64; let k = 1 + sym::choose(self.arity); M::Repeat(self.kids(k, nest), n) }
            10 => { let c = self.cond(); let n = sym::choose(self.arity + 1); M::Shared(c, self.kids(n, nest)) }
            11 => { let n = sym::choose(self.arity + 1); M::Rules(self.kids(n, nest)) }
            _ => M::None,
        }
    }
}
/// `full`: every combination of effects; otherwise a leaf does nothing, does both, or does both and fails.
fn tape(full: bool) { unsafe { POS = 0; for i in 0..N { let b = sym::u8(); sym::assume(if full { b < 8 } else { (b == 0) | (b == 3) | (b == 7) }); TAPE[i] = b; } } }
fn decide(m: &M, as_rule: bool) {
    let mut w = W::new(H); let before = w.url.as_str().to_string();
    let got = { let mut t = w.state(); if as_rule { rules(std::slice::from_ref(m)).apply(&mut t).map_err(rerr) } else { mp(m).apply(&mut t).map_err(merr) } };
    let calls = unsafe { let p = POS; POS = 0; p }; let mut s = St { pad: String::new(), frag: String::new(), flags: [false; 10], sub: String::new() }; let want = run(m, &mut s); let wcalls = unsafe { POS };
    sym::observe(calls as u64); sym::observe(got.is_ok() as u64);
    sym::cover(if want.is_ok() { "ok" } else { "error" });
    sym::check(got == want, "outcome-as-specified"); sym::check(calls == wcalls, "steps-as-specified");
    sym::check(w.scratchpad.vars.get("t").map_or("", |x| &**x) == s.pad, "scratchpad-as-specified"); sym::check(w.url.fragment().unwrap_or("") == s.frag, "url-as-specified");
    if other() { sym::check((0..10).all(|i| w.scratchpad.flags.contains(DIG[i]) == s.flags[i]), "flags-as-specified"); sym::check(w.url.subdomain().unwrap_or("") == s.sub, "host-details-as-specified"); let mut u = String::from("https://"); if !s.sub.is_empty() { u.push_str(&s.sub); u.push('.'); } u.push_str("example.com/p?q=1"); sym::check(w.url.as_str() == u, "whole-url-as-specified"); return; }
    let mut u = before; if !s.frag.is_empty() { u.push('#'); u.push_str(&s.frag); } sym::check(w.url.as_str() == u || w.url.as_str().len() == u.len() + 1, "rest-of-url-untouched");
}
fn all(nest: usize, arity: u8, lim: u8, full: bool, as_rule: bool) { let mut g = Gen { leaves: 0, conds: 0, arity, lim }; let m = g.node(nest); tape(full); decide(&m, as_rule) }
// ---- string modifications
#[derive(Clone)]
enum S { Leaf(usize), None, If(usize, Box<S>, Option<Box<S>>), Match(usize, Box<S>, Option<Box<S>>), All(Vec<S>), Ignore(Box<S>), Revert(Box<S>), Try(Box<S>, Box<S>), First(Vec<S>) }
fn srun(m: &S, s: &mut String) -> Result<(), Er> { match m {
    S::Leaf(i) => { let t = next(); if t & 1 != 0 { s.push_str(DIG[*i]); } if t & 4 != 0 { Err(vec![b'm', *i as u8]) } else { Ok(()) } }
    S::None => Ok(()), S::If(c, a, b) => if cond(*c)? { srun(a, s) } else if let Some(b) = b { srun(b, s) } else { Ok(()) },
    S::Match(c, a, b) => { let l = s.len() as u8; if cond(*c).map_err(|mut e| { e.push(l); e })? { srun(a, s) } else if let Some(b) = b { srun(b, s) } else { Ok(()) } }
    S::All(v) => { for x in v { srun(x, s)?; } Ok(()) } S::Ignore(x) => { let _ = srun(x, s); Ok(()) } S::Revert(x) => { let old = s.clone(); let r = srun(x, s); if r.is_err() { *s = old; } r }
    S::Try(a, b) => match srun(a, s) { Ok(()) => Ok(()), Err(e) => srun(b, s).map_err(|f| both(e, f)) }, S::First(v) => { let mut r = Ok(()); for x in v { r = srun(x, s); if r.is_ok() { break; } } r }
} }
fn sleaf<const I: usize>(s: &mut String, _: &TaskStateView) -> Result<(), StringModificationError> { let b = next(); if b & 1 != 0 { s.push_str(DIG[I]); } if b & 4 != 0 { let mut m = String::from("m"); m.push(I as u8 as char); Err(StringModificationError::ExplicitError(m)) } else { Ok(()) } }
const SL: [fn(&mut String, &TaskStateView) -> Result<(), StringModificationError>; 8] = [sleaf::<0>, sleaf::<1>, sleaf::<2>, sleaf::<3>, sleaf::<4>, sleaf::<5>, sleaf::<6>, sleaf::<7>];
/// The error carries the length of the string the matcher was shown.
fn xleaf<const I: usize>(h: &str, _: &TaskStateView) -> Result<bool, StringMatcherError> { match next() & 3 { 0 => Ok(false), 1 | 2 => Ok(true), _ => { let mut s = format_c(I); s.push(h.len() as u8 as char); Err(StringMatcherError::ExplicitError(s)) } } }
const XL: [fn(&str, &TaskStateView) -> Result<bool, StringMatcherError>; 4] = [xleaf::<0>, xleaf::<1>, xleaf::<2>, xleaf::<3>];
fn sp(m: &S) -> StringModification { use StringModification as K; let b = |x: &S| Box::new(sp(x)); match m { S::Leaf(i) => K::Custom(SL[*i]), S::None => K::None, S::If(i, x, y) => K::If { condition: Box::new(c(*i)), then: b(x), r#else: y.as_ref().map(|y| b(y)) }, S::Match(i, x, y) => K::IfMatches { matcher: Box::new(StringMatcher::Custom(XL[*i])), then: b(x), r#else: y.as_ref().map(|y| b(y)) },
    S::All(v) => K::All(v.iter().map(sp).collect()), S::Ignore(x) => K::IgnoreError(b(x)), S::Revert(x) => K::RevertOnError(b(x)), S::Try(x, y) => K::TryElse { r#try: b(x), r#else: b(y) }, S::First(v) => K::FirstNotError(v.iter().map(sp).collect()) } }
fn serr(e: StringModificationError) -> Er { match e { StringModificationError::ExplicitError(m) => m.into_bytes(), StringModificationError::TryElseError { try_error, else_error } => both(serr(*try_error), serr(*else_error)), StringModificationError::ConditionError(e) => cerr(*e), StringModificationError::StringMatcherError(e) => match *e { StringMatcherError::ExplicitError(m) => m.into_bytes(), _ => vec![3] }, _ => vec![4] } }
impl Gen {
    fn skids(&mut self, n: usize, nest: usize) -> Vec<S> { let at = if nest > 0 && n > 0 { sym::choose(n as u8) } else { n }; (0..n).map(|i| if i == at { self.snode(nest - 1) } else { self.leaves += 1; S::Leaf(self.leaves - 1) }).collect() }
    fn snode(&mut self, nest: usize) -> S { match sym::choose(8) {
        k @ (0 | 1) => { let e = sym::choose(2); let c = self.cond(); let mut v = self.skids(1 + e, nest); let a = Box::new(v.remove(0)); let b = v.pop().map(Box::new); if k == 0 { S::If(c, a, b) } else { S::Match(c, a, b) } }
        2 => { let n = sym::choose(self.arity + 1); S::All(self.skids(n, nest)) } 3 => S::Ignore(Box::new(self.skids(1, nest).remove(0))), 4 => S::Revert(Box::new(self.skids(1, nest).remove(0))),
        5 => { let mut v = self.skids(2, nest); let a = v.remove(0); S::Try(Box::new(a), Box::new(v.remove(0))) } 6 => { let n = sym::choose(self.arity + 1); S::First(self.skids(n, nest)) } _ => S::None } }
}
fn strings(nest: usize, arity: u8) { let mut g = Gen { leaves: 0, conds: 0, arity, lim: 0 }; let m = g.snode(nest); tape(false); let w = W::new(H);
    let mut x = String::from("s"); let got = sp(&m).apply(&mut x, &w.view()).map_err(serr); let calls = unsafe { let p = POS; POS = 0; p }; let mut y = String::from("s"); let want = srun(&m, &mut y); let wcalls = unsafe { POS };
    sym::observe(calls as u64); sym::observe_bytes(x.as_bytes()); sym::cover(if want.is_ok() { "ok" } else { "error" }); sym::check(got == want, "outcome-as-specified"); sym::check(calls == wcalls, "steps-as-specified"); sym::check(x == y, "string-as-specified"); }
harnesses! {
fn h_c05_mappers() { all(0, 2, 3, true, false) }
fn h_c05_rules() { all(0, 2, 3, true, true) }
fn h_c05_mappers_nested() { all(1, 2, 2, false, false) }
fn h_c05_strings() { strings(0, 3) }
fn h_c05_strings_nested() { strings(1, 2) }
/// Repetition stops at the limit and exactly when a pass changes nothing.
fn h_c05_repeat() { let lim = sym::choose(7) as u64; tape(true); decide(&M::Repeat(vec![M::Leaf(0)], lim), true) }
/// Retrying stops at the first success.
fn h_c05_retry() { let lim = sym::choose(7) as u8; tape(true); decide(&M::Retry(Box::new(M::Leaf(0)), lim), false) }
/// The same where the writes are flags and the host, whose details are cached.
fn h_c05_repeat_flags() { unsafe { OTHER = true; } let lim = sym::choose(4) as u64; tape(true); decide(&M::Repeat(vec![M::Leaf(0)], lim), true) }
fn h_c05_flags() { unsafe { OTHER = true; } all(0, 2, 2, false, false) }
fn h_c05_flags_nested() { unsafe { OTHER = true; } all(1, 2, 2, false, true) }
/// Long sequences and large limits.
fn h_c05_many() { let k = sym::choose(9); tape(true); unsafe { for i in 0..N { sym::assume(TAPE[i] == REST_OF[k]); TAPE[i] = REST_OF[k]; } REST = REST_OF[k]; } let many = |n: usize| (0..n).map(|i| M::Leaf(i % 10)).collect::<Vec<_>>();
    match k { 0 => decide(&M::Repeat(vec![M::Leaf(3)], 255), true), 1 => decide(&M::Repeat(vec![M::Leaf(3)], 257), true), 2 => decide(&M::Retry(Box::new(M::Leaf(2)), 255), false), 3 => decide(&M::All(many(270)), false), 4 => decide(&M::Rules(many(270)), true), 5 => decide(&M::First(many(270)), false), 6 => decide(&M::Chain(many(40).into_iter().enumerate().map(|(_, x)| (5, x)).collect()), false), 7 => decide(&M::Repeat(many(3), 100), true), _ => decide(&M::Retry(Box::new(M::Leaf(2)), 254), false) } }
/// Between two attempts, and only there, it waits.
fn h_c05_retry_delay() { let lim = sym::choose(5) as u8; for i in 0..lim as usize { unsafe { TAPE[i] = [1, 5][sym::choose(2)]; } } let n = (0..lim as usize).take_while(|i| unsafe { TAPE[*i] } & 4 != 0).count(); let waits = n.min((lim as usize).saturating_sub(1)) as u32; sym::conc(waits as u64);
    let d = Duration::from_millis(20); let from = std::time::Instant::now(); let m = Mapper::Retry { mapper: Box::new(Mapper::Custom(ML[0])), delay: d, limit: lim }; let mut w = W::new(H); let r = { let mut t = w.state(); m.apply(&mut t) }; let took = from.elapsed();
    sym::cover(if waits > 1 { "waits" } else { "few" }); sym::check(r.is_ok() == (lim == 0 || n < lim as usize), "succeeds-with-an-attempt"); sym::check(took >= d * waits, "waits-before-retrying"); sym::check(took < d * (waits + 1), "waits-only-before-retrying") }
fn h_c05_constants() { let mut w = W::new(H); let mut t = w.state(); sym::cover("constants"); sym::check(Mapper::None.apply(&mut t).is_ok(), "nothing"); sym::check(matches!(Mapper::Error("x".into()).apply(&mut t), Err(MapperError::ExplicitError(m)) if m == "x"), "explicit-error"); sym::check(w.url.as_str() == H && w.scratchpad == JobScratchpad::default(), "untouched"); }
fn h_c05t_mappers_nested() { all(1, 3, 3, false, true) }
fn h_c05t_strings_nested() { strings(2, 2) }
}
