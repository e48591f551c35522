//! C18: jobs, tasks and the tests of a config.
use crate::ctx::*;
use url_cleaner::testing::{Test, TestSet, Tests};
use std::borrow::Cow;
use std::sync::atomic::{AtomicUsize, Ordering};
fn b<T>(x: T) -> Box<T> { Box::new(x) }
fn var(t: VarType, n: &str) -> StringSource { StringSource::Var(b(VarRef { r#type: t, name: s(n) })) }
fn flag(t: FlagType, n: &str) -> Condition { Condition::FlagIsSet(FlagRef { r#type: t, name: s(n) }) }
fn when(c: Condition, m: Mapper) -> Rule { Rule::Normal { condition: c, mapper: m, else_mapper: None } }
fn has(v: StringSource) -> Condition { Condition::Not(b(Condition::StringIs { left: v, right: StringSource::None })) }
fn frag(v: StringSource) -> Mapper { Mapper::SetPart { part: UrlPart::Fragment, value: v } }
/// A config whose outcome shows everything a task is given: `URL?job-variable#task-variable`, marked if anything of another task is visible.
fn config() -> Config { let mut c = Config { docs: Default::default(), #[cfg(feature = "full")] cache_path: Default::default(), params: Default::default(), commons: Default::default(), rules: Rules(vec![
    when(flag(FlagType::Scratchpad, "seen"), Mapper::SetHost(Some("leaked.flag".into()))), when(has(var(VarType::Scratchpad, "v")), Mapper::SetHost(Some("leaked.var".into()))),
    Rule::Mapper(Mapper::SetScratchpadFlag { name: s("seen"), value: true }), Rule::Mapper(Mapper::SetScratchpadVar { name: s("v"), value: StringSource::Part(UrlPart::Path) }),
    Rule::Mapper(Mapper::SetPart { part: UrlPart::Query, value: var(VarType::JobContext, "j") }),
    when(flag(FlagType::Params, "swap"), Mapper::SetPart { part: UrlPart::Path, value: var(VarType::Params, "p") }),
    when(has(var(VarType::TaskContext, "fail")), Mapper::Error("asked to".into())),
    when(has(var(VarType::TaskContext, "c")), frag(var(VarType::TaskContext, "c"))),
    when(Condition::Not(b(Condition::StringIs { left: StringSource::Part(UrlPart::Path), right: var(VarType::Scratchpad, "v") })), Mapper::Common(CommonCall { name: bs("note"), args: Default::default() })),
]) }; c.params.vars = map(vec![("p", "/from-params".to_string())]); c.commons.mappers = map(vec![("note", Mapper::SetPart { part: UrlPart::Port, value: s("8080") })]); c }
fn task(u: &str, vars: Vec<(&str, String)>) -> TaskConfig { TaskConfig { url: BetterUrl::parse(u).unwrap(), context: TaskContext { vars: map(vars) } } }
/// An item of the source, and what must come of it: `Err(true)`: no task; `Err(false)`: a task that fails.
fn item(k: usize, c: &str) -> (Result<TaskConfig, MakeTaskConfigError>, Result<String, bool>) { match k {
    0 => (Ok(task("http://a.b/x", vec![])), Ok("http://a.b/x?job".into())),
    1 => (Ok(task("http://a.b/x", vec![("c", c.to_string())])), Ok(cc(&["http://a.b/x?job#", c]))),
    2 => ("::".parse::<TaskConfig>(), Err(true)),
    3 => (Ok(task("http://c.d/", vec![("fail", "".into())])), Err(false)),
    4 => ("{\"url\":1}".parse::<TaskConfig>(), Err(true)),
    _ => (Ok(url::Url::parse("https://c.d/y/z?q#f").unwrap().into()), Ok("https://c.d/y/z?job#f".into())) } }
fn cc(x: &[&str]) -> String { let mut r = String::with_capacity(64); for y in x { r.push_str(y); } r }
static PULLED: AtomicUsize = AtomicUsize::new(0);
struct Src(std::vec::IntoIter<Result<TaskConfig, MakeTaskConfigError>>);
impl Iterator for Src { type Item = Result<TaskConfig, MakeTaskConfigError>; fn next(&mut self) -> Option<Self::Item> { let r = self.0.next(); if r.is_some() { PULLED.fetch_add(1, Ordering::Relaxed); } r } }
fn job<'a>(c: &'a Config, j: &'a JobContext, items: Vec<Result<TaskConfig, MakeTaskConfigError>>) -> Job<'a> { PULLED.store(0, Ordering::Relaxed); Job { config: JobConfig { config: Cow::Borrowed(c), #[cfg(feature = "full")] cache: Default::default() }, context: Cow::Borrowed(j), task_configs_source: b(Src(items.into_iter())) } }
fn outcome(t: Result<Task, MakeTaskError>) -> Result<String, bool> { match t { Err(_) => Err(true), Ok(t) => t.r#do().map(|u| u.as_str().to_string()).map_err(|_| false) } }
fn expect(got: &Result<String, bool>, want: &Result<String, bool>) { match (got, want) { (Ok(g), Ok(w)) => { sym::cover("task-done"); sym::observe_bytes(g.as_bytes()); sym::check(sym::same(g, w), "each-task-has-its-own-result") } (Err(g), Err(w)) => { sym::cover(if *w { "no-task" } else { "task-failed" }); sym::observe(*g as u64); sym::check(g == w, "each-failure-is-its-own") } _ => { sym::observe(7); sym::check(false, "each-task-has-its-own-result") } } }
fn jc() -> JobContext { JobContext { vars: map(vec![("j", "job".to_string())]) } }
fn run(n: usize, kinds: usize, order: usize) {
    let c = sym::over_n(1, b"abz~"); let cfg = config(); let before = cfg.clone(); let j = jc();
    let mut items = vec![]; let mut want = vec![]; for _ in 0..n { let (i, w) = item(sym::choose(kinds as u8), &c); items.push(i); want.push(w); }
    let mut job = job(&cfg, &j, items); let mut it = job.iter();
    match order {
        // Done as they come.
        0 => { for (k, w) in want.iter().enumerate() { match it.next() { Some(t) => { sym::check(PULLED.load(Ordering::Relaxed) == k + 1, "the-source-is-read-only-as-far-as-needed"); expect(&outcome(t), w) } None => sym::check(false, "a-task-for-every-item") } } }
        // Made first, done afterwards, last first.
        _ => { let mut ts: Vec<_> = it.by_ref().collect(); sym::check(ts.len() == want.len(), "a-task-for-every-item"); while let (Some(t), Some(w)) = (ts.pop(), want.pop()) { expect(&outcome(t), &w) } }
    }
    sym::check(it.next().is_none(), "no-task-without-an-item");
    sym::check(cfg == before && j == jc(), "config-and-context-are-left-alone");
}
fn u(x: &str) -> BetterUrl { BetterUrl::parse(x).unwrap() }
harnesses! {
    fn h_c18_job() { let n = sym::choose(4); run(n, 6, sym::choose(2)) }
    fn h_c18t_job_four() { run(4, 6, sym::choose(2)) }
    // A job applies the config it holds and its own context.
    fn h_c18_config() { let mut c = config(); let swap = sym::flip(); if swap { c.params.flags = set(&["swap"]); } let j = JobContext { vars: map(if sym::flip() { vec![("j", "k".to_string())] } else { vec![] }) }; let q = if j.vars.is_empty() { "" } else { "?k" };
        let owned = sym::flip(); let mut job = Job { config: JobConfig { config: if owned { Cow::Owned(c.clone()) } else { Cow::Borrowed(&c) }, #[cfg(feature = "full")] cache: Default::default() }, context: Cow::Owned(j.clone()), task_configs_source: b(vec![item(0, "").0, item(0, "").0].into_iter()) };
        let want = Ok(if swap { cc(&["http://a.b:8080/from-params", q]) } else { cc(&["http://a.b/x", q]) }); let jc = JobConfig { config: Cow::Borrowed(&c), #[cfg(feature = "full")] cache: Default::default() };
        let t = jc.new_task(task("http://a.b/x", vec![]), &j); sym::check(t.url.as_str() == "http://a.b/x" && t.context == TaskContext::default() && t.job_context == &j && t.config == &c, "a-task-is-what-it-was-asked-to-be"); expect(&outcome(Ok(t)), &want);
        let mut k = 0; for t in job.iter() { k += 1; expect(&outcome(t), &want); } sym::check(k == 2, "a-task-for-every-item") }
    // `Config::apply` on a state of one's own.
    fn h_c18_apply() { let c = config(); let mut w = W::new("http://a.b/x"); let j = jc(); let f = sym::flip(); if f { w.context.vars = map(vec![("fail", "".to_string())]); } let ok; { let mut t = w.state(); t.job_context = &j; t.params = &c.params; t.commons = &c.commons; ok = c.apply(&mut t).is_ok(); }
        sym::observe(ok as u64); sym::check(ok != f, "errors-are-passed-on"); sym::check(w.scratchpad.flags.contains("seen") && w.scratchpad.vars.get("v").is_some_and(|x| x == "/x"), "effects-are-left-in-the-state"); sym::check(w.url.as_str() == "http://a.b/x?job", "effects-are-left-in-the-state"); }
    // The tests of a config pass if and only if every one of them gives its result.
    fn h_c18_tests() { let c = config(); let mk = |k: usize, at: &str, q: &str| -> (Test, bool) { match k {
            0 => (Test { task_config: task("http://a.b/x", vec![]), result: u(&cc(&["http://a.b", at, q])) }, true), 1 => (Test { task_config: task("http://a.b/x", vec![("c", "d".into())]), result: u(&cc(&["http://a.b", at, q, "#d"])) }, true),
            2 => (Test { task_config: task("http://a.b/x", vec![]), result: u(&cc(&["http://a.b", at, q, "#"])) }, false), 3 => (Test { task_config: task("http://a.b/x", vec![("fail", "".into())]), result: u("http://a.b/x") }, false), _ => (Test { task_config: task("http://a.b/x", vec![]), result: u("http://a.b/x") }, false) } };
        // Each set has its own params and its own context.
        let mut good = true; let mut sets = vec![]; let n = sym::choose(3); for i in 0..n { let d = sym::choose(if i == 0 { 3 } else { 2 }); let at = if d == 1 { ":8080/from-params" } else { "/x" }; let (j, q) = if i == 0 { ("job", "?job") } else { ("k", "?k") }; let mut ts = vec![]; let m = sym::choose(3); for _ in 0..m { let (t, ok) = mk(sym::choose(5), at, q); good &= ok; ts.push(t); }
            sets.push(TestSet { params_diff: match d { 0 => None, 1 => Some(ParamsDiff { flags: set(&["swap"]), ..Default::default() }), _ => Some(ParamsDiff::default()) }, job_context: JobContext { vars: map(vec![("j", j.to_string())]) }, tests: ts }); }
        let before = c.clone(); let tests = Tests { sets }; if good { sym::cover("tests-pass"); c.run_tests(tests); sym::check(c == before, "tests-leave-the-config-alone"); } else { sym::cover("tests-fail"); sym::panics(|| c.run_tests(tests)) } }
    // Text of tests.
    fn h_c18_tests_text() { let t: Tests = serde_json::from_str(r#"{"sets":[{"tests":[{"task_config":"http://a.b/x","result":"http://a.b/x?"}]},{"job_context":{"vars":{"j":"k"}},"params_diff":{"flags":["swap"]},"tests":[{"task_config":{"url":"http://a.b/x","context":{"vars":{"c":"d"}}},"result":"http://a.b:8080/from-params?k#d"}]}]}"#).unwrap();
        let x = sym::choose(4); let mut t = t; let c = config(); match x { 0 => (), 1 => t.sets.truncate(1), 2 => { t.sets.remove(0); } _ => t.sets[1].tests.clear() } if x == 0 || x == 1 || x == 3 { t.sets[0].tests[0].result = u("http://a.b/x"); } sym::cover("tests-text"); c.run_tests(t) }
}
