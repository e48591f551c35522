//! C22: the command line.
use crate::ctx::*;
/// Every item shows what it was given; hosts ask for what else is to happen.
const CFG: &str = r##"{"params":{"vars":{"p":"0"}},"rules":[
    {"condition":{"HostIs":"fail.x"},"mapper":{"Error":"as asked"}},
    {"condition":{"HostIs":"vars.x"},"mapper":{"SetPart":{"part":"Fragment","value":{"Join":{"sources":[{"Var":"p"},{"Var":{"type":"JobContext","name":"j"}},{"Var":{"type":"TaskContext","name":"t"}}],"join":"-"}}}}},
    {"condition":{"FlagIsSet":"f"},"mapper":{"SetPart":{"part":"Query","value":"f"}}}]}"##;
/// A file no one else uses.
struct Tmp(String);
impl Tmp { fn new(k: &str, text: &str) -> Tmp { let t = Tmp(["/tmp/uc-c22-", &std::process::id().to_string(), "-", k].concat()); std::fs::write(&t.0, text).unwrap(); t } }
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
#[derive(Clone, PartialEq)] enum R { Done(String), Failed, NotMade }
/// Some input, and what comes of it.
fn item(k: usize, c: &str) -> (Vec<u8>, R) { let d = |x: String| (x.clone().into_bytes(), R::Done(x)); match k {
    0 => d(["http://a.b/#", c].concat()), 1 => (b"::".to_vec(), R::NotMade), 2 => (b"http://fail.x/".to_vec(), R::Failed),
    3 => (br#"{"url":"http://vars.x","context":{"vars":{"t":"u"}}}"#.to_vec(), R::Done("http://vars.x/#0-J-u".into())), 4 => (vec![], R::NotMade), _ => (b"http://a.b/\xFF".to_vec(), R::NotMade) } }
fn text(r: &[R]) -> Vec<u8> { let mut o = vec![]; for x in r { if let R::Done(u) = x { o.extend_from_slice(u.as_bytes()) } o.push(b'\n'); } o }
fn code(r: &[R]) -> i32 { match (r.iter().any(|x| matches!(x, R::Done(_))), r.iter().any(|x| !matches!(x, R::Done(_)))) { (_, false) => 0, (false, true) => 1, _ => 2 } }
const THREADS: [&str; 4] = ["1", "2", "3", "0"];
fn look(x: &(i32, Vec<u8>, Vec<u8>)) { sym::observe(x.0 as u64); sym::observe_bytes(&x.1); }
/// What is printed for `want`, line by line.
fn lines(got: &(i32, Vec<u8>, Vec<u8>), want: &[R]) {
    look(got); sym::check(sym::same_bytes(&got.1, &text(want)), "one-line-per-input-in-order"); sym::check(got.0 == code(want), "exit-code-tells");
    let mut e = got.2.split(|x| *x == b'\n').filter(|l| !l.is_empty()); let mut ok = true; for w in want { match w { R::Done(_) => (), R::Failed => ok &= e.next().is_some_and(|l| l.starts_with(b"DoTaskError\t")), R::NotMade => ok &= e.next().is_some_and(|l| l.starts_with(b"MakeTaskError\t")) } }
    sym::check(ok && e.next().is_none(), "one-error-line-per-failure-in-order"); sym::cover(match code(want) { 0 => if want.is_empty() { "nothing-to-do" } else { "all-done" }, 1 => "none-done", _ => "some-done" }); }
/// Arguments first, then lines of standard input.
fn go(threads: &str, json: bool, args: usize, kinds: usize, stdin: usize, skinds: usize, vary: bool) {
    let c = if json { "z".to_string() } else { sym::over_n(1, b"az09~") }; let cfg = Tmp::new("c", CFG); let mut want = vec![]; let mut a: Vec<String> = vec![]; let mut inp = vec![];
    for _ in 0..args { let (t, w) = item(sym::choose(kinds as u8), &c); a.push(String::from_utf8(t).unwrap()); want.push(w); }
    for i in 0..stdin { let (t, w) = item(sym::choose(skinds as u8), &c); if t.is_empty() && i + 1 == stdin && vary { inp.push(b'\n'); want.push(w); continue } inp.extend_from_slice(&t); want.push(w); if i + 1 < stdin || !vary { inp.extend_from_slice(b"\n") } else { inp.extend_from_slice(sym::pick(&[&b"\n"[..], b"", b"\r\n"])) } }
    let mut v = vec!["--config", &cfg.0, "--threads", threads, "--job-context", r#"{"vars":{"j":"J"}}"#]; if json { v.push("--json") } for x in &a { v.push(x) }
    let got = sym::run(&v, &inp); if json { as_json(&got, &want) } else { lines(&got, &want) } }
/// The same, as JSON.
fn as_json(got: &(i32, Vec<u8>, Vec<u8>), want: &[R]) { look(got); sym::check(got.0 == code(want), "exit-code-tells"); let t = match std::str::from_utf8(&got.1) { Ok(t) => t, Err(_) => return sym::check(false, "json-is-well-formed") };
    let v: serde_json::Value = match serde_json::from_str(t) { Ok(v) => v, Err(_) => return sym::check(false, "json-is-well-formed") };
    let Some(l) = v.pointer("/Ok/urls").and_then(|x| x.as_array()) else { return sym::check(false, "json-is-well-formed") }; let one = |v: &serde_json::Value| v.as_object().map_or(0, |o| o.len()) == 1; let err = |v: &serde_json::Value| v.as_object().is_some_and(|o| o.len() == 2 && o.get("message").is_some_and(|x| x.is_string()) && o.get("variant").is_some_and(|x| x.is_string()));
    let mut ok = one(&v) && one(&v["Ok"]) && l.len() == want.len(); for (x, w) in l.iter().zip(want) { ok &= one(x) && match w { R::Done(u) => one(&x["Ok"]) && x["Ok"]["Ok"].as_str() == Some(u), R::Failed => one(&x["Ok"]) && err(&x["Ok"]["Err"]), R::NotMade => err(&x["Err"]) } }
    sym::cover("json"); sym::check(ok, "one-json-value-per-input-in-order") }
/// One URL whose result shows variable `p`, the job context and flag `f`.
fn show(more: &[&str]) -> (i32, Vec<u8>, Vec<u8>) { let cfg = Tmp::new("c", CFG); let mut v = vec!["--config", &*cfg.0, "--threads", "1"]; v.extend_from_slice(more); v.push(r#"{"url":"http://vars.x","context":{"vars":{"t":"u"}}}"#); sym::run(&v, b"") }
fn refused(got: (i32, Vec<u8>, Vec<u8>)) { look(&got); sym::cover("refused"); sym::check(got.0 != 0 && got.1.is_empty(), "refused-and-nothing-cleaned") }
fn suite(pass: bool) -> String { [r#"{"sets":[{"job_context":{"vars":{"j":"J"}},"tests":[{"task_config":{"url":"http://vars.x","context":{"vars":{"t":"u"}}},"result":"http://vars.x/#"#, if pass { "0-J-u" } else { "0-J-v" }, r#""}]}]}"#].concat() }
harnesses! {
    // Every kind of input, in every place, however many threads there are.
    fn h_c22_lines() { let t = sym::pick(&THREADS); let (a, s) = sym::pick(&[(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1), (1, 2)]); go(t, false, a, 5, s, 6, true) }
    fn h_c22_json() { let t = sym::pick(&["1", "2"]); let (a, s) = sym::pick(&[(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (2, 1)]); go_json(t, a, s) }
    // Whatever the schedule.
    fn h_c22_schedules() { sym::schedules(1); let t = sym::pick(&["2", "3"]); go(t, false, 1, 3, 2, 3, false) }
    fn h_c22_schedules_two() { sym::schedules(2); let t = sym::pick(&["1", "2"]); let c = Tmp::new("c", CFG); let got = sym::run(&["--config", &c.0, "--threads", t, "http://fail.x/"], b"http://a.b/?x\n::"); lines(&got, &[R::Failed, R::Done("http://a.b/?x".into()), R::NotMade]) }
    fn h_c22_schedules_json() { sym::schedules(1); let c = Tmp::new("c", CFG); let got = sym::run(&["--config", &c.0, "--threads", "2", "--json", "http://fail.x/"], b"http://a.b/?x\n::"); as_json(&got, &[R::Failed, R::Done("http://a.b/?x".into()), R::NotMade]) }
    fn h_c22_schedules_nothing() { sym::schedules(2); let t = sym::pick(&["1", "2", "3"]); let c = Tmp::new("c", CFG); let got = sym::run(&["--config", &c.0, "--threads", t], b""); lines(&got, &[]) }
    fn h_c22t_schedules() { sym::schedules(2); let t = sym::pick(&["2", "3"]); go(t, false, 1, 3, 2, 3, false) }
    // More input than fits any buffer.
    fn h_c22_many() { let t = sym::pick(&["1", "2", "5"]); let n = 70; let c = Tmp::new("c", CFG); let bad = sym::choose(3) * 31; let mut want = vec![]; let mut inp = vec![]; for i in 0..n { let u = if i == bad { "::".to_string() } else { ["http://a.b/", &i.to_string()].concat() }; inp.extend_from_slice(u.as_bytes()); inp.push(b'\n'); want.push(if i == bad { R::NotMade } else { R::Done(u) }) } lines(&sym::run(&["--config", &c.0, "--threads", t], &inp), &want) }
    fn h_c22_long() { let t = sym::pick(&["1", "2"]); let c = Tmp::new("c", CFG); let mut want = vec![]; let mut inp = vec![]; let n = sym::pick(&[1011, 1012, 1013, 4000, 8180]); for i in 0..3 { let u = ["http://a.b/", &"abc"[i..i + 1].repeat(n)].concat(); inp.extend_from_slice(u.as_bytes()); inp.push(b'\n'); want.push(R::Done(u)) } lines(&sym::run(&["--config", &c.0, "--threads", t], &inp), &want) }
    // Params diffs are applied in the order of their files, those of the command line last.
    fn h_c22_params() { let one = Tmp::new("1", r#"{"vars":{"p":"1"},"flags":["f"]}"#); let two = Tmp::new("2", r#"{"vars":{"p":"2"},"unflags":["f"]}"#); let mut a: Vec<&str> = vec!["--job-context", r#"{"vars":{"j":"K"}}"#]; let mut p = "0"; let mut f = false;
        let o = sym::choose(5); match o { 0 => (), 1 => { a.extend(["--params-diff", &one.0]); p = "1"; f = true; } 2 => { a.extend(["--params-diff", &two.0]); p = "2" } 3 => { a.extend(["--params-diff", &one.0, "--params-diff", &two.0]); p = "2" } _ => { a.extend(["--params-diff", &two.0, "--params-diff", &one.0]); p = "1"; f = true; } }
        if sym::flip() { a.extend(["--var", "p", "3"]); p = "3"; } match sym::choose(3) { 0 => (), 1 => { a.extend(["--flag", "f"]); f = true; } _ => { a.extend(["--unflag", "f"]); f = false; } } sym::cover("params"); lines(&show(&{ let mut b = a.clone(); b.push("--"); b }), &[R::Done(["http://vars.x/", if f { "?f" } else { "" }, "#", p, "-K-u"].concat())]) }
    // Tests and the suitability check clean nothing, and tell by the exit code.
    fn h_c22_tests() { let n = 1 + sym::choose(2); let mut fs = vec![]; let mut good = true; for i in 0..n { let ok = sym::flip(); good &= ok; fs.push(Tmp::new(["t", "u"][i], &suite(ok))); } let mut a = vec![]; for f in &fs { a.extend(["--tests", &f.0]) } if sym::flip() { a.extend(["--threads", "1"]) } a.insert(0, "--json"); let cfg = Tmp::new("c", CFG); let mut v = vec!["--config", &*cfg.0]; v.extend(a); let got = sym::run(&v, b"http://a.b/\n"); sym::observe(got.0 as u64); sym::cover(if good { "tests-pass" } else { "tests-fail" }); sym::check((got.0 == 0) == good, "exit-code-tells"); sym::check(!got.1.windows(8).any(|w| w == b"http://a"), "refused-and-nothing-cleaned") }
    fn h_c22_suitability() { let doc = sym::flip(); let flag = sym::flip(); let debug = sym::flip(); let c = Tmp::new("c", &[r#"{"docs":{"name":"n","description":["d"],"flags":{"#, if flag && doc { r#""f":"F""# } else { "" }, r#"}},"rules":["#, if flag { r#"{"condition":{"FlagIsSet":"f"},"mapper":"None"}"# } else { r#"{"condition":"Always","mapper":"None"}"# }, if debug { r#",{"condition":"Always","mapper":{"Debug":"None"}}"# } else { "" }, "]}"].concat()); let t = Tmp::new("t", &suite(false)); let bad = sym::flip(); let mut a = vec!["--config", &*c.0, "--test-suitability"]; if bad { a.extend(["--tests", &*t.0]) } a.push("--"); a.push("http://a.b/"); let got = sym::run(&a, b"http://a.b/\n"); sym::observe(got.0 as u64); let fine = (doc || !flag) && !debug; sym::cover(if fine { "suitable" } else { "unsuitable" }); sym::check((got.0 == 0) == (fine && !bad), "exit-code-tells"); sym::check(!got.1.windows(8).any(|w| w == b"http://a"), "refused-and-nothing-cleaned") }
    // What cannot be read is refused.
    fn h_c22_refused() { let bad = Tmp::new("b", sym::pick(&["", "{", "5", "{\"vars\":1,\"sets\":1}"])); let good = Tmp::new("g", "{}"); let no = "/tmp/uc-c22-no-such-file"; match sym::choose(8) { 0 => refused(sym::run(&["--config", no, "http://a.b/"], b"")), 1 => refused(sym::run(&["--config", &bad.0, "http://a.b/"], b"")), 2 => refused(show(&["--params-diff", &good.0, "--params-diff", no])), 3 => refused(show(&["--params-diff", &good.0, "--params-diff", &bad.0, "--"])), 4 => refused(show(&["--job-context", "{"])), 5 => refused(show(&["--threads", "x"])), 6 => refused(sym::run(&["http://a.b/"], b"")), _ => { let got = show(&["--tests", sym::pick(&[no, &bad.0]), "--"]); look(&got); sym::cover("refused"); sym::check(got.0 != 0, "refused-and-nothing-cleaned"); } } }
}
fn go_json(t: &str, a: usize, s: usize) { go(t, true, a, 4, s, 6, true) }
