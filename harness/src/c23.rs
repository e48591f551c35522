//! C23: running other programs.
use crate::ctx::*;
use std::path::PathBuf;
/// Files of native runs.
struct Tidy;
impl Drop for Tidy { fn drop(&mut self) { if sym::scale() == 1 { return } for e in ["plan", "out", "0", "1", "2", "3"] { let _ = std::fs::remove_file(format!("/tmp/uc-c23-{}-child.{e}", std::process::id())); } } }
fn cmd(program: String, args: Vec<StringSource>) -> CommandConfig { CommandConfig { program, args, current_dir: None, envs: Default::default(), stdin: None } }
/// A text, and the source that gives it.
fn src(t: String) -> StringSource { match sym::choose(2) { 0 => StringSource::String(t), _ => StringSource::Join { sources: vec![StringSource::String(t), s("")], join: Default::default() } } }
fn via(c: CommandConfig, w: &W) -> Result<Option<String>, ()> { let m = StringSource::CommandOutput(Box::new(c)); let v = w.view(); let r = m.get(&v); match r { Ok(x) => { let x = x.map(|x| x.into_owned()); sym::observe(1); if let Some(x) = &x { sym::observe(if x.len() < sym::scale() { x.len() } else { x.len() / sym::scale() } as u64); } Ok(x) } Err(_) => { sym::observe(0); Err(()) } } }
/// Exactly one process was started, with this program, these arguments and variables, in this directory.
fn one(args: &[Vec<u8>], vars: &[Vec<u8>], dir: &[u8]) {
    let p = sym::program(); sym::check(sym::spawned(0, 0, 0).is_some_and(|x| x == p.as_bytes()) && sym::spawned(1, 0, 0).is_none(), "that-program-once");
    let mut ok = true; for (i, a) in args.iter().enumerate() { ok &= match sym::spawned(0, 1, i + 1) { Some(x) => sym::same_bytes(&x, a), None => false }; } sym::check(ok && sym::spawned(0, 1, args.len() + 1).is_none(), "arguments-exact");
    let mut n = 0; let mut ok = true; while let Some(x) = sym::spawned(0, 2, n) { n += 1; let mut hit = false; for v in vars { hit |= sym::same_bytes(&x, v); } ok &= hit; } sym::check(ok && n == vars.len(), "environment-exact");
    sym::check(sym::spawned(0, 3, 0).is_some_and(|x| x == dir), "directory-exact");
}
fn none() { sym::check(sym::spawned(0, 0, 0).is_none(), "nothing-is-run") }
fn inherited() -> Vec<u8> { b"UCI=inherited".to_vec() }
fn world() -> W { let mut w = W::new("https://h.com/x?q=1"); w.params.vars.insert("v".into(), "of v".into()); w }
harnesses! {
    /// Arguments, whatever they contain, arrive as they are.
    fn h_c23_arguments() { let _t = Tidy; let w = world(); sym::child(b"X\0", b""); let n = sym::choose(4); let mut args = vec![]; let mut want = vec![]; for _ in 0..n { let t = sym::over(0, if n == 1 { 3 } else { 1 }, b"a -'\"*$\\;~\n=\x7f"); want.push(t.clone().into_bytes()); args.push(StringSource::String(t)); }
        let r = via(cmd(sym::program(), args), &w); sym::check(matches!(&r, Ok(Some(x)) if x.is_empty()), "output-exact"); one(&want, &[inherited()], b""); sym::cover(if n == 0 { "no-arguments" } else { "arguments" }); }
    fn h_c23_unicode() { let _t = Tidy; let w = world(); sym::child(b"X\0", b""); let t = sym::text(2, 4); let nul = t.as_bytes().contains(&0); let r = via(cmd(sym::program(), vec![s(&t)]), &w); if nul { sym::cover("nul"); sym::check(r.is_err(), "nul-refused"); none(); } else { sym::cover("text"); sym::check(r.is_ok(), "output-exact"); one(&[t.into_bytes()], &[inherited()], b""); } }
    /// What the arguments are is looked up in the task.
    fn h_c23_sources() { let _t = Tidy; let w = world(); sym::child(b"X\0", b""); let mut args = vec![]; let mut want: Option<Vec<Vec<u8>>> = Some(vec![]); for _ in 0..2 { let (a, x) = match sym::choose(5) { 0 => (StringSource::Part(UrlPart::Host), Some("h.com")), 1 => (StringSource::Part(UrlPart::Query), Some("q=1")), 2 => (StringSource::Var(Box::new(serde_json::from_str("\"v\"").unwrap())), Some("of v")), 3 => (StringSource::None, None), _ => (StringSource::Error("e".into()), None) }; args.push(a); match x { Some(x) => if let Some(l) = &mut want { l.push(x.as_bytes().to_vec()) }, None => want = None } }
        let r = via(cmd(sym::program(), args), &w); match want { Some(l) => { sym::check(r.is_ok(), "output-exact"); one(&l, &[inherited()], b""); } None => { sym::cover("unusable-argument"); sym::check(r.is_err(), "unusable-argument-refused"); none(); } } }
    /// Variables are added to (or replace those of) the environment; one without a value is left as it is.
    fn h_c23_environment() { let _t = Tidy; let w = world(); sym::child(b"X\0", b""); let mut c = cmd(sym::program(), vec![]); let mut vars = vec![inherited()]; let mut bad = false;
        if sym::flip() { let t = sym::over(0, 2, b"a= ~\n"); vars.push([b"UCA=", t.as_bytes()].concat()); c.envs.insert("UCA".into(), src(t)); } match sym::choose(4) { 0 => (), 1 => { c.envs.insert("UCI".into(), s("mine")); vars[0] = b"UCI=mine".to_vec(); } 2 => { c.envs.insert("UCI".into(), StringSource::None); } _ => { c.envs.insert("UCB".into(), StringSource::Error("e".into())); bad = true; } }
        let r = via(c, &w); if bad { sym::cover("refused"); sym::check(r.is_err(), "unusable-variable-refused"); none(); } else { sym::cover("run"); sym::check(r.is_ok(), "output-exact"); one(&[], &vars, b""); } }
    fn h_c23_directory() { let _t = Tidy; let w = world(); sym::child(b"X\0", b""); let mut c = cmd(sym::program(), vec![s("a")]); let (d, ok) = sym::pick(&[(None, true), (Some("/tmp"), true), (Some("/"), true), (Some("/no/such/directory"), false)]); c.current_dir = d.map(PathBuf::from); let p = sym::flip(); if p { c.program = "/no/such/program".into(); }
        let r = via(c, &w); if ok && !p { sym::cover("run"); sym::check(r.is_ok(), "output-exact"); one(&[b"a".to_vec()], &[inherited()], d.unwrap_or("").as_bytes()); } else { sym::cover("refused"); sym::check(r.is_err(), "what-is-not-there-refused"); none(); } }
    /// The output is what the program wrote, however it ended.
    fn h_c23_output() { let _t = Tidy; let w = world(); let n = sym::choose(4); let mut out = vec![]; for _ in 0..n { out.push(sym::u8()); } let plan = [&b"W"[..], &[n as u8], sym::pick(&[&b"X\0"[..], b"X\x01", b"X\xFF", b"K\x09", b"", b"OX\0"])].concat(); sym::child(&plan, &out);
        let r = via(cmd(sym::program(), vec![]), &w); match std::str::from_utf8(&out) { Ok(t) => { sym::cover("text"); sym::check(match &r { Ok(Some(x)) => sym::same(x, t), _ => false }, "output-exact"); } Err(_) => { sym::cover("no-text"); sym::check(r.is_err(), "no-text-refused"); } } one(&[], &[inherited()], b""); }
    /// Standard input is what was given, to its end.
    fn h_c23_stdin() { let _t = Tidy; let w = world(); let n = sym::choose(4); let t = sym::over_n(n, b"a\n\0 ~"); let out = b"abcdef"; let plan = sym::pick(&[&b"EX\0"[..], b"EW\x03X\0", b"W\x03EX\0", b"R\x01W\x02EW\x01K\x0F"]); let k = plan.windows(2).filter(|x| x[0] == b'W').map(|x| x[1] as usize).sum(); sym::child(plan, out);
        let mut c = cmd(sym::program(), vec![s("x")]); c.stdin = Some(src(t.clone())); let r = via(c, &w); sym::check(matches!(&r, Ok(Some(x)) if x.as_bytes() == &out[..k]), "output-exact"); sym::check(match sym::spawned(0, 4, 0) { Some(g) => sym::same_bytes(&g, t.as_bytes()), None => false }, "stdin-exact"); one(&[b"x".to_vec()], &[inherited()], b""); sym::cover("run"); }
    fn h_c23_stdin_unusable() { let _t = Tidy; let w = world(); sym::child(b"EX\0", b""); let mut c = cmd(sym::program(), vec![]); c.stdin = Some(if sym::flip() { StringSource::None } else { StringSource::Error("e".into()) }); let r = via(c, &w); sym::check(r.is_err(), "unusable-stdin-refused"); sym::cover("refused"); }
    /// However much is written and read, in whatever order.
    fn h_c23_much() { let _t = Tidy; sym::schedules(1); let w = world(); let k = sym::scale(); let n = sym::pick(&[0, 3, 4, 5, 9]); let plan = sym::pick(&[&b"LEX\0"[..], b"LEW\x09X\0", b"LW\x09EX\0", b"LR\x01W\x04R\x01W\x05EX\0", b"LW\x04R\x02W\x05EX\x07"]); let m = plan.windows(2).filter(|x| x[0] == b'W').map(|x| x[1] as usize).sum::<usize>();
        let out: Vec<u8> = (0..9 * k).map(|i| b'a' + (i % 23) as u8).collect(); let t: String = (0..n * k).map(|i| (b'A' + (i % 23) as u8) as char).collect(); sym::child(plan, &out); let mut c = cmd(sym::program(), vec![]); c.stdin = Some(StringSource::String(t.clone()));
        let r = via(c, &w); sym::check(matches!(&r, Ok(Some(x)) if x.as_bytes() == &out[..m * k]), "output-exact"); sym::check(sym::spawned(0, 4, 0).is_some_and(|g| g == t.as_bytes()), "stdin-exact"); one(&[], &[inherited()], b""); sym::cover(if n > 4 && m > 4 { "more-than-a-pipe-holds" } else { "little" }); }
    /// Exit codes.
    fn h_c23_exit_code() { let _t = Tidy; let w = world(); let v = w.view(); let c = sym::u8(); let sig = sym::flip(); let plan = if sig { vec![b'K', sym::pick(&[9, 15])] } else { vec![b'X', c] }; sym::child(&plan, b""); let r = cmd(sym::program(), vec![s("a")]).exit_code(&v);
        match &r { Ok(x) => sym::observe(*x as u64), Err(_) => sym::observe(999) } if sig { sym::cover("signal"); sym::check(matches!(r, Err(CommandError::SignalTermination)), "signal-told"); } else { sym::cover("code"); sym::check(matches!(r, Ok(x) if x == c as i32), "code-exact"); } one(&[b"a".to_vec()], &[inherited()], b""); }
    /// URLs: line ends at the end go, nothing else does.
    fn h_c23_url() { let _t = Tidy; let w = world(); let v = w.view(); let t = ["http://a.b/?", &sym::over(0, 1, b"ab"), sym::pick(&["", "\n", "\r\n", "\n\n", "#x\r", "\nb", "#\u{e9}"])].concat(); let bad = sym::flip(); let t = if bad { t[5..].to_string() } else { t }; sym::child(&[&b"W"[..], &[t.len() as u8], b"X\0"].concat(), t.as_bytes());
        let r = cmd(sym::program(), vec![]).get_url(&v); match &r { Ok(u) => sym::observe_bytes(u.as_str().as_bytes()), Err(_) => sym::observe(0) } if bad { sym::cover("refused"); sym::check(r.is_err(), "no-url-refused"); } else { sym::cover("url"); let mut e = t.as_str(); while e.ends_with('\n') || e.ends_with('\r') { e = &e[..e.len() - 1]; } let e = e.replace('\n', "").replace('\u{e9}', "%C3%A9"); sym::check(match &r { Ok(u) => sym::same(u.as_str(), &e), Err(_) => false }, "url-exact"); } }
    /// A bare string is the program; everything else has its default.
    fn h_c23_text() { let t = match sym::choose(3) { 0 => sym::over(0, 1, b"a/ ~"), 1 => "a b/c".to_string(), _ => "\u{e9}\"\\\n".to_string() }; let j = serde_json::to_string(&t).unwrap(); let want = cmd(t.clone(), vec![]); for x in [j.clone(), ["{\"program\":", &j, "}"].concat()] { let got: Result<CommandConfig, _> = serde_json::from_str(&x); sym::check(matches!(&got, Ok(g) if g == &want), "short-form"); sym::observe(got.is_ok() as u64); } sym::check(CommandConfig::from(&*t) == want, "short-form");
        let full = ["{\"program\":", &j, ",\"args\":[\"x\",null,{\"Part\":\"Host\"}],\"current_dir\":\"/d\",\"envs\":{\"K\":\"v\",\"L\":null},\"stdin\":\"i\"}"].concat(); let mut want = cmd(t, vec![s("x"), StringSource::None, StringSource::Part(UrlPart::Host)]); want.current_dir = Some("/d".into()); want.envs = map(vec![("K", s("v")), ("L", StringSource::None)]); want.stdin = Some(s("i"));
        let got: Result<StringSource, _> = serde_json::from_str(&["{\"CommandOutput\":", &full, "}"].concat()); sym::check(matches!(&got, Ok(g) if g == &StringSource::CommandOutput(Box::new(want.clone()))), "long-form"); let back = serde_json::to_string(&want).ok().and_then(|x| serde_json::from_str::<CommandConfig>(&x).ok()); sym::check(back.as_ref() == Some(&want), "reads-back"); sym::cover("text"); }
}
