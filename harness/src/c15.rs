//! C15: flags, variables, the scratchpad and the scope of shared snippets.
use crate::ctx::*;
use std::borrow::Cow;
use std::collections::HashMap;
/// A world in which every place holds something else under the same names.
fn world() -> W { let mut w = W::new("https://a.b/p#f"); w.params.flags = set(&["a", "p"]); w.scratchpad.flags = set(&["a", "s"]); for (m, x) in [(&mut w.params.vars, "params"), (&mut w.scratchpad.vars, "pad"), (&mut w.context.vars, "task"), (&mut w.job_context.vars, "job")] { m.insert("a".into(), x.into()); m.insert(x[..1].into(), x.into()); } w }
fn cargs() -> CommonCallArgs<'static> { CommonCallArgs { flags: [Cow::Borrowed("a"), Cow::Borrowed("c")].into(), vars: [(Cow::Borrowed("a"), "common".to_string()), (Cow::Borrowed("c"), "common".to_string())].into() } }
/// A name: given, absent or failing.
fn name(t: &str) -> (StringSource, Option<String>) { match sym::choose(4) { 0 => (StringSource::None, None), 1 => (StringSource::Error("n".into()), None), 2 => (s(t), Some(t.into())), _ => (StringSource::Join { sources: vec![s(t), s("")], join: "".into() }, Some(t.into())) } }
fn value(t: &str) -> (StringSource, Option<Option<String>>) { match sym::choose(3) { 0 => (StringSource::None, Some(None)), 1 => (StringSource::Error("v".into()), None), _ => (s(t), Some(Some(t.into()))) } }
// ---- what a snippet sees
static mut SEEN: Option<Seen> = None;
#[derive(PartialEq, Clone)]
struct Seen { flags: Vec<String>, vars: Vec<(String, String)>, url: String, rest: [bool; 5] }
fn look(v: &TaskStateView) -> Seen { let mut f: Vec<String> = v.common_args.map(|a| a.flags.iter().map(|x| x.to_string()).collect()).unwrap_or_default(); f.sort(); let mut q: Vec<(String, String)> = v.common_args.map(|a| a.vars.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()).unwrap_or_default(); q.sort(); if v.common_args.is_none() { f.push("no args".into()); }
    let h = |m: &HashMap<String, String>, x: &str| m.get("a").is_some_and(|y| y == x); Seen { flags: f, vars: q, url: v.url.as_str().into(), rest: [h(&v.params.vars, "params"), h(&v.scratchpad.vars, "pad"), h(&v.context.vars, "task"), h(&v.job_context.vars, "job"), v.commons.conditions.contains_key("x")] } }
fn see(v: &TaskStateView) { unsafe { SEEN = Some(look(v)); } }
fn seen() -> Option<Seen> { unsafe { (*std::ptr::addr_of_mut!(SEEN)).take() } }
static mut DO: u8 = 0;
/// How the snippet ends: 0 false, 1 true, 2 error; mappers and modifications always leave a mark first.
fn how() -> u8 { unsafe { DO } }
fn f_cond(v: &TaskStateView) -> Result<bool, ConditionError> { see(v); match how() { 2 => Err(ConditionError::ExplicitError("x".into())), d => Ok(d == 1) } }
fn f_match(h: &str, v: &TaskStateView) -> Result<bool, StringMatcherError> { see(v); match how() { 2 => Err(StringMatcherError::ExplicitError("x".into())), d => Ok((d == 1) & (h == "hay")) } }
fn f_mapper(t: &mut TaskState) -> Result<(), MapperError> { see(&t.to_view()); t.url.set_fragment(Some("mark")); t.scratchpad.flags.insert("mark".into()); match how() { 2 => Err(MapperError::ExplicitError("x".into())), _ => Ok(()) } }
fn f_rule(t: &mut TaskState) -> Result<(), RuleError> { f_mapper(t).map_err(RuleError::MapperError) }
fn f_mod(h: &mut String, v: &TaskStateView) -> Result<(), StringModificationError> { see(v); h.push('!'); match how() { 2 => Err(StringModificationError::ExplicitError("x".into())), _ => Ok(()) } }
fn f_src<'a>(v: &'a TaskStateView) -> Result<Option<Cow<'a, str>>, StringSourceError> { see(v); match how() { 2 => Err(StringSourceError::ExplicitError("x".into())), 1 => Ok(Some(Cow::Borrowed("got"))), _ => Ok(None) } }
fn commons() -> Commons { let d = |x: &str| x.to_string(); Commons { rules: [(d("x"), Rule::Custom(f_rule)), (d("y"), Rule::Mapper(Mapper::Error("wrong".into())))].into(), conditions: [(d("x"), Condition::Custom(f_cond)), (d("y"), Condition::Error("wrong".into()))].into(), mappers: [(d("x"), Mapper::Custom(f_mapper)), (d("y"), Mapper::Error("wrong".into()))].into(),
    string_sources: [(d("x"), StringSource::Custom(f_src)), (d("y"), StringSource::Error("wrong".into()))].into(), string_modifications: [(d("x"), StringModification::Custom(f_mod)), (d("y"), StringModification::Error("wrong".into()))].into(), string_matchers: [(d("x"), StringMatcher::Custom(f_match)), (d("y"), StringMatcher::Error("wrong".into()))].into() } }
/// Arguments of a call: flags, and variables computed where the call is made; with what they must amount to.
fn call(v: &str, outer: bool) -> (CommonCall, Option<(Vec<String>, Vec<(String, String)>)>) {
    let (n, no) = match sym::choose(4) { 0 => (StringSource::None, false), 1 => (s("missing"), false), 2 => (s("x"), true), _ => (StringSource::Join { sources: vec![s("x")], join: "".into() }, true) };
    let mut flags = vec![]; if sym::flip() { flags.push("g".to_string()); } if sym::flip() { flags.push("a".to_string()); } flags.sort();
    let mut vars = vec![]; let mut want = Some(vec![]);
    match sym::choose(6) { 0 => (), 1 => { vars.push(("a", s(v))); want.as_mut().unwrap().push(("a".to_string(), v.to_string())); } 2 => { vars.push(("a", StringSource::None)); want = None; } 3 => { vars.push(("a", s(v))); vars.push(("b", StringSource::Error("e".into()))); want = None; }
        4 => { vars.push(("a", StringSource::Var(Box::new(VarRef { r#type: VarType::Common, name: s("a") })))); vars.push(("b", s("2"))); want = if outer { Some(vec![("a".to_string(), "common".to_string()), ("b".to_string(), "2".to_string())]) } else { None }; }
        _ => { vars.push(("b", StringSource::Var(Box::new(VarRef { r#type: VarType::Scratchpad, name: s("a") })))); want = Some(vec![("b".to_string(), "pad".to_string())]); } }
    (CommonCall { name: Box::new(n), args: CommonCallArgsSource { flags: flags.iter().cloned().collect(), vars: map(vars) } }, if no { want.map(|w| (flags, w)) } else { None })
}
fn snippet(kind: usize) {
    let v = sym::text(1, 1); let outer = sym::flip(); let (c, want) = call(&v, outer); unsafe { DO = sym::choose(3) as u8; } let d = how();
    let mut w = world(); w.commons = commons(); let a = cargs(); let oa = if outer { Some(&a) } else { None }; seen();
    let before = w.scratchpad.clone(); let u = "https://a.b/p#f".to_string(); let changes = kind >= 4; let ran = want.is_some();
    // 0 false/none, 1 true/some, 2 error
    let mut text = String::from("hay");
    let r = match kind {
        0 => match Condition::Common(c).satisfied_by(&w.view_with(oa)) { Ok(b) => b as u8, Err(_) => 2 }, 1 => match StringMatcher::Common(c).satisfied_by("hay", &w.view_with(oa)) { Ok(b) => b as u8, Err(_) => 2 },
        2 => match StringSource::Common(c).get(&w.view_with(oa)) { Ok(None) => 0, Ok(Some(t)) => { sym::check(t == "got", "snippet's-value"); 1 } Err(_) => 2 }, 3 => match StringModification::Common(c).apply(&mut text, &w.view_with(oa)) { Ok(()) => d.min(1), Err(_) => 2 },
        k => {
            // A sequence: the call, then a read of the caller's own argument.
            let last = Mapper::SetPart { part: UrlPart::Query, value: StringSource::Var(Box::new(VarRef { r#type: VarType::Common, name: s("a") })) };
            let (mut r1, mut r2) = (false, false); { let mut t = w.state_with(oa); if k == 4 { r1 = Mapper::Common(c).apply(&mut t).is_ok(); } else { r1 = Rule::Common(c).apply(&mut t).is_ok(); } r2 = last.apply(&mut t).is_ok(); }
            sym::check(r2 == outer, "caller's-arguments-after-the-call"); if outer { sym::check(w.url.query() == Some("common"), "caller's-arguments-after-the-call"); } if r1 { d.min(1) } else { 2 } }
    };
    sym::observe(r as u64); let g = seen();
    match want {
        None => { sym::cover("refused"); sym::check(r == 2, "unusable-call-is-an-error"); sym::check(g.is_none(), "nothing-runs"); }
        Some((f, q)) => { sym::cover("called"); sym::check(r == d, "outcome-of-the-snippet"); match g { None => sym::check(false, "snippet-runs"), Some(g) => { sym::check(g.flags == f, "flags-passed-exactly"); let mut ok = g.vars.len() == q.len(); for (x, y) in g.vars.iter().zip(&q) { ok &= (x.0 == y.0) & sym::same(&x.1, &y.1); } sym::check(ok, "vars-passed-exactly"); sym::check(g.url == u, "same-url"); sym::check(g.rest == [true; 5], "same-surroundings"); } } }
    }
    sym::check(text == if ran && kind == 3 { "hay!" } else { "hay" }, "string-as-the-snippet-left-it");
    sym::check(w.url.fragment() == Some(if ran && changes { "mark" } else { "f" }), "url-as-the-snippet-left-it"); let mut pad = before; if ran && changes { pad.flags.insert("mark".into()); } sym::check(w.scratchpad == pad, "scratchpad-as-the-snippet-left-it");
}
harnesses! {
    fn h_c15_flag() {
        sym::opaque_hash(); let w = world(); let inside = sym::flip(); let a = cargs(); let v = w.view_with(if inside { Some(&a) } else { None }); let t = match sym::choose(5) { 0 => sym::over(0, 1, b"apsctj"), k => [" a", "a ", "A", "aa"][k - 1].to_string() }; let (n, known) = name(&t);
        let k = sym::choose(3); let has = |xs: &[&str]| { let mut r = false; for x in xs { r |= sym::same(x, &t); } r };
        let want = match (known.is_some(), k) { (false, _) => None, (_, 0) => Some(has(&["a", "p"])), (_, 1) => if inside { Some(has(&["a", "c"])) } else { None }, _ => Some(has(&["a", "s"])) };
        let f = FlagRef { r#type: [FlagType::Params, FlagType::Common, FlagType::Scratchpad][k].clone(), name: n };
        let g = match sym::choose(3) { 0 => f.get(&v).ok(), 1 => Condition::FlagIsSet(f).satisfied_by(&v).ok(), _ => match (StringSource::IfFlag { flag: Box::new(f), then: bs("then"), r#else: bs("else") }).get(&v) { Ok(Some(x)) => Some(x == "then"), _ => None } };
        sym::observe(g.is_some() as u64); match (g, want) { (None, None) => sym::cover("error"), (Some(g), Some(w)) => { sym::cover("answer"); sym::check(g == w, "flag-exact"); } (None, Some(_)) => sym::check(false, "known-place-answers"), (Some(_), None) => sym::check(false, "unknown-is-an-error") }
    }
    fn h_c15_var() {
        sym::opaque_hash(); let w = world(); let inside = sym::flip(); let a = cargs(); let v = w.view_with(if inside { Some(&a) } else { None }); let t = match sym::choose(5) { 0 => sym::over(0, 1, b"apsctj"), k => [" a", "a ", "A", "aa"][k - 1].to_string() }; let (n, known) = name(&t); let k = sym::choose(5);
        // The place's own value under "a" and under its initial.
        let place = ["params", "job", "task", "common", "pad"][k]; let init = if k == 4 { "p" } else { &place[..1] }; let has = sym::same("a", &t) | sym::same(init, &t);
        let want = if known.is_none() || (k == 3 && !inside) { None } else { Some(has) };
        let f = VarRef { r#type: [VarType::Params, VarType::JobContext, VarType::TaskContext, VarType::Common, VarType::Scratchpad][k].clone(), name: n };
        let g: Option<Option<String>> = if sym::flip() { f.get(&v).ok().map(|x| x.map(|x| x.into_owned())) } else { let q = StringSource::Var(Box::new(f)); let r = q.get(&v).ok().map(|x| x.map(|x| x.into_owned())); r };
        sym::observe(g.is_some() as u64); match (g, want) { (None, None) => sym::cover("error"), (Some(g), Some(w)) => { sym::cover("answer"); sym::check(g.is_some() == w, "presence-exact"); if let Some(g) = g { sym::check(g == place, "value-exact"); } } (None, Some(_)) => sym::check(false, "known-place-answers"), (Some(_), None) => sym::check(false, "unknown-is-an-error") }
    }
    fn h_c15_var_is() {
        sym::opaque_hash(); let mut w = world(); let t = sym::text(1, 2); let had = sym::flip(); if had { w.scratchpad.vars.insert("q".into(), t.clone()); } let (n, known) = name("q"); let (x, xo) = value(&sym::text(1, 2));
        let v = w.view(); let g = Condition::VarIs { var: VarRef { r#type: VarType::Scratchpad, name: n }, value: x }.satisfied_by(&v).ok();
        let want = match (known, &xo) { (Some(_), Some(y)) => Some(match (had, y) { (false, None) => true, (true, Some(y)) => sym::same(&t, y), _ => false }), _ => None };
        sym::observe(g.is_some() as u64); match (g, want) { (None, None) => sym::cover("error"), (Some(g), Some(w)) => { sym::cover("answer"); sym::check(g == w, "equality-exact"); } (None, Some(_)) => sym::check(false, "known-place-answers"), (Some(_), None) => sym::check(false, "unknown-is-an-error") }
    }
    /// Histories of scratchpad writes.
    fn h_c15_scratchpad() {
        let mut w = world(); let before = w.url.as_str().to_string(); let mut pad = w.scratchpad.clone(); let t = sym::text(1, 2);
        for i in 0..2 {
            let key = sym::pick(&["a", "z", " a"]); let (n, known) = name(key); let ok;
            match sym::choose(3) {
                0 => { let b = sym::flip(); ok = known.is_some(); if ok { if b { pad.flags.insert(key.into()); } else { pad.flags.remove(key); } } let r = Mapper::SetScratchpadFlag { name: n, value: b }.apply(&mut w.state()).is_ok(); sym::check(r == ok, "flag-outcome"); }
                1 => { let (x, xo) = value(if i == 0 { &t } else { "2" }); ok = known.is_some() && xo.is_some(); if ok { match xo.unwrap() { Some(y) => { pad.vars.insert(key.into(), y); } None => { pad.vars.remove(key); } } } let r = Mapper::SetScratchpadVar { name: n, value: x }.apply(&mut w.state()).is_ok(); sym::check(r == ok, "var-outcome"); }
                _ => { let (bad, empty) = sym::pick(&[(false, false), (true, false), (false, true)]); let m = if empty { StringModification::Set(s("")) } else if bad { StringModification::All(vec![StringModification::Append(s("!")), StringModification::Error("m".into())]) } else { StringModification::Append(s("+")) }; let here = pad.vars.contains_key(key); ok = known.is_some() && !(bad && here); if ok && here { let x = pad.vars.get_mut(key).unwrap(); if empty { x.clear() } else { x.push('+') } } let r = Mapper::ModifyScratchpadVar { name: n, modification: m }.apply(&mut w.state()).is_ok(); sym::check(r == ok, "modify-outcome"); }
            }
            sym::cover(if ok { "ok" } else { "error" });
        }
        sym::observe((w.scratchpad.flags.len() * 8 + w.scratchpad.vars.len()) as u64);
        sym::check(w.scratchpad.flags == pad.flags, "flags-exact"); let mut same = w.scratchpad.vars.len() == pad.vars.len(); for (k, v) in &pad.vars { same &= w.scratchpad.vars.get(k).is_some_and(|x| sym::same(x, v)); } sym::check(same, "vars-exact"); sym::check(w.url.as_str() == before, "url-untouched");
    }
    fn h_c15_common_condition() { snippet(0) }
    fn h_c15_common_matcher() { snippet(1) }
    fn h_c15_common_source() { snippet(2) }
    fn h_c15_common_modification() { snippet(3) }
    fn h_c15_common_mapper() { snippet(4) }
    fn h_c15_common_rule() { snippet(5) }
    /// A snippet calling a snippet: the inner one sees only its own arguments, computed from the outer one's.
    fn h_c15_nested() {
        let t = sym::text(1, 1); let mut w = world(); let var = |n: &str| StringSource::Var(Box::new(VarRef { r#type: VarType::Common, name: s(n) }));
        let inner = CommonCall { name: bs("x"), args: CommonCallArgsSource { flags: if sym::flip() { set(&["i"]) } else { set(&[]) }, vars: match sym::choose(3) { 0 => map(vec![("b", var("a"))]), 1 => map(vec![("a", var("a")), ("b", s("2"))]), _ => map(vec![("a", var("b"))]) } } };
        let (fl, q): (Vec<String>, Option<Vec<(&str, &str)>>) = (inner.args.flags.iter().cloned().collect(), match (inner.args.vars.len(), inner.args.vars.contains_key("b")) { (1, true) => Some(vec![("b", "A")]), (2, _) => Some(vec![("a", "A"), ("b", "2")]), _ => None });
        let kind = sym::choose(3); w.commons = commons(); unsafe { DO = 1; } seen();
        match kind { 0 => { w.commons.conditions.insert("o".into(), Condition::Common(inner)); } 1 => { w.commons.string_sources.insert("o".into(), StringSource::Common(inner)); } _ => { w.commons.mappers.insert("o".into(), Mapper::All(vec![Mapper::Common(inner), Mapper::SetPart { part: UrlPart::Query, value: var("a") }])); } }
        let c = CommonCall { name: bs("o"), args: CommonCallArgsSource { flags: set(&["o"]), vars: map(vec![("a", s(&t))]) } };
        let ok = match kind { 0 => Condition::Common(c).satisfied_by(&w.view()).is_ok(), 1 => StringSource::Common(c).get(&w.view()).is_ok(), _ => Mapper::Common(c).apply(&mut w.state()).is_ok() };
        sym::observe(ok as u64); sym::check(ok == q.is_some(), "outcome"); let g = seen();
        match (g, q) { (Some(g), Some(q)) => { sym::cover("called"); sym::check(g.flags == fl, "only-its-own-flags"); let mut same = g.vars.len() == q.len(); for (x, y) in g.vars.iter().zip(&q) { same &= (x.0 == y.0) & sym::same(&x.1, if y.1 == "A" { &t } else { y.1 }); } sym::check(same, "only-its-own-vars"); if kind == 2 { let mut x = BetterUrl::parse("https://a.b/p#mark").unwrap(); x.set_query(Some(&t)); sym::check(w.url.as_str() == x.as_str(), "outer-arguments-come-back"); } } (None, None) => sym::cover("refused"), _ => sym::check(false, "runs-iff-arguments-exist") }
    }
}
