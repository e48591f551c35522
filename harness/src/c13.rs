//! C13: parameter diffs, HTTP client diffs and the command-line arguments that build them.  (feature `full`)
use crate::ctx::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
type Set = BTreeSet<String>;
/// What parameters are, as far as diffs may touch them.
#[derive(Clone, PartialEq)]
struct P { flags: Set, vars: BTreeMap<String, String>, sets: BTreeMap<String, Set>, maps: BTreeMap<String, (BTreeMap<String, String>, Option<String>, Option<String>)> }
fn look(p: &Params) -> P { P {
    flags: p.flags.iter().cloned().collect(), vars: p.vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
    sets: p.sets.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect(),
    maps: p.maps.iter().map(|(k, m)| (k.clone(), (m.map.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), m.if_null.as_deref().cloned(), m.r#else.as_deref().cloned()))).collect(),
} }
fn make(p: &P) -> Params { let mut r = Params::default();
    r.flags = p.flags.iter().cloned().collect(); r.vars = p.vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    r.sets = p.sets.iter().map(|(k, v)| (k.clone(), v.iter().cloned().collect())).collect();
    r.maps = p.maps.iter().map(|(k, (m, n, e))| (k.clone(), Map { map: m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), if_null: n.clone().map(Box::new), r#else: e.clone().map(Box::new) })).collect();
    r.lists = map(vec![("a", vec!["1".to_string(), "2".to_string()])]); r
}
fn empty() -> P { P { flags: Set::new(), vars: BTreeMap::new(), sets: BTreeMap::new(), maps: BTreeMap::new() } }
fn subset(xs: &[&str]) -> Vec<String> { let m = sym::choose(1 << xs.len()); xs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.to_string()).collect() }
fn bt(v: &[String]) -> Set { v.iter().cloned().collect() }
fn hs(v: &[String]) -> HashSet<String> { v.iter().cloned().collect() }
fn same_maps(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> bool { let mut r = a.len() == b.len(); for (k, v) in a { r &= b.get(k).is_some_and(|w| sym::same(v, w)); } r }
fn finish(to: &Params, want: &P) {
    let g = look(to);
    sym::observe((g.flags.len() + 16 * g.vars.len() + 256 * g.sets.len() + 4096 * g.maps.len()) as u64); for x in g.vars.values() { sym::observe_bytes(x.as_bytes()); }
    sym::check(g.flags == want.flags, "flags-exact"); sym::check(same_maps(&g.vars, &want.vars), "vars-exact"); sym::check(g.sets == want.sets, "sets-exact");
    let mut ok = g.maps.len() == want.maps.len(); for (k, (m, n, e)) in &g.maps { ok &= want.maps.get(k).is_some_and(|(wm, wn, we)| same_maps(m, wm) & (n == wn) & (e == we)); } sym::check(ok, "maps-exact");
    let d = make(want); sym::check(to.lists == d.lists && to.named_partitionings == d.named_partitionings, "the-rest-untouched");
    #[cfg(feature = "full")] sym::check(to.read_cache && to.write_cache, "cache-settings-untouched");
}
fn st(xs: &[&str]) -> Vec<String> { xs.iter().map(|x| x.to_string()).collect() }
/// Apply what one diff says: additions, then removals.
fn refer(p: &mut P, d: &ParamsDiff) {
    for f in &d.flags { p.flags.insert(f.clone()); } for f in &d.unflags { p.flags.remove(f); }
    for (k, v) in &d.vars { p.vars.insert(k.clone(), v.clone()); } for k in &d.unvars { p.vars.remove(k); }
    for k in &d.init_sets { p.sets.entry(k.clone()).or_default(); } for (k, v) in &d.insert_into_sets { p.sets.entry(k.clone()).or_default().extend(v.iter().cloned()); }
    for (k, v) in &d.remove_from_sets { if let Some(x) = p.sets.get_mut(k) { for y in v { x.remove(y); } } } for k in &d.delete_sets { p.sets.remove(k); }
    for k in &d.init_maps { p.maps.entry(k.clone()).or_insert((BTreeMap::new(), None, None)); }
    for (k, v) in &d.map_diffs { let m = &mut p.maps.entry(k.clone()).or_insert((BTreeMap::new(), None, None)).0; for (k, v) in &v.insert_into_map { m.insert(k.clone(), v.clone()); } for k in &v.remove_from_map { m.remove(k); } }
    for k in &d.delete_maps { p.maps.remove(k); }
}
fn go(mut p: P, ds: Vec<ParamsDiff>) { let mut to = make(&p); for d in ds { refer(&mut p, &d); d.apply(&mut to); } finish(&to, &p); }
fn maybe<T>(x: T) -> Option<T> { if sym::flip() { Some(x) } else { None } }
fn sets_p(name: &str, k: usize) -> Option<(String, Set)> { match k { 0 => None, 1 => Some((name.into(), Set::new())), 2 => Some((name.into(), bt(&st(&["x"])))), _ => Some((name.into(), bt(&st(&["x", "y"])))) } }
fn set_diff(d: &mut ParamsDiff, n: &str, rich: bool) {
    if sym::flip() { d.init_sets.push(n.into()); } match sym::choose(if rich { 4 } else { 2 }) { 0 => (), 1 => { d.insert_into_sets.insert(n.into(), st(&["z", "x", "z"])); } 2 => { d.insert_into_sets.insert(n.into(), vec![]); } _ => { d.insert_into_sets.insert(n.into(), st(&["y"])); } }
    match sym::choose(if rich { 3 } else { 2 }) { 0 => (), 1 => { d.remove_from_sets.insert(n.into(), st(&["x", "q"])); } _ => { d.remove_from_sets.insert(n.into(), st(&["y", "z"])); } } if sym::flip() { d.delete_sets.push(n.into()); }
}
fn map_diff(d: &mut ParamsDiff, n: &str, v: &str) {
    if sym::flip() { d.init_maps.push(n.into()); }
    let i = sym::choose(4); let r = sym::choose(4); if i + r > 0 || sym::flip() { let mut m = MapDiff::default(); if i > 0 { m.insert_into_map.insert(["k", "j"][i & 1].into(), v.into()); if i == 3 { m.insert_into_map.insert("k".into(), "w".into()); } } if r & 1 == 1 { m.remove_from_map.insert("k".into()); } if r & 2 == 2 { m.remove_from_map.insert("j".into()); } d.map_diffs.insert(n.into(), m); }
    if sym::flip() { d.delete_maps.push(n.into()); }
}
/// The command line: the options as given, in order.
fn args() -> ParamsDiffArgParser { ParamsDiffArgParser { flag: vec![], unflag: vec![], var: vec![], unvar: vec![], insert_into_set: vec![], remove_from_set: vec![], insert_into_map: vec![], remove_from_map: vec![], #[cfg(feature = "full")] read_cache: None, #[cfg(feature = "full")] write_cache: None, #[cfg(feature = "full")] proxy: None, #[cfg(feature = "full")] no_proxy: None } }
/// What the options say about parameters; `None`: unusable.
fn refer_args(p: &mut P, a: &ParamsDiffArgParser) -> Option<()> {
    if a.var.iter().any(|x| x.len() != 2) || a.insert_into_set.iter().any(|x| x.is_empty()) || a.remove_from_set.iter().any(|x| x.is_empty()) || a.insert_into_map.iter().any(|x| x.len() % 2 == 0) || a.remove_from_map.iter().any(|x| x.is_empty()) { return None; }
    for f in &a.flag { p.flags.insert(f.clone()); } for f in &a.unflag { p.flags.remove(f); } for v in &a.var { p.vars.insert(v[0].clone(), v[1].clone()); } for v in &a.unvar { p.vars.remove(v); }
    for x in &a.insert_into_set { p.sets.entry(x[0].clone()).or_default().extend(x[1..].iter().cloned()); } for x in &a.remove_from_set { if let Some(s) = p.sets.get_mut(&x[0]) { for y in &x[1..] { s.remove(y); } } }
    for x in &a.insert_into_map { let m = &mut p.maps.entry(x[0].clone()).or_insert((BTreeMap::new(), None, None)).0; for i in 0..x.len() / 2 { m.insert(x[2 * i + 1].clone(), x[2 * i + 2].clone()); } }
    for x in &a.remove_from_map { let m = &mut p.maps.entry(x[0].clone()).or_insert((BTreeMap::new(), None, None)).0; for y in &x[1..] { m.remove(y); } }
    Some(())
}
fn go_args(mut p: P, a: ParamsDiffArgParser) {
    let any = a != args(); sym::check(a.does_anything() == any, "does-something-iff-any-option-is-given");
    let mut to = make(&p); let w = refer_args(&mut p, &a);
    match (a.build(), w) { (Ok(d), Some(())) => { sym::cover("built"); d.apply(&mut to); finish(&to, &p) } (Err(_), None) => sym::cover("refused"), (Ok(_), None) => sym::check(false, "bad-options-refused"), (Err(_), Some(())) => sym::check(false, "good-options-accepted") }
}
fn words(n: usize, alphabet: &[&str]) -> Vec<String> { (0..n).map(|_| sym::pick(alphabet).to_string()).collect() }
fn base() -> P { let mut p = empty(); p.flags = bt(&st(&["a", "b"])); p.vars.insert("a".into(), "0".into()); p.sets.insert("s".into(), bt(&st(&["x", "y"]))); p.maps.insert("m".into(), ([("k".to_string(), "0".to_string())].into(), Some("n".into()), None)); p }
harnesses! {
    fn h_c13_flags() { let mut p = empty(); p.flags = bt(&subset(&["a", "b", "c"])); let d = ParamsDiff { flags: hs(&subset(&["a", "b", "d"])), unflags: hs(&subset(&["a", "c", "d"])), ..Default::default() }; go(p, vec![d]) }
    fn h_c13_vars() { let mut p = empty(); let v = sym::text(1, 2); let mut d = ParamsDiff::default(); for n in ["a", "b"] { if sym::flip() { p.vars.insert(n.into(), "0".into()); } if sym::flip() { d.vars.insert(n.into(), v.clone()); } if sym::flip() { d.unvars.insert(n.into()); } } go(p, vec![d]) }
    fn h_c13_sets() { let mut p = empty(); p.sets.extend(sets_p("s", sym::choose(4))); p.sets.extend(sets_p("t", 2)); let mut d = ParamsDiff::default(); set_diff(&mut d, "s", true); if sym::flip() { d.insert_into_sets.insert("t".into(), st(&["y"])); } go(p, vec![d]) }
    fn h_c13_two_sets() { let mut p = empty(); p.sets.extend(sets_p("s", 1 + sym::choose(2))); p.sets.extend(sets_p("t", 3 * sym::choose(2))); let mut d = ParamsDiff::default(); set_diff(&mut d, "s", false); set_diff(&mut d, "t", false); go(p, vec![d]) }
    fn h_c13_maps() { let mut p = empty(); let rest = (sym::flip().then(|| "n".to_string()), sym::flip().then(|| "e".to_string())); match sym::choose(3) { 0 => (), 1 => { p.maps.insert("m".into(), (BTreeMap::new(), rest.0, rest.1)); } _ => { p.maps.insert("m".into(), ([("k".to_string(), "0".to_string())].into(), rest.0, rest.1)); } } let v = sym::text(1, 1); let mut d = ParamsDiff::default(); map_diff(&mut d, "m", &v); if sym::flip() { d.map_diffs.insert("o".into(), MapDiff { insert_into_map: map(vec![("k", "1".to_string())]), remove_from_map: HashSet::new() }); } go(p, vec![d]) }
    /// Two diffs, one after the other.
    fn h_c13_histories() { let p = base(); let one = |_: ()| { let mut d = ParamsDiff::default(); match sym::choose(12) { 0 => { d.flags.insert("a".into()); } 1 => { d.unflags.insert("a".into()); } 2 => { d.vars.insert("a".into(), "1".into()); } 3 => { d.unvars.insert("a".into()); } 4 => { d.insert_into_sets.insert("s".into(), st(&["z"])); } 5 => { d.remove_from_sets.insert("s".into(), st(&["x", "z"])); } 6 => d.delete_sets.push("s".into()), 7 => d.init_sets.push("s".into()), 8 => { d.map_diffs.insert("m".into(), MapDiff { insert_into_map: map(vec![("k", "1".to_string()), ("j", "2".to_string())]), remove_from_map: HashSet::new() }); } 9 => { d.map_diffs.insert("m".into(), MapDiff { insert_into_map: HashMap::new(), remove_from_map: set(&["k"]) }); } 10 => d.delete_maps.push("m".into()), _ => d.init_maps.push("m".into()) } d }; let (a, b) = (one(()), one(())); let mut c = vec![a, b]; if sym::flip() { c.push(one(())); } go(p, c) }
    fn h_c13_args_flags() { let mut a = args(); a.flag = words(sym::choose(3), &["a", "c"]); a.unflag = words(sym::choose(3), &["a", "c", "b"]); a.unvar = words(sym::choose(2), &["a", "v"]); go_args(base(), a) }
    fn h_c13_args_vars() { let mut a = args(); let v = sym::text(1, 3); let n = sym::choose(3); for i in 0..n { let k = sym::choose(4); let mut x = words(k.min(1), &["a", "v"]); if k > 1 { x.push(if i == 0 { v.clone() } else { "2".into() }); } if k > 2 { x.push("3".into()); } a.var.push(x); } a.unvar = words(sym::choose(2), &["a", "v"]); go_args(base(), a) }
    fn h_c13_args_sets() { let mut a = args(); let n = sym::choose(3); for _ in 0..n { let k = sym::choose(4); let mut x = words(k.min(1), &["s", "t"]); x.extend(words(k.saturating_sub(1), &["x", "z"])); a.insert_into_set.push(x); } let n = sym::choose(3); for _ in 0..n { let k = sym::choose(3); let mut x = words(k.min(1), &["s", "t"]); x.extend(words(k.saturating_sub(1), &["x", "z"])); a.remove_from_set.push(x); } go_args(base(), a) }
    fn h_c13_args_maps() { let mut a = args(); let v = sym::text(1, 1); let n = sym::choose(3); for _ in 0..n { let k = sym::choose(6); let mut x = words(k.min(1), &["m", "o"]); for i in 1..k { x.push(if i % 2 == 0 { v.clone() } else { sym::pick(&["k", "j"]).to_string() }); } a.insert_into_map.push(x); } let n = sym::choose(2); for _ in 0..n { let k = sym::choose(3); let mut x = words(k.min(1), &["m", "o"]); x.extend(words(k.saturating_sub(1), &["k", "j"])); a.remove_from_map.push(x); } go_args(base(), a) }
    fn h_c13_args_two_removals() { let mut a = args(); if sym::flip() { a.insert_into_map.push(st(&["m", "j", "1"])); } for _ in 0..2 { let k = sym::choose(3); let mut x = words(k.min(1), &["m", "o"]); x.extend(words(k.saturating_sub(1), &["k", "j"])); a.remove_from_map.push(x); } go_args(base(), a) }
}
/// What the command line `words` is parsed to, by the rules of its help text; `None`: refused.
fn parsed(words: &[String]) -> Option<ParamsDiffArgParser> {
    let mut a = args(); let mut i = 0; let opt = |w: &String| w.starts_with('-');
    while i < words.len() {
        let n = words[i].as_str(); i += 1; let mut v = vec![]; let max = match n { "-f" | "--flag" | "-F" | "--unflag" | "-V" | "--unvar" => 1, "-v" | "--var" => 2, _ => usize::MAX };
        while i < words.len() && !opt(&words[i]) && v.len() < max { v.push(words[i].clone()); i += 1; }
        let min = match n { "-v" | "--var" | "--insert-into-map" => 2, _ => 1 }; if v.len() < min { return None; }
        match n { "-f" | "--flag" => a.flag.append(&mut v), "-F" | "--unflag" => a.unflag.append(&mut v), "-v" | "--var" => a.var.push(v), "-V" | "--unvar" => a.unvar.append(&mut v), "--insert-into-set" => a.insert_into_set.push(v), "--remove-from-set" => a.remove_from_set.push(v), "--insert-into-map" => a.insert_into_map.push(v), "--remove-from-map" => a.remove_from_map.push(v), _ => return None }
    }
    Some(a)
}
fn command_line(w: &[String]) -> Option<ParamsDiffArgParser> { use clap::{Args, FromArgMatches}; let c = ParamsDiffArgParser::augment_args(clap::Command::new("x").no_binary_name(true)); let m = c.try_get_matches_from(w.to_vec()).ok()?; ParamsDiffArgParser::from_arg_matches(&m).ok() }
const OPTS: [&str; 12] = ["-f", "-F", "-v", "-V", "--flag", "--unflag", "--var", "--unvar", "--insert-into-set", "--remove-from-set", "--insert-into-map", "--remove-from-map"];
fn option(short: bool, max: u8) -> Vec<String> { let mut v = st(&[sym::pick(if short { &OPTS[4..] } else { &OPTS })]); let n = sym::choose(max + 1); for i in 0..n { v.push(["n", "m", "o"][i].into()); } v }
fn go_line(w: Vec<String>) { let want = parsed(&w); let got = command_line(&w); sym::observe(got.is_some() as u64); sym::cover(if want.is_some() { "parsed" } else { "refused" }); match (got, want) { (Some(g), Some(w)) => sym::check(g == w, "options-mean-what-they-say"), (None, None) => (), (Some(_), None) => sym::check(false, "unusable-options-refused"), (None, Some(_)) => sym::check(false, "usable-options-accepted") } }
pub mod line { use super::*; harnesses! {
    fn h_c13_one_option() { go_line(option(false, 3)) }
    fn h_c13_two_options() { let mut w = option(true, 2); w.extend(option(true, 2)); go_line(w) }
} }
#[cfg(feature = "full")]
pub mod http {
    use super::*;
    fn proxy(i: usize) -> ProxyConfig { match i { 0 => "http://p:1/".try_into().unwrap(), _ => "socks5://q/".try_into().unwrap() } }
    fn proxies() -> Vec<ProxyConfig> { let n = sym::choose(3); (0..n).map(|_| proxy(sym::choose(2))).collect() }
    fn tri() -> Option<bool> { match sym::choose(3) { 0 => None, 1 => Some(false), _ => Some(true) } }
    fn policy() -> RedirectPolicy { match sym::choose(3) { 0 => RedirectPolicy::None, 1 => RedirectPolicy::Limited(10), _ => RedirectPolicy::Limited(3) } }
    fn same_config(a: &HttpClientConfig, b: &HttpClientConfig) { sym::check(a.redirect_policy == b.redirect_policy, "redirect-policy-exact"); sym::check(a.https_only == b.https_only, "https-only-exact"); sym::check(a.no_proxy == b.no_proxy, "no-proxy-exact"); sym::check(a.referer == b.referer, "referer-exact"); sym::check(a.proxies == b.proxies, "proxies-exact"); sym::check(a.extra_certificates == b.extra_certificates, "certificates-exact"); sym::check(a.default_headers == b.default_headers, "headers-exact"); }
    harnesses! {
        fn h_c13_client_switches() {
            let mut c = HttpClientConfig { redirect_policy: policy(), https_only: sym::bool(), no_proxy: sym::bool(), referer: sym::bool(), ..Default::default() };
            let d = HttpClientConfigDiff { redirect_policy: if sym::flip() { Some(policy()) } else { None }, https_only: tri(), no_proxy: tri(), referer: tri(), ..Default::default() };
            let w = HttpClientConfig { redirect_policy: d.redirect_policy.clone().unwrap_or(c.redirect_policy.clone()), https_only: d.https_only.unwrap_or(c.https_only), no_proxy: d.no_proxy.unwrap_or(c.no_proxy), referer: d.referer.unwrap_or(c.referer), ..Default::default() };
            d.apply(&mut c); sym::observe(c.https_only as u64 + 2 * c.no_proxy as u64 + 4 * c.referer as u64); same_config(&c, &w)
        }
        fn h_c13_client_lists() {
            let mut c = HttpClientConfig { proxies: proxies(), extra_certificates: subset(&["x", "y"]).into_iter().collect(), ..Default::default() };
            let d = HttpClientConfigDiff { set_proxies: if sym::flip() { Some(proxies()) } else { None }, add_proxies: proxies(), add_extra_certificates: subset(&["x", "z"]).into_iter().collect(), remove_extra_certificates: if sym::flip() { set(&["x"]) } else { set(&["z", "y"]) }, ..Default::default() };
            let mut w = c.clone(); if let Some(p) = &d.set_proxies { w.proxies = p.clone(); } for p in &d.add_proxies { w.proxies.push(p.clone()); }
            for x in ["x", "y", "z"] { let had = c.extra_certificates.contains(x) || d.add_extra_certificates.contains(x); if had && !d.remove_extra_certificates.contains(x) { w.extra_certificates.insert(x.into()); } else { w.extra_certificates.remove(x); } }
            d.apply(&mut c); sym::observe((c.proxies.len() * 8 + c.extra_certificates.len()) as u64); same_config(&c, &w)
        }
        /// Default headers are added; a header that was there is not lost unless the diff has one of its name.
        fn h_c13_client_headers() {
            const H: [&str; 4] = ["{}", "{\"x-a\":\"1\"}", "{\"x-b\":\"2\"}", "{\"x-a\":\"3\",\"x-b\":\"4\"}"]; let (i, k) = (sym::choose(4), sym::choose(4)); let mut c: HttpClientConfig = serde_json::from_str(&["{\"default_headers\":", H[i], "}"].concat()).unwrap(); let d: HttpClientConfigDiff = serde_json::from_str(&["{\"add_default_headers\":", H[k], "}"].concat()).unwrap();
            d.apply(&mut c); sym::observe(c.default_headers.len() as u64); for (n, w) in [("x-a", [None, Some("1"), None, Some("3")]), ("x-b", [None, None, Some("2"), Some("4")])] { let got = c.default_headers.get_all(n).iter().last().map(|x| x.as_bytes()); sym::check(got == w[k].or(w[i]).map(|x| x.as_bytes()), "headers-exact"); }
            sym::check(c == HttpClientConfig { default_headers: c.default_headers.clone(), ..Default::default() }, "nothing-else-changes");
        }
        /// The options about the HTTP client and the cache reach the parameters, alone and together.
        fn h_c13_args_client() {
            let mut a = args(); if sym::flip() { a.proxy = Some(proxy(sym::choose(2))); } a.no_proxy = tri(); a.read_cache = tri(); a.write_cache = tri(); if sym::flip() { a.flag.push("f".into()); }
            sym::check(a.does_anything() == (a != args()), "does-something-iff-any-option-is-given");
            let mut p = Params::default(); if sym::flip() { p.http_client_config.proxies = vec![proxy(0), proxy(1)]; p.http_client_config.no_proxy = true; p.http_client_config.referer = true; p.read_cache = false; }
            let mut w = p.clone(); if let Some(x) = &a.proxy { w.http_client_config.proxies = vec![x.clone()]; } if let Some(x) = a.no_proxy { w.http_client_config.no_proxy = x; } if let Some(x) = a.read_cache { w.read_cache = x; } if let Some(x) = a.write_cache { w.write_cache = x; } if !a.flag.is_empty() { w.flags.insert("f".into()); }
            match a.build() { Ok(d) => { d.apply(&mut p); sym::observe(p.read_cache as u64 + 2 * p.write_cache as u64); sym::check(p.read_cache == w.read_cache, "read-cache-exact"); sym::check(p.write_cache == w.write_cache, "write-cache-exact"); sym::check(p.flags == w.flags, "flags-exact"); same_config(&p.http_client_config, &w.http_client_config) } Err(_) => sym::check(false, "good-options-accepted") }
        }
        /// Options with an optional boolean value, and --proxy.
        fn h_c13_client_options() {
            let mut a = args(); let mut w = vec![]; let mut good = true; let n = 1 + sym::choose(2); let mut used = [false; 4];
            for _ in 0..n {
                let o = sym::choose(4); if used[o] { sym::cover("repeated"); good = false; } used[o] = true; w.push(["--read-cache", "--write-cache", "--no-proxy", "--proxy"][o].to_string());
                let v = sym::pick(&[None, Some("true"), Some("false"), Some("x"), Some("http://p:1/"), Some("socks5://q/")]); w.extend(v.map(|x| x.to_string()));
                if o == 3 { match v { Some(u @ ("http://p:1/" | "socks5://q/")) => a.proxy = Some(proxy((u == "socks5://q/") as usize)), _ => good = false } }
                else { let b = match v { None | Some("true") => Some(true), Some("false") => Some(false), _ => { good = false; None } }; match o { 0 => a.read_cache = b, 1 => a.write_cache = b, _ => a.no_proxy = b } }
            }
            let got = command_line(&w); sym::observe(got.is_some() as u64); match got { Some(g) => { sym::cover("parsed"); sym::check(good, "unusable-options-refused"); if good { sym::check(g == a, "options-mean-what-they-say"); } } None => { sym::cover("refused"); sym::check(!good, "usable-options-accepted") } }
        }
    }
}
