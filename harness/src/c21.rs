//! C21: the cache.  (feature `full`, with SQLite itself among the encoded code)
use crate::ctx::*;
#[cfg(feature = "full")]
mod x {
    use super::*;
    use std::borrow::Cow;
    use std::sync::atomic::{AtomicUsize, Ordering};
    type V = Option<Option<String>>;
    const CATS: [&str; 2] = ["a", "b"]; const KEYS: [&str; 2] = ["k", "K"];
    pub fn b<T>(x: T) -> Box<T> { Box::new(x) }
    /// What is cached under a category and key must be this.
    pub fn expect(c: &Cache, cat: &str, key: &str, want: &V) { match c.read(cat, key) { Err(_) => sym::check(false, "reads-succeed"), Ok(got) => match (&got, want) { (None, None) => sym::observe(0), (Some(None), Some(None)) => sym::observe(1), (Some(Some(g)), Some(Some(w))) => { sym::observe_bytes(g.as_bytes()); sym::check(sym::same(g, w), "reads-what-was-written-last") } _ => { sym::observe(3); sym::check(false, "reads-what-was-written-last") } } } }
    fn write(c: &Cache, cat: &str, key: &str, v: Option<&str>) { sym::check(c.write(cat, key, v).is_ok(), "writes-succeed") }
    fn seed(c: &Cache, cat: &str, key: &str, v: &V) { if let Some(v) = v { write(c, cat, key, v.as_deref()) } }
    fn cached(n: usize, some: &[&str]) -> V { match n { 0 => None, 1 => Some(None), _ => Some(Some(some[n - 2].to_string())) } }
    /// Any history of writes and reads: every entry reads as last written.
    pub fn history(n: usize) { let c = Cache::default(); let mut m: [[V; 2]; 2] = Default::default(); let t = sym::over_n(1, b"xy\0'%~");
        for _ in 0..n { let (i, k) = (sym::choose(2), sym::choose(2)); if sym::flip() { let v = match sym::choose(3) { 0 => None, 1 => Some(t.clone()), _ => Some(String::new()) }; write(&c, CATS[i], KEYS[k], v.as_deref()); m[i][k] = Some(v); sym::cover("written") } else { expect(&c, CATS[i], KEYS[k], &m[i][k]); sym::cover("read") } }
        for i in 0..2 { for k in 0..2 { expect(&c, CATS[i], KEYS[k], &m[i][k]) } } }
    /// Entries are the same exactly if both category and key are.
    pub fn keys(max: u8) { const A: &[u8] = b"aA%\0' "; let (c1, k1, c2, k2) = (sym::over(0, 1, A), sym::over(0, max, A), sym::over(0, 1, A), sym::over(0, max, A)); let c = Cache::default(); write(&c, &c1, &k1, Some("v")); let hit = sym::same(&c1, &c2) && sym::same(&k1, &k2); sym::cover(if hit { "hit" } else { "miss" }); expect(&c, &c2, &k2, &if hit { Some(Some("v".to_string())) } else { None }); }
    static RUN: AtomicUsize = AtomicUsize::new(0);
    fn new<'a>(_: &'a TaskStateView<'_>) -> Result<Option<Cow<'a, str>>, StringSourceError> { RUN.fetch_add(1, Ordering::Relaxed); Ok(Some("new".into())) }
    fn none<'a>(_: &'a TaskStateView<'_>) -> Result<Option<Cow<'a, str>>, StringSourceError> { RUN.fetch_add(1, Ordering::Relaxed); Ok(None) }
    fn fail<'a>(_: &'a TaskStateView<'_>) -> Result<Option<Cow<'a, str>>, StringSourceError> { RUN.fetch_add(1, Ordering::Relaxed); Err(StringSourceError::ExplicitError("e".into())) }
    /// `StringSource::Cache`: read only if reading is on, evaluated only if needed, written only if writing is on.
    pub fn source() { let mut w = W::new("http://a.b/k"); w.params.read_cache = sym::flip(); w.params.write_cache = sym::flip(); let p = sym::choose(4); let pre = cached(p, &["old", ""]); seed(&w.cache, "a", "k", &pre); seed(&w.cache, "a", "other", &Some(Some("x".into()))); let o = sym::choose(3); RUN.store(0, Ordering::Relaxed);
        let src = StringSource::Cache { category: bs("a"), key: b(StringSource::Part(UrlPart::PathSegment(0))), value: b(StringSource::Custom([new, none, fail][o])) };
        let (want, runs, post): (Result<Option<&str>, ()>, usize, V) = if w.params.read_cache && pre.is_some() { (Ok(pre.as_ref().unwrap().as_deref()), 0, pre.clone()) } else { let r = [Ok(Some("new")), Ok(None), Err(())][o]; (r, 1, if w.params.write_cache && r.is_ok() { Some(r.unwrap().map(|x| x.to_string())) } else { pre.clone() }) };
        { let v = w.view(); let got = src.get(&v); sym::observe(got.is_ok() as u64); sym::cover("source"); sym::check(match (&got, want) { (Ok(g), Ok(w)) => sym::same_opt(g.as_deref(), w), (Err(_), Err(())) => true, _ => false }, "cached-or-computed-value"); } sym::check(RUN.load(Ordering::Relaxed) == runs, "computed-only-if-needed"); expect(&w.cache, "a", "k", &post); expect(&w.cache, "b", "k", &None); expect(&w.cache, "a", "other", &Some(Some("x".into()))); }
    pub fn source_absent() { let w = W::new("http://a.b/k"); let k = sym::choose(4); let e = || if k < 2 { b(StringSource::None) } else { b(StringSource::Error("e".into())) }; RUN.store(0, Ordering::Relaxed); let src = StringSource::Cache { category: if k & 1 == 0 { e() } else { bs("a") }, key: if k & 1 == 1 { e() } else { bs("k") }, value: b(StringSource::Custom(new)) }; let r = src.get(&w.view()).is_err(); sym::cover("absent"); sym::check(r && RUN.load(Ordering::Relaxed) == 0, "no-key-no-value"); expect(&w.cache, "a", "k", &None); }
    fn m_set(s: &mut TaskState) -> Result<(), MapperError> { RUN.fetch_add(1, Ordering::Relaxed); s.url.set_path("/new"); Ok(()) }
    fn m_not(_: &mut TaskState) -> Result<(), MapperError> { RUN.fetch_add(1, Ordering::Relaxed); Ok(()) }
    fn m_fail(_: &mut TaskState) -> Result<(), MapperError> { RUN.fetch_add(1, Ordering::Relaxed); Err(MapperError::ExplicitError("e".into())) }
    const U: &str = "http://a.b/old"; const NEW: &str = "http://a.b/new"; const C: &str = "http://c.d/cached";
    /// `Mapper::CacheUrl`: the same, for what a mapper makes of a URL.
    pub fn url() { let mut w = W::new(U); w.params.read_cache = sym::flip(); w.params.write_cache = sym::flip(); let p = sym::choose(4); let pre = cached(p, &[C, "::"]); seed(&w.cache, "a", U, &pre); seed(&w.cache, "b", U, &Some(Some("x".into()))); let o = sym::choose(3); RUN.store(0, Ordering::Relaxed);
        let mp = Mapper::CacheUrl { category: s("a"), mapper: b(Mapper::Custom([m_set, m_not, m_fail][o])) };
        let ok = { let mut t = w.state(); mp.apply(&mut t).is_ok() }; sym::observe(ok as u64); sym::observe_bytes(w.url.as_str().as_bytes());
        let (want, end, runs, post): (bool, &str, usize, V) = if w.params.read_cache && pre.is_some() { if p == 2 { (true, C, 0, pre.clone()) } else { (false, U, 0, pre.clone()) } } else { let e = [NEW, U, U][o]; (o < 2, e, 1, if w.params.write_cache && o < 2 { Some(Some(e.to_string())) } else { pre.clone() }) };
        sym::cover("url"); sym::check(ok == want, "cached-or-computed-url"); sym::check(w.url.as_str() == end, "cached-or-computed-url"); sym::check(RUN.load(Ordering::Relaxed) == runs, "computed-only-if-needed"); expect(&w.cache, "a", U, &post); expect(&w.cache, "a", NEW, &None); expect(&w.cache, "b", U, &Some(Some("x".into()))); }
    pub fn url_absent() { let mut w = W::new(U); RUN.store(0, Ordering::Relaxed); let e = if sym::flip() { StringSource::None } else { StringSource::Error("e".into()) }; let ok = { let mut t = w.state(); Mapper::CacheUrl { category: e, mapper: b(Mapper::Custom(m_set)) }.apply(&mut t).is_ok() }; sym::cover("absent"); sym::check(!ok && RUN.load(Ordering::Relaxed) == 0 && w.url.as_str() == U, "no-key-no-value"); }
    /// A cached redirect needs no network.
    pub fn redirect() { let mut w = W::new(U); let p = 1 + sym::choose(3); let pre = cached(p, &[C, "::"]); seed(&w.cache, "redirect", U, &pre); w.params.write_cache = sym::flip(); let ok = { let mut t = w.state(); Mapper::ExpandRedirect { headers: Default::default(), http_client_config_diff: None }.apply(&mut t).is_ok() }; sym::cover("redirect"); sym::observe(ok as u64); sym::check(ok == (p == 2), "cached-or-computed-url"); sym::check(w.url.as_str() == if p == 2 { C } else { U }, "cached-or-computed-url"); expect(&w.cache, "redirect", U, &pre); }
    /// All tasks of a job, and shared snippets within them, share the job's cache; what is cached changes no result.
    pub fn job() { let mut c = Config { docs: Default::default(), cache_path: Default::default(), params: Default::default(), commons: Default::default(), rules: Rules(vec![]) }; c.params.read_cache = sym::flip(); c.params.write_cache = sym::flip(); RUN.store(0, Ordering::Relaxed);
        let key = || StringSource::Part(UrlPart::PathSegment(0)); let src = || StringSource::Cache { category: bs("a"), key: b(key()), value: b(StringSource::Custom(new)) };
        let set = |v| Mapper::SetPart { part: UrlPart::Query, value: v }; let k = sym::choose(4);
        let rule = match k { 0 => Rule::Mapper(set(src())),
            1 => { c.commons.string_sources = map(vec![("c", src())]); Rule::Mapper(set(StringSource::Common(CommonCall { name: bs("c"), args: Default::default() }))) }
            2 => { c.commons.mappers = map(vec![("c", set(src()))]); Rule::Mapper(Mapper::Common(CommonCall { name: bs("c"), args: Default::default() })) }
            _ => { c.commons.rules = map(vec![("c", Rule::Mapper(set(src())))]); Rule::Common(CommonCall { name: bs("c"), args: Default::default() }) } }; c.rules.0.push(rule);
        let j = JobContext::default(); let cache = Cache::default(); let t = |u: &str| TaskConfig { url: BetterUrl::parse(u).unwrap(), context: Default::default() }; let n = sym::choose(3); let items: Vec<_> = [["http://a.b/k", "http://c.d/k"], ["http://a.b/k", "http://a.b/K"], ["http://a.b/", "http://a.b/"]][n].iter().map(|u| Ok(t(u))).collect();
        let mut job = Job { config: JobConfig { config: Cow::Borrowed(&c), cache: cache.clone() }, context: Cow::Borrowed(&j), task_configs_source: b(items.into_iter()) }; let (mut i, mut good) = (0, 0); for t in job.iter() { i += 1; let Ok(t) = t else { sym::check(false, "tasks-succeed"); continue }; match t.r#do() { Ok(u) => { good += 1; sym::check(u.query() == Some("new"), "cached-or-computed-value") } Err(_) => sym::check(false, "tasks-succeed") } } sym::check(i == 2 && good == 2, "tasks-succeed");
        let hit = c.params.read_cache && c.params.write_cache && n != 1; sym::cover(if hit { "second-from-cache" } else { "both-computed" }); sym::check(RUN.load(Ordering::Relaxed) == if hit { 1 } else { 2 }, "computed-only-if-needed"); expect(&cache, "a", ["k", "K", ""][n], &if c.params.write_cache { Some(Some("new".into())) } else { None }); }
    /// A cache connects when needed and once; a clone is the same cache; an in-memory cache ends with its connection.
    pub fn connection() { let c = Cache::from(CachePath::Memory); let d = c.clone(); { let mut i = c.0.lock().unwrap(); sym::check(i.connection().is_none() && *i.path() == CachePath::Memory, "connects-when-needed"); if sym::flip() { sym::check(i.connect().is_ok(), "connects"); sym::check(i.connect().is_ok(), "connects") } } write(&d, "a", "k", Some("v")); expect(&c, "a", "k", &Some(Some("v".into()))); { let mut i = c.0.lock().unwrap(); sym::check(i.connection().is_some(), "connects-when-needed"); i.disconnect(); sym::check(i.connection().is_none(), "disconnects") } expect(&c, "a", "k", &None); expect(&Cache::default(), "a", "k", &None); sym::cover("connection") }
    /// Threads that share a cache: each sees what it wrote, and nothing fails.
    pub fn threads(n: usize) { sym::schedules(n); let c = Cache::default(); let same = sym::flip(); if sym::flip() { write(&c, "b", "k", Some("0")); } let d = c.clone(); let work = |c: &Cache, k: &str, v: &str| { let w = c.write("a", k, Some(v)).is_ok(); (w, c.read("a", k).ok()) };
        let (a, b) = std::thread::scope(|s| { let h = s.spawn(|| work(&d, if same { "k" } else { "K" }, "2")); let a = work(&c, "k", "1"); (a, h.join()) }); sym::cover(if same { "same" } else { "different" }); let Ok(b) = b else { sym::check(false, "no-thread-fails"); return };
        sym::check(a.0 && b.0 && a.1.is_some() && b.1.is_some(), "no-thread-fails"); let is = |x: &Option<V>, s: &str| x.as_ref().is_some_and(|x| x.as_ref().is_some_and(|x| x.as_deref() == Some(s)));
        if same { sym::check((is(&a.1, "1") || is(&a.1, "2")) && (is(&b.1, "1") || is(&b.1, "2")) && !(is(&a.1, "2") && is(&b.1, "1")), "as-if-one-after-the-other"); let l = c.read("a", "k").ok(); sym::check(if is(&a.1, "2") { is(&l, "2") } else if is(&b.1, "1") { is(&l, "1") } else { is(&l, "1") || is(&l, "2") }, "last-written") }
        else { sym::check(is(&a.1, "1") && is(&b.1, "2"), "as-if-one-after-the-other"); expect(&c, "a", "k", &Some(Some("1".into()))); expect(&d, "a", "K", &Some(Some("2".into()))) } }
    /// Threads that read the same cache, one of which then writes.
    pub fn readers(n: usize) { sym::schedules(n); let c = Cache::default(); let old = match sym::choose(3) { 0 => None, 1 => Some(None), _ => Some(Some("0".to_string())) }; if let Some(v) = &old { write(&c, "b", "k", v.as_deref()); } let d = c.clone(); let w = sym::flip();
        let (a, b) = std::thread::scope(|s| { let h = s.spawn(|| d.read("b", "k").ok()); let a = c.read("b", "k").ok(); let x = !w || c.write("b", "k", Some("1")).is_ok(); (a.filter(|_| x), h.join()) }); let Ok(b) = b else { sym::check(false, "no-thread-fails"); return };
        sym::check(a.is_some() && b.is_some(), "no-thread-fails"); let new = Some(Some("1".to_string())); sym::check(a == Some(old.clone()) && (b == Some(old.clone()) || (w && b == Some(new.clone()))), "as-if-one-after-the-other"); expect(&c, "b", "k", if w { &new } else { &old }); sym::cover(if w { "one-writes" } else { "both-read" }) }
    /// A name for a file no one else uses; it and what SQLite puts beside it are removed.
    struct Tmp(String);
    impl Tmp { fn new(k: &str) -> Tmp { let t = Tmp(["/tmp/uc-c21-", &std::process::id().to_string(), "-", k].concat()); t.rm(); t } fn rm(&self) { for e in ["", "-journal"] { let _ = std::fs::remove_file([&self.0, e].concat()); } } fn cache(&self) -> Cache { CachePath::Path(self.0.clone()).into() } }
    impl Drop for Tmp { fn drop(&mut self) { self.rm() } }
    /// What is written to a cache file is there for whoever opens it next.
    pub fn file(n: usize) { let t = Tmp::new("a"); let other = Tmp::new("b"); let mut m: [V; 2] = Default::default(); let mut c = t.cache(); if sym::flip() { sym::check(c.0.lock().unwrap().connect().is_ok(), "connects") }
        for _ in 0..n { match sym::choose(4) { 0 => c = t.cache(), 1 => c.0.lock().unwrap().disconnect(), _ => { let k = sym::choose(2); let v = if sym::flip() { Some(sym::pick(&["v", "\0'"])) } else { None }; write(&c, "a", KEYS[k], v); m[k] = Some(v.map(|x| x.to_string())); } } }
        sym::cover("file"); let c2 = t.cache(); for k in 0..2 { expect(&c2, "a", KEYS[k], &m[k]); expect(&c, "a", KEYS[k], &m[k]) } expect(&other.cache(), "a", "k", &None); drop(c); drop(c2); other.rm(); t.rm(); }
    /// Whatever point its creation was interrupted at, a cache file can be used.
    pub fn interrupted() { let t = Tmp::new("c"); match sym::choose(3) { 0 => (), 1 => { sym::check(std::fs::File::create(&t.0).is_ok(), "connects") } _ => { let c = t.cache(); sym::check(c.0.lock().unwrap().connect().is_ok(), "connects") } } sym::cover("interrupted"); let c = t.cache(); expect(&c, "a", "k", &None); write(&c, "a", "k", Some("v")); expect(&t.cache(), "a", "k", &Some(Some("v".into()))); drop(c); t.rm() }
    /// `file://` names the same file as the path after it.
    pub fn uri() { let t = Tmp::new("d"); let c: [Cache; 2] = [t.cache(), CachePath::Path(["file://", &t.0].concat()).into()]; let k = sym::flip() as usize; if sym::flip() { sym::check(c[sym::choose(2)].0.lock().unwrap().connect().is_ok(), "connects") } sym::cover("uri"); write(&c[k], "a", "k", Some("v")); sym::check(std::fs::exists(&t.0).is_ok_and(|x| x), "the-file-is-there"); for i in [1 - k, k] { expect(&c[i], "a", "k", &Some(Some("v".into()))) } t.rm(); }
    /// No file where a file cannot be: every use is an error.
    pub fn nowhere() { let p = sym::pick(&["/tmp/", "/tmp/uc-c21-no-such-directory/x/y"]); let c: Cache = CachePath::from(p).into(); sym::cover("nowhere"); sym::check(c.read("a", "k").is_err() && c.write("a", "k", Some("v")).is_err() && c.read("a", "k").is_err(), "errors-are-reported") }
    pub fn path() { let (t, s, p) = sym::pick(&[(":memory:", ":memory:", None), ("x", "x", Some("x")), ("file:///x", "file:///x", Some("/x")), (":Memory:", ":Memory:", Some(":Memory:")), ("", "", Some(""))]); let c = CachePath::from(t); sym::cover("path"); sym::check(c.as_str() == s && c.as_ref() as &str == s, "paths-mean-what-is-documented"); sym::check(c.as_path().map(|x| x.to_str().unwrap()) == p, "paths-mean-what-is-documented"); sym::check((c == CachePath::Memory) == p.is_none() && t.parse::<CachePath>().is_ok_and(|x| x == c), "paths-mean-what-is-documented"); sym::check(Cache::from(c.clone()).0.lock().unwrap().path() == &c, "paths-mean-what-is-documented") }
}
macro_rules! full { ($e:expr) => { #[cfg(feature = "full")] { $e } } }
harnesses! {
    fn h_c21_history() { full!(x::history(2)) }
    fn h_c21_threads() { full!(x::threads(1)) }
    fn h_c21_threads_reading() { full!(x::readers(1)) }
    fn h_c21t_threads() { full!(x::threads(2)) }
    fn h_c21_keys() { full!(x::keys(1)) }
    fn h_c21_source() { full!(x::source()) }
    fn h_c21_source_absent() { full!(x::source_absent()) }
    fn h_c21_url() { full!(x::url()) }
    fn h_c21_url_absent() { full!(x::url_absent()) }
    fn h_c21_redirect() { full!(x::redirect()) }
    fn h_c21_job() { full!(x::job()) }
    fn h_c21_connection() { full!(x::connection()) }
    fn h_c21_file() { full!(x::file(2)) }
    fn h_c21_interrupted() { full!(x::interrupted()) }
    fn h_c21_nowhere() { full!(x::nowhere()) }
    fn h_c21_uri() { full!(x::uri()) }
    fn h_c21_path() { full!(x::path()) }
    fn h_c21t_file() { full!(x::file(4)) }
    fn h_c21t_history() { full!(x::history(3)) }
    fn h_c21t_keys() { full!(x::keys(2)) }
}
