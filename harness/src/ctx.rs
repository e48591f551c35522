//! A world for harnesses: everything a task state refers to, plus small reference helpers.
use std::collections::*;
pub use url_cleaner::types::*;
pub use url_cleaner::glue::*;
pub(crate) use crate::{harnesses, sym};
pub struct W { pub url: BetterUrl, pub scratchpad: JobScratchpad, pub context: TaskContext, pub job_context: JobContext, pub params: Params, pub commons: Commons, #[cfg(feature = "full")] pub cache: Cache }
impl W {
    pub fn new(u: &str) -> W { W { url: BetterUrl::parse(u).unwrap(), scratchpad: JobScratchpad::default(), context: TaskContext::default(), job_context: JobContext::default(), params: Params::default(), commons: Commons::default(), #[cfg(feature = "full")] cache: Cache::default() } }
    pub fn view(&self) -> TaskStateView<'_> { self.view_with(None) }
    pub fn view_with<'a>(&'a self, a: Option<&'a CommonCallArgs<'a>>) -> TaskStateView<'a> { TaskStateView { url: &self.url, scratchpad: &self.scratchpad, common_args: a, context: &self.context, job_context: &self.job_context, params: &self.params, commons: &self.commons, #[cfg(feature = "full")] cache: &self.cache } }
    pub fn state(&mut self) -> TaskState<'_> { self.state_with(None) }
    pub fn state_with<'a>(&'a mut self, a: Option<&'a CommonCallArgs<'a>>) -> TaskState<'a> { TaskState { url: &mut self.url, scratchpad: &mut self.scratchpad, common_args: a, context: &self.context, job_context: &self.job_context, params: &self.params, commons: &self.commons, #[cfg(feature = "full")] cache: &self.cache } }
}
pub fn s(x: &str) -> StringSource { StringSource::String(x.to_string()) }
pub fn bs(x: &str) -> Box<StringSource> { Box::new(s(x)) }
/// Apply a modification; (ok, resulting string).
pub fn apply(m: &StringModification, x: &str, v: &TaskStateView) -> (bool, String) { let mut t = x.to_string(); let ok = m.apply(&mut t, v).is_ok(); (ok, t) }
/// Byte offset at which a char may start or the string may end, from the UTF-8 encoding rules.
pub fn bnd(x: &[u8], i: usize) -> bool { i == x.len() || (i < x.len() && (x[i] & 0xC0) != 0x80) }
/// Python-like index: `-1` is the last of `n` things.  `None`: no such thing.
pub fn idx(i: isize, n: usize) -> Option<usize> { let v = if i < 0 { i as i128 + n as i128 } else { i as i128 }; if v >= 0 && v < n as i128 { Some(v as usize) } else { None } }
/// Python-like boundary between things.
pub fn bound(i: isize, n: usize) -> Option<usize> { let v = if i < 0 { i as i128 + n as i128 } else { i as i128 }; if v >= 0 && v <= n as i128 { Some(v as usize) } else { None } }
/// The half-open range between two boundaries.
pub fn range(a: isize, b: Option<isize>, n: usize) -> Option<(usize, usize)> { let a = bound(a, n)?; let b = match b { Some(b) => bound(b, n)?, None => n }; if a <= b { Some((a, b)) } else { None } }
/// Any `isize` (64 symbolic bits); those of `-n..=n` are case-split, all others stay symbolic.
pub fn index(n: u8) -> isize { let mut v = 0u64; for i in 0..8 { v |= (sym::u8() as u64) << (8 * i); } let v = v as isize; if (v >= -(n as isize)) & (v <= n as isize) { sym::conc(v as u64) as isize } else { v } }
pub fn opt_index(n: u8) -> Option<isize> { if sym::flip() { Some(index(n)) } else { None } }
/// Find `n` in `h` at or after `from`; plain search (branches on symbolic bytes).
pub fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> { let mut i = from; while i + n.len() <= h.len() { if sym::same_bytes(&h[i..i + n.len()], n) { return Some(i); } i += 1; } None }
/// Split at every occurrence of a non-empty separator.
pub fn split(h: &[u8], sep: &[u8]) -> Vec<Vec<u8>> { let mut r = vec![]; let mut a = 0; loop { match find(h, sep, a) { Some(i) => { r.push(h[a..i].to_vec()); a = i + sep.len(); } None => { r.push(h[a..].to_vec()); return r; } } } }
pub fn join(p: &[Vec<u8>], sep: &[u8]) -> Vec<u8> { let mut r = vec![]; for (i, x) in p.iter().enumerate() { if i > 0 { r.extend_from_slice(sep); } r.extend_from_slice(x); } r }
pub fn cat(a: &[u8], b: &[u8], c: &[u8]) -> Vec<u8> { let mut r = a.to_vec(); r.extend_from_slice(b); r.extend_from_slice(c); r }
/// Assert the outcome of a modification against the expected result (`None`: must error and leave the string alone).
pub fn expect_mod(m: &StringModification, x: &str, v: &TaskStateView, want: Option<Vec<u8>>) {
    let (ok, t) = apply(m, x, v);
    sym::observe(ok as u64); sym::observe_bytes(t.as_bytes());
    match want {
        Some(w) => { sym::cover("value"); sym::check(ok, "succeeds-where-specified"); if ok { sym::check(sym::same_bytes(t.as_bytes(), &w), "result-as-specified"); } }
        None => { sym::cover("error"); sym::check(!ok, "errors-where-specified"); sym::check(sym::same(&t, x), "unchanged-on-error"); }
    }
}
pub fn map<V>(kv: Vec<(&str, V)>) -> HashMap<String, V> { kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect() }
pub fn set(k: &[&str]) -> HashSet<String> { k.iter().map(|x| x.to_string()).collect() }
