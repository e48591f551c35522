//! C20: regexes and globs.
use crate::ctx::*;
type M = StringModification;
/// A regex of known meaning.
enum N { C(&'static [u8]), Not(&'static [u8]), Cat(Vec<N>), Alt(Vec<N>), Rep(Box<N>, usize, usize, bool), G(usize, Box<N>), Bol(bool), Eol(bool) }
use N::*;
type Caps = [Option<(usize, usize)>; 4];
/// Leftmost-first matching by backtracking.
fn m(n: &N, x: &[u8], i: usize, c: Caps, k: &mut dyn FnMut(usize, Caps) -> Option<(usize, Caps)>) -> Option<(usize, Caps)> { match n {
    C(s) => if i < x.len() && any(s, x[i]) { k(i + 1, c) } else { None },
    Not(s) => if i < x.len() && !any(s, x[i]) { k(i + 1, c) } else { None },
    Cat(v) => cat_(v, x, i, c, k),
    Alt(v) => { for n in v { if let Some(r) = m(n, x, i, c, k) { return Some(r) } } None }
    Rep(n, lo, hi, greedy) => rep(n, *lo, *hi, *greedy, x, i, c, k),
    G(g, n) => m(n, x, i, c, &mut |j, mut c2| { c2[*g] = Some((i, j)); k(j, c2) }),
    Bol(multi) => if i == 0 || (*multi && x[i - 1] == b'\n') { k(i, c) } else { None },
    Eol(multi) => if i == x.len() || (*multi && x[i] == b'\n') { k(i, c) } else { None } } }
fn any(s: &[u8], c: u8) -> bool { let mut r = false; for y in s { r |= c == *y } r }
fn cat_(v: &[N], x: &[u8], i: usize, c: Caps, k: &mut dyn FnMut(usize, Caps) -> Option<(usize, Caps)>) -> Option<(usize, Caps)> { match v { [] => k(i, c), [n, r @ ..] => m(n, x, i, c, &mut |j, c2| cat_(r, x, j, c2, k)) } }
fn rep(n: &N, lo: usize, hi: usize, greedy: bool, x: &[u8], i: usize, c: Caps, k: &mut dyn FnMut(usize, Caps) -> Option<(usize, Caps)>) -> Option<(usize, Caps)> {
    if !greedy && lo == 0 { if let Some(r) = k(i, c) { return Some(r) } }
    if hi > 0 { if let Some(r) = m(n, x, i, c, &mut |j, c2| if j == i { None } else { rep(n, lo.saturating_sub(1), hi - 1, greedy, x, j, c2, k) }) { return Some(r) } }
    if greedy && lo == 0 { return k(i, c) } None }
/// The leftmost match at or after `from`.
fn find_at(n: &N, x: &[u8], from: usize) -> Option<Caps> { let mut i = from; while i <= x.len() { if let Some((j, mut c)) = m(n, x, i, [None; 4], &mut |j, c| Some((j, c))) { c[0] = Some((i, j)); return Some(c) } i += 1; } None }
/// Every successive match; an empty one right after a match does not count.
fn all(n: &N, x: &[u8], max: usize) -> Vec<Caps> { let mut r = vec![]; let (mut at, mut last) = (0, usize::MAX); while r.len() < max && at <= x.len() { match find_at(n, x, at) { None => break, Some(c) => { let (a, b) = c[0].unwrap(); if a == b && b == last { at += 1; continue } r.push(c); last = b; at = if a == b { b + 1 } else { b } } } }
    r }
enum T { L(&'static str), V(usize) }
use T::*;
/// Replacement texts and what they stand for.
fn template(named: bool) -> (&'static str, Vec<T>) { match sym::choose(6) { 0 => ("<$0>", vec![L("<"), V(0), L(">")]), 1 => ("${1}x", vec![V(1), L("x")]), 2 => ("$2-$1", vec![V(2), L("-"), V(1)]), 3 => ("$$1", vec![L("$1")]), 4 => ("", vec![]), _ => if named { ("$n.$9", vec![V(1), L(".")]) } else { ("$1x.$q", vec![L(".")]) } } }
fn expand(t: &[T], x: &[u8], c: &Caps, r: &mut Vec<u8>) { for p in t { match p { L(s) => r.extend_from_slice(s.as_bytes()), V(g) => if *g < 4 { if let Some((a, b)) = c[*g] { r.extend_from_slice(&x[a..b]) } } } } }
fn cfg(flags: &str) -> RegexConfig { RegexConfig { case_insensitive: flags.contains('i'), crlf: flags.contains('R'), dot_matches_new_line: flags.contains('s'), ignore_whitespace: flags.contains('x'), multi_line: flags.contains('m'), octal: flags.contains('o'), swap_greed: flags.contains('U'), unicode: !flags.contains('-'), line_terminator: if flags.contains('0') { b'a' } else { b'\n' } } }
fn b<X>(x: X) -> Box<X> { Box::new(x) }
fn plus(n: N, g: bool) -> N { Rep(b(n), 1, 99, g) } fn star(n: N, g: bool) -> N { Rep(b(n), 0, 99, g) }
/// (pattern, flags, meaning, alphabet of texts, named group)
fn pattern(k: usize) -> (&'static str, &'static str, N, &'static [u8], bool) { match k {
    0 => ("b", "", C(b"b"), b"abB", false), 1 => ("b", "i", C(b"bB"), b"abB", false), 2 => ("a.b", "", Cat(vec![C(b"a"), Not(b"\n"), C(b"b")]), b"ab\n", false), 3 => ("a.b", "s", Cat(vec![C(b"a"), Not(b""), C(b"b")]), b"ab\n", false),
    4 => ("^b$", "", Cat(vec![Bol(false), C(b"b"), Eol(false)]), b"ab\n", false), 5 => ("^b$", "m", Cat(vec![Bol(true), C(b"b"), Eol(true)]), b"ab\n", false), 6 => ("a+", "", plus(C(b"a"), true), b"ab", false), 7 => ("a+", "U", plus(C(b"a"), false), b"ab", false),
    8 => ("a b", "x", Cat(vec![C(b"a"), C(b"b")]), b"ab ", false), 9 => ("(a)(b)?", "", Cat(vec![G(1, b(C(b"a"))), Rep(b(G(2, b(C(b"b")))), 0, 1, true)]), b"ab", false), 10 => ("(?P<n>a|b)c", "", Cat(vec![G(1, b(Alt(vec![C(b"a"), C(b"b")]))), C(b"c")]), b"abc", true),
    11 => ("a|ab", "", Alt(vec![C(b"a"), Cat(vec![C(b"a"), C(b"b")])]), b"ab", false), 12 => ("b*", "", star(C(b"b"), true), b"ab", false), 13 => ("a(b*)b", "", Cat(vec![C(b"a"), G(1, b(star(C(b"b"), true))), C(b"b")]), b"ab", false), 14 => ("a.b|.B", "0", Alt(vec![Cat(vec![C(b"a"), Not(b"a"), C(b"b")]), Cat(vec![Not(b"a"), C(b"B")])]), b"abB", false), _ => ("\\142", "o", C(b"b"), b"ab", false) } }

fn wrap(p: &str, f: &str) -> RegexWrapper { RegexParts { pattern: p.to_string(), config: cfg(f) }.into() }
fn caps(k: usize, max: u8) { let (p, f, n, alpha, named) = pattern(k); let re = wrap(p, f); let _ = re.get(); let x = sym::over(0, max, alpha); let xb = x.as_bytes(); let w = W::new("http://a.b/"); let v = w.view();
    let first = find_at(&n, xb, 0);
    match sym::choose(6) {
        0 => expect_mod(&M::RegexFind(re), &x, &v, first.map(|c| { let (a, b) = c[0].unwrap(); xb[a..b].to_vec() })),
        1 => { let (t, ts) = template(named); expect_mod(&M::RegexCaptures { regex: re, replace: s(t) }, &x, &v, first.map(|c| { let mut r = vec![]; expand(&ts, xb, &c, &mut r); r })) }
        2 => { let (t, ts) = template(named); let j = sym::pick(&["", ",", "$0"]); let mut r = vec![]; for (i, c) in all(&n, xb, 99).iter().enumerate() { if i > 0 { r.extend_from_slice(j.as_bytes()) } expand(&ts, xb, c, &mut r) } expect_mod(&M::JoinAllRegexCaptures { regex: re, replace: s(t), join: s(j) }, &x, &v, Some(r)) }
        3 => { let (t, ts) = template(named); let lim = sym::choose(4); let (md, max) = match lim { 0 => (M::RegexReplace { regex: re, replace: s(t) }, 1), 1 => (M::RegexReplaceAll { regex: re, replace: s(t) }, 99), 2 => (M::RegexReplacen { regex: re, n: 2, replace: s(t) }, 2), _ => (M::RegexReplacen { regex: re, n: 0, replace: s(t) }, 99) };
            let mut r = vec![]; let mut at = 0; for c in all(&n, xb, max) { let (a, b) = c[0].unwrap(); r.extend_from_slice(&xb[at..a]); expand(&ts, xb, &c, &mut r); at = b; } r.extend_from_slice(&xb[at..]); expect_mod(&md, &x, &v, Some(r)) }
        4 => { let r = StringMatcher::Regex(re).satisfied_by(&x, &v); sym::cover("matcher"); sym::observe(r.is_ok() as u64); sym::check(r.is_ok_and(|r| r == first.is_some()), "matches-where-specified") }
        _ => { let src = StringSource::RegexFind { value: b(s(&x)), regex: re }; let r = src.get(&v); sym::cover("source"); match r { Ok(r) => { let want = first.map(|c| { let (a, b) = c[0].unwrap(); x[a..b].to_string() }); sym::observe(r.is_some() as u64); sym::check(sym::same_opt(r.as_deref(), want.as_deref()), "result-as-specified") } Err(_) => sym::check(false, "succeeds-where-specified") } }
    } }

/// A glob of known meaning.
enum Gl { Lit(u8), One, Star, Set(&'static [u8], bool), Deep }
use Gl::*;
fn low(c: u8) -> u8 { c | ((c >= b'A' && c <= b'Z') as u8) << 5 }
/// Whether a glob matches all of a text. A wildcard never takes a separator or a leading dot where those must be literal; `Deep` is any number of whole components.
fn glob(g: &[Gl], x: &[u8], i: usize, o: (bool, bool, bool)) -> bool { let (sensitive, sep, dot) = o; let wild = |i: usize| -> bool { i < x.len() && !(sep && x[i] == b'/') && !(dot && x[i] == b'.' && (i == 0 || x[i - 1] == b'/')) }; let eq = |a: u8, c: u8| if sensitive { a == c } else { low(a) == low(c) };
    match g { [] => i == x.len(), [Lit(c), r @ ..] => i < x.len() && eq(*c, x[i]) && glob(r, x, i + 1, o), [One, r @ ..] => wild(i) && glob(r, x, i + 1, o),
    [Set(v, neg), r @ ..] => { if !wild(i) { return false } let mut h = false; for c in *v { h |= eq(*c, x[i]) } h != *neg && glob(r, x, i + 1, o) }
    [Star, r @ ..] => { let mut j = i; loop { if glob(r, x, j, o) { return true } if !wild(j) { return false } j += 1 } }
    [Deep, r @ ..] => { let mut j = i; loop { if glob(r, x, j, o) { return true } while j < x.len() && x[j] != b'/' { j += 1 } if j >= x.len() { return false } j += 1 } } } }
fn globs(k: usize) -> (&'static str, Vec<Gl>, &'static [u8]) { match k {
    0 => ("a*", vec![Lit(b'a'), Star], b"aAb/."), 1 => ("*b", vec![Star, Lit(b'b')], b"aBb/."), 2 => ("?", vec![One], b"a/."), 3 => ("a?*b", vec![Lit(b'a'), One, Star, Lit(b'b')], b"ab/"), 4 => ("[ab]*", vec![Set(b"ab", false), Star], b"aBc/."), 5 => ("[!a]b", vec![Set(b"a", true), Lit(b'b')], b"abA/."),
    6 => ("a[*]", vec![Lit(b'a'), Set(b"*", false)], b"a*b"), 7 => ("*/b", vec![Star, Lit(b'/'), Lit(b'b')], b"ab/."), 8 => ("**/b", vec![Deep, Lit(b'b')], b"ab/"), 9 => ("a.b", vec![Lit(b'a'), Lit(b'.'), Lit(b'b')], b"aAbx."), 10 => ("", vec![], b"a/"), 11 => (".*", vec![Lit(b'.'), Star], b"a./"), _ => ("[a-c]", vec![Set(b"abc", false)], b"abcBd-") } }
fn gcheck(k: usize, max: u8) { let (p, g, alpha) = globs(k); let mut w = GlobWrapper::from_str(p).unwrap(); let mut o = (true, false, true); if sym::flip() { o = (sym::flip(), sym::flip(), sym::flip()); w.options.case_sensitive = o.0; w.options.require_literal_separator = o.1; w.options.require_literal_leading_dot = o.2; }
    let x = sym::over(0, max, alpha); let want = glob(&g, x.as_bytes(), 0, o); sym::cover(if want { "glob-matches" } else { "glob-does-not" }); let got = w.matches(&x); sym::observe(got as u64); sym::check(got == want, "globs-match-where-specified"); let wd = W::new("http://a.b/"); let v = wd.view(); sym::check(StringMatcher::Glob(w).satisfied_by(&x, &v).is_ok_and(|r| r == want), "globs-match-where-specified"); }
fn bits(c: &RegexConfig) -> [bool; 8] { [c.case_insensitive, c.crlf, c.dot_matches_new_line, c.ignore_whitespace, c.multi_line, c.octal, c.swap_greed, c.unicode] }
const LETTERS: &[u8; 8] = b"iRsxmoUu";
use std::str::FromStr;
harnesses! {
    fn h_c20_find() { caps(sym::choose(6), 3) }
    fn h_c20_greed() { caps(6 + sym::choose(2), 3) }
    fn h_c20_space() { caps(8, 3) }
    fn h_c20_groups() { caps(9 + sym::choose(2), 3) }
    fn h_c20_order() { caps(11, 3) }
    fn h_c20_empty() { caps(12 + sym::choose(2), 3) }
    fn h_c20_other() { caps(14 + sym::choose(2), 3) }
    fn h_c20t_longer() { caps(sym::choose(16), 4) }
    // Not a regex: everything is an error and nothing changes.
    fn h_c20_invalid() { let (p, f) = sym::pick(&[("(", ""), ("a{2,1}", ""), ("\\1", ""), ("\\142", ""), ("[b-a]", "i")]); let re = wrap(p, f); let w = W::new("http://a.b/"); let v = w.view(); sym::check(re.get().is_err() && re.get_no_compile().is_none(), "errors-where-specified"); match sym::choose(6) { 0 => expect_mod(&M::RegexFind(re), "b", &v, None), 1 => expect_mod(&M::RegexCaptures { regex: re, replace: s("") }, "b", &v, None), 2 => expect_mod(&M::JoinAllRegexCaptures { regex: re, replace: s(""), join: s("") }, "b", &v, None), 3 => expect_mod(&M::RegexReplaceAll { regex: re, replace: s("") }, "b", &v, None), 4 => sym::check(StringMatcher::Regex(re).satisfied_by("b", &v).is_err(), "errors-where-specified"), _ => sym::check(StringSource::RegexFind { value: bs("b"), regex: re }.get(&v).is_err(), "errors-where-specified") } }
    // Absent arguments are errors; an absent text has no match.
    fn h_c20_absent() { let w = W::new("http://a.b/"); let v = w.view(); let n = || StringSource::None; match sym::choose(6) { 0 => expect_mod(&M::RegexCaptures { regex: wrap("b", ""), replace: n() }, "b", &v, None), 1 => expect_mod(&M::JoinAllRegexCaptures { regex: wrap("b", ""), replace: s("x"), join: n() }, "b", &v, None), 2 => expect_mod(&M::RegexReplace { regex: wrap("b", ""), replace: n() }, "b", &v, None), 3 => expect_mod(&M::RegexReplacen { regex: wrap("b", ""), n: 1, replace: n() }, "b", &v, None), 4 => expect_mod(&M::RegexReplaceAll { regex: wrap("b", ""), replace: n() }, "b", &v, None), _ => { let src = StringSource::RegexFind { value: b(n()), regex: wrap("b", "") }; let r = src.get(&v); sym::cover("absent"); sym::check(matches!(r, Ok(None)), "nothing-to-search-nothing-found") } } }
    // Line ends, bytes and Unicode.
    fn h_c20_options() { let (p, c, x, want) = sym::pick(&[("^b$", "m", "a\r\nb\r\nc", None), ("^b$", "mR", "a\r\nb\r\nc", Some("b")), ("a.c", "R", "a\rc", None), ("a.c", "", "a\rc", Some("a\rc")), ("^b$", "m0", "cabac", Some("b")), ("^b$", "m", "cabac", None), ("\u{e9}", "i", "\u{c9}", Some("\u{c9}")), ("x.y", "", "x\u{e9}y", Some("x\u{e9}y")), ("b(?i)C", "", "bc", Some("bc")), ("a #c\nb", "x", "ab", Some("ab")), ("/b/i", "", "/b/i", Some("/b/i")), ("b(?-u:\\xFF)", "", "b", None), ("[^a]", "-i", "A", None)]); let bad = c == "-i" || p == "b(?-u:\\xFF)"; let re = wrap(p, c); let w = W::new("http://a.b/"); let v = w.view(); sym::check(re.get().is_err() == bad, "errors-where-specified"); expect_mod(&M::RegexFind(re), x, &v, want.map(|x| x.as_bytes().to_vec())) }
    // Flags.
    fn h_c20_flags() { let mut c = RegexConfig::default(); sym::check(bits(&c) == [false, false, false, false, false, false, false, true] && c.line_terminator == b'\n', "flags-default"); let init = [sym::bool(), sym::bool(), sym::bool(), sym::bool(), sym::bool(), sym::bool(), sym::bool(), sym::bool()]; [c.case_insensitive, c.crlf, c.dot_matches_new_line, c.ignore_whitespace, c.multi_line, c.octal, c.swap_greed, c.unicode] = init;
        let f = sym::over(0, 2, b"iRsxmoUurI?"); let which = sym::choose(3); match which { 0 => c.set_flags(&f), 1 => c.add_flags(&f), _ => c.remove_flags(&f) } let got = bits(&c); sym::cover("flags"); let mut ok = true; for i in 0..8 { let named = any(f.as_bytes(), LETTERS[i]); let want = match which { 0 => named, 1 => init[i] | named, _ => init[i] & !named }; sym::observe(got[i] as u64); ok &= got[i] == want } sym::check(ok, "flags-name-exactly-their-options"); sym::check(c.line_terminator == b'\n', "flags-name-exactly-their-options") }
    fn h_c20_get_flags() { let mut c = RegexConfig::default(); let k = sym::choose(8); let l = sym::choose(8); let mut i = [false; 8]; i[k] = true; i[l] = true; [c.case_insensitive, c.crlf, c.dot_matches_new_line, c.ignore_whitespace, c.multi_line, c.octal, c.swap_greed, c.unicode] = i; let g = c.get_flags(); let mut want = String::new(); for j in 0..8 { if i[j] { want.push(LETTERS[j] as char) } } sym::cover("get-flags"); sym::observe_bytes(g.as_bytes()); sym::check(g == want, "flags-are-listed"); let mut d = RegexConfig::default(); d.set_flags(&g); sym::check(d == c, "flags-can-be-set-again") }
    // A regex is compiled once; what has been compiled plays no part in equality, text or copies.
    /// Threads that need a shared regex at the same time.
    fn h_c20_threads() { sym::schedules(2); let bad = sym::flip(); let re = RegexWrapper::from(if bad { "a(" } else { "ab" }); let one = || re.get().map(|r| (r as *const _ as usize, r.is_match("xab"))).ok(); let (a, b) = std::thread::scope(|s| { let h = s.spawn(one); let a = one(); (a, h.join().ok().flatten()) }); sym::cover(if bad { "invalid" } else { "valid" }); sym::observe(a.is_some() as u64);
        sym::check(if bad { a.is_none() && b.is_none() } else { a.is_some_and(|a| a.1 && b == Some(a)) }, "every-thread-gets-the-one-regex"); }
    fn h_c20_lazy() { let re = RegexWrapper::from("a(b)"); let other = RegexWrapper::from(sym::pick(&["a(b)", "ab"])); let f = sym::flip(); if f { let a = re.get().unwrap() as *const _; sym::check(std::ptr::eq(a, re.get().unwrap()) && re.get_no_compile().is_some(), "compiled-once") } else { sym::check(re.get_no_compile().is_none(), "compiled-when-needed") } sym::cover("lazy"); sym::check((re == other) == (other.parts().pattern == "a(b)"), "equal-if-made-of-equal-parts"); let text = serde_json::to_string(&re).unwrap(); let back: RegexWrapper = serde_json::from_str(&text).unwrap(); sym::check(back == re, "text-round-trips"); let r: Result<::regex::Regex, _> = re.clone().try_into(); sym::check(r.is_ok_and(|r| r.as_str() == "a(b)"), "equal-if-made-of-equal-parts"); sym::check(RegexParts::from(re).config == RegexConfig::default(), "equal-if-made-of-equal-parts"); }
    fn h_c20_text() { let (t, want) = sym::pick(&[("\"a b\"", Some(("a b", "", b'\n'))), ("{\"pattern\":\"a\"}", Some(("a", "", b'\n'))), ("{\"pattern\":\"a\",\"case_insensitive\":true}", Some(("a", "i", b'\n'))), ("{\"pattern\":\"a\",\"unicode\":false,\"line_terminator\":0}", Some(("a", "-", 0))), ("{\"pattern\":\"a\",\"crlf\":true,\"dot_matches_new_line\":true,\"ignore_whitespace\":true,\"multi_line\":true,\"octal\":true,\"swap_greed\":true}", Some(("a", "RsxmoU", b'\n'))), ("{\"case_insensitive\":true}", None), ("1", None)]); let r = serde_json::from_str::<RegexWrapper>(t); sym::cover("text"); sym::observe(r.is_ok() as u64); match want { None => sym::check(r.is_err(), "errors-where-specified"), Some((p, f, nl)) => { let mut c = cfg(f); c.line_terminator = nl; sym::check(r.as_ref().is_ok_and(|r| r.parts().pattern == p && r.parts().config == c), "text-means-what-is-documented"); if let Ok(r) = r { let u = serde_json::to_string(&r).unwrap(); sym::check(serde_json::from_str::<RegexWrapper>(&u).is_ok_and(|x| x == r), "text-round-trips") } } } }
    fn h_c20_glob() { gcheck(sym::choose(4), 3) }
    fn h_c20_glob_sets() { gcheck(4 + sym::choose(3), 3) }
    fn h_c20_glob_paths() { gcheck(7 + sym::choose(6), 3) }
    fn h_c20t_glob() { gcheck(sym::choose(13), 4) }
    fn h_c20_glob_bad() { let p = sym::pick(&["[", "a**", "***", "[]", "[!"]); sym::cover("no-glob"); sym::check(GlobWrapper::from_str(p).is_err(), "errors-where-specified") }
}
