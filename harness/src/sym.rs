//! The symbolic-input API.  Natively these read concrete inputs (replay); under the symbolic
//! executor the `sym_*` symbols are intercepted and never executed.
use std::cell::UnsafeCell;
pub struct St { pub inputs: Vec<u8>, pub pos: usize, pub hash: u64, pub nobs: u64, pub failed: Vec<String>, pub covers: Vec<String>, pub log: bool }
struct G(UnsafeCell<Option<St>>);
unsafe impl Sync for G {}
static GS: G = G(UnsafeCell::new(None));
pub fn st() -> &'static mut St { unsafe { (*GS.0.get()).get_or_insert_with(|| St { inputs: vec![], pos: 0, hash: 1469598103934665603, nobs: 0, failed: vec![], covers: vec![], log: false }) } }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_u8() -> u8 { let s = st(); let v = s.inputs.get(s.pos).copied().unwrap_or(0); s.pos += 1; v }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_assume(c: bool) { if !c { println!("ASSUME-FAILED"); std::process::exit(0) } }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_check(c: bool, p: *const u8, n: usize) { if !c { let l = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }; st().failed.push(l.to_string()); println!("CHECK-FAILED {l}"); } }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_cover(p: *const u8, n: usize) { let l = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }; st().covers.push(l.to_string()); }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_observe(v: u64) { let s = st(); s.nobs += 1; for b in v.to_le_bytes() { s.hash ^= b as u64; s.hash = s.hash.wrapping_mul(1099511628211); } }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_conc(v: u64) -> u64 { std::hint::black_box(v) }

#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_opq() { std::hint::black_box(()) }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_xp() { XP.store(true, std::sync::atomic::Ordering::Relaxed) }
pub static XP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// `f` must panic (the last thing a harness does).
pub fn panics(f: impl FnOnce()) { sym_xp(); f(); check(false, "panics-where-specified") }
/// From here on (call it first), hash maps see a hasher under which all keys collide, so symbolic keys are compared, never hashed.
pub fn opaque_hash() { sym_opq() }
/// Standard input, output and error of a run.
#[repr(C)] pub struct Io { stdin: *const u8, n: usize, pos: usize, out: *mut u8, outn: usize, err: *mut u8, errn: usize, cap: usize }
/// Runs the url-cleaner binary as it is installed: symbolically its own `main`, natively the executable beside this one.
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_run(argc: i32, argv: *const *const u8, io: &mut Io) -> i32 { unsafe {
    use std::{io::Write, os::unix::ffi::OsStrExt, process::{Command, Stdio}};
    let mut p = std::env::current_exe().unwrap(); p.set_file_name("url-cleaner-cli"); let mut c = Command::new(&p);
    for i in 1..argc as usize { c.arg(std::ffi::OsStr::from_bytes(std::ffi::CStr::from_ptr(*argv.add(i) as *const _).to_bytes())); }
    if std::env::var_os("UC_JITTER").is_some() { p.set_file_name("jitter.so"); c.env("LD_PRELOAD", p); }
    let mut c = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap(); let mut i = c.stdin.take().unwrap(); let text = std::slice::from_raw_parts(io.stdin, io.n).to_vec(); let w = std::thread::spawn(move || { let _ = i.write_all(&text); });
    let pid = c.id(); let (tx, rx) = std::sync::mpsc::channel::<()>(); let k = std::thread::spawn(move || { if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(std::time::Duration::from_secs(15)) { kill(pid as i32, 9); true } else { false } });
    let o = c.wait_with_output().unwrap(); drop(tx); let _ = w.join(); if k.join().unwrap() { println!("HANG"); std::process::exit(0) }
    io.outn = o.stdout.len().min(io.cap); std::ptr::copy_nonoverlapping(o.stdout.as_ptr(), io.out, io.outn); io.errn = o.stderr.len().min(io.cap); std::ptr::copy_nonoverlapping(o.stderr.as_ptr(), io.err, io.errn); o.status.code().unwrap_or(101)
} }
unsafe extern "C" { fn kill(p: i32, s: i32) -> i32; }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_sched(n: usize) { std::hint::black_box(n); }
/// Every schedule is explored in which the running thread is put off at most `n` times.
pub fn schedules(n: usize) { sym_sched(n) }
/// Runs url-cleaner with arguments and standard input; gives its exit code (101: it crashed), standard output and standard error.
pub fn run(args: &[&str], stdin: &[u8]) -> (i32, Vec<u8>, Vec<u8>) {
    let mut a: Vec<Vec<u8>> = vec![b"url-cleaner\0".to_vec()]; for x in args { let mut v = x.as_bytes().to_vec(); v.push(0); a.push(v); } let mut p: Vec<*const u8> = a.iter().map(|x| x.as_ptr()).collect(); p.push(std::ptr::null());
    let cap = 32768; let mut out = vec![0; cap]; let mut err = vec![0; cap]; let mut io = Io { stdin: stdin.as_ptr(), n: stdin.len(), pos: 0, out: out.as_mut_ptr(), outn: 0, err: err.as_mut_ptr(), errn: 0, cap };
    let code = sym_run(a.len() as i32, p.as_ptr(), &mut io); out.truncate(io.outn); err.truncate(io.errn); (code, out, err)
}

// Processes that are started: in the symbolic run threads (engine/env/libc.c), natively this executable, which does what the plan says and reports what it got.
const CHILD: &str = "UC_CHILD";
fn child_file() -> String { format!("/tmp/uc-c23-{}-child", std::process::id()) }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_program(p: *mut u8, n: usize) -> isize { use std::os::unix::ffi::OsStrExt; let e = std::env::current_exe().unwrap(); let b = e.as_os_str().as_bytes(); unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len().min(n)) }; b.len().min(n) as isize }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_child(p: *const u8, n: usize, out: *const u8, m: usize) { unsafe { let f = child_file(); std::fs::write(format!("{f}.plan"), std::slice::from_raw_parts(p, n)).unwrap(); std::fs::write(format!("{f}.out"), std::slice::from_raw_parts(out, m)).unwrap(); std::env::set_var(CHILD, f); std::env::set_var("UCI", "inherited"); std::env::set_var("UC_DIR", std::env::current_dir().unwrap()) } }
#[unsafe(no_mangle)] #[inline(never)]
pub extern "C" fn sym_spawned(k: i32, what: i32, i: i32, p: *mut u8, n: usize) -> isize { use std::io::Read; let mut b = vec![]; let Ok(mut f) = std::fs::File::open(format!("{}.{k}", child_file())) else { return -1 }; f.read_to_end(&mut b).unwrap(); let mut j = 0; let mut rec = 0..0; let mut found = false;
    // records: kind, length, bytes
    let mut seen = 0; while j < b.len() { let l = u64::from_le_bytes(b[j + 1..j + 9].try_into().unwrap()) as usize; if b[j] as i32 == what { if seen == i { rec = j + 9..j + 9 + l; found = true; } seen += 1; } j += 9 + l; }
    if !found { return if what == 4 { 0 } else { -1 } } let s = &b[rec]; let l = s.len().min(n); unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), p, l) }; l as isize }
/// What a started process does, natively.
pub fn be_child() { use std::{io::{Read, Write}, os::unix::ffi::OsStrExt}; let Some(f) = std::env::var_os(CHILD) else { return }; let f = f.into_string().unwrap(); let plan = std::fs::read(format!("{f}.plan")).unwrap(); let out = std::fs::read(format!("{f}.out")).unwrap();
    let mut rep = (0..4).find_map(|k| std::fs::File::options().write(true).create_new(true).open(format!("{f}.{k}")).ok()).unwrap();
    let mut put = |k: u8, b: &[u8]| { let mut v = vec![k]; v.extend_from_slice(&(b.len() as u64).to_le_bytes()); v.extend_from_slice(b); rep.write_all(&v).unwrap() };
    let mut vars = vec![]; for (k, a) in std::env::args_os().enumerate() { if k == 0 { put(0, a.as_bytes()); } put(1, a.as_bytes()); } for (k, v) in std::env::vars_os() { if k.as_bytes().starts_with(b"UC") && k != CHILD && k != "UC_DIR" && k != "UC_JITTER" { let mut x = k.as_bytes().to_vec(); x.push(b'='); x.extend_from_slice(v.as_bytes()); vars.push(x); } } for v in vars { put(2, &v); }
    let d = std::env::current_dir().unwrap(); put(3, if Some(d.as_os_str()) == std::env::var_os("UC_DIR").as_deref() { b"" } else { d.as_os_str().as_bytes() });
    unsafe extern "C" { fn read(f: i32, b: *mut u8, n: usize) -> isize; fn write(f: i32, b: *const u8, n: usize) -> isize; fn close(f: i32) -> i32; fn getpid() -> i32; }
    let mut got = vec![]; let mut wrote = 0; let scale = if plan.first() == Some(&b'L') { SCALE } else { 1 }; let mut take = |mut n: usize| { while n > 0 { let mut c = [0u8; 4096]; let r = unsafe { read(0, c.as_mut_ptr(), n.min(4096)) }; if r <= 0 { break } got.extend_from_slice(&c[..r as usize]); n -= r as usize; } };
    let mut i = 0; let mut code = 0; let mut sig = 0; while i < plan.len() { match plan[i] { b'R' => { i += 1; take(plan[i] as usize * scale) } b'E' => take(usize::MAX), b'W' => { i += 1; let n = plan[i] as usize * scale; let mut k = 0; while k < n { let r = unsafe { write(1, out[wrote + k..].as_ptr(), n - k) }; if r < 0 { sig = 13; break } k += r as usize; } if sig != 0 { break } wrote += n; } b'C' => { unsafe { close(0) }; } b'O' => { unsafe { close(1) }; } b'X' => { code = plan[i + 1] as i32; break } b'K' => { sig = plan[i + 1] as i32; break } _ => () } i += 1; }
    put(4, &got); if sig != 0 { unsafe { kill(getpid(), sig); } } std::process::exit(code) }
const SCALE: usize = 16384;
/// A program that exists; how many bytes one byte of a plan that starts with `L` stands for (a pipe holds four times that).
pub fn program() -> String { let mut b = vec![0; 400]; let n = sym_program(b.as_mut_ptr(), b.len()); b.truncate(n as usize); String::from_utf8(b).unwrap() }
pub fn scale() -> usize { if program() == "/bin/prog" { 1 } else { SCALE } }
/// What every process started from here on does: see engine/env/libc.c.
pub fn child(plan: &[u8], out: &[u8]) { let (p, o) = (plan.to_vec().leak(), out.to_vec().leak()); sym_child(p.as_ptr(), p.len(), o.as_ptr(), o.len()) }
/// What the `k`th process got: 0 the program, 1 its `i`th argument, 2 its `i`th variable named UC..., 3 the directory (if not the current one), 4 what it read.
pub fn spawned(k: usize, what: i32, i: usize) -> Option<Vec<u8>> { let mut b = vec![0; 16 * scale() + 400]; let n = sym_spawned(k as i32, what, i as i32, b.as_mut_ptr(), b.len()); if n < 0 { return None } b.truncate(n as usize); Some(b) }

/// An arbitrary byte.
pub fn u8() -> u8 { sym_u8() }
/// An arbitrary boolean (kept symbolic).
pub fn bool() -> bool { sym_u8() & 1 == 1 }
pub fn assume(c: bool) { sym_assume(c) }
pub fn check(c: bool, label: &'static str) { sym_check(c, label.as_ptr(), label.len()) }
pub fn cover(label: &'static str) { sym_cover(label.as_ptr(), label.len()) }
pub fn observe(v: u64) { sym_observe(v) }
/// Case-split: every feasible value is explored separately from here on.
pub fn conc(v: u64) -> u64 { sym_conc(v) }
/// An arbitrary value of `0..n`, case-split.
pub fn choose(n: u8) -> usize { let v = sym_u8(); sym_assume(v < n); sym_conc(v as u64) as usize }
pub fn flip() -> bool { choose(2) == 1 }
/// An arbitrary `isize` of `-n..=n`, case-split.
pub fn small(n: u8) -> isize { choose(2 * n + 1) as isize - n as isize }
/// One of the given values, case-split.
pub fn pick<T: Clone>(xs: &[T]) -> T { xs[choose(xs.len() as u8)].clone() }
/// An arbitrary byte out of an alphabet (kept symbolic).
pub fn byte_of(alphabet: &[u8]) -> u8 { let i = sym_u8(); sym_assume((i as usize) < alphabet.len()); alphabet[i as usize] }
/// Observe a byte string.
pub fn observe_bytes(b: &[u8]) { sym_observe(b.len() as u64); for x in b { sym_observe(*x as u64) } }
pub fn observe_str(s: Option<&str>) { match s { None => sym_observe(u64::MAX), Some(s) => observe_bytes(s.as_bytes()) } }
/// An arbitrary valid UTF-8 encoding of one `char` (all of Unicode), pushed onto `v`. `w`: 1..=4 bytes.
pub fn push_utf8(v: &mut Vec<u8>, w: usize) {
    let a = sym_u8();
    match w {
        1 => { sym_assume(a < 0x80); v.push(a); }
        2 => { let b = sym_u8(); sym_assume((a >= 0xC2) & (a <= 0xDF) & (b & 0xC0 == 0x80)); v.extend([a, b]); }
        3 => { let (b, c) = (sym_u8(), sym_u8()); sym_assume((a & 0xF0 == 0xE0) & (b & 0xC0 == 0x80) & (c & 0xC0 == 0x80) & ((a != 0xE0) | (b >= 0xA0)) & ((a != 0xED) | (b < 0xA0))); v.extend([a, b, c]); }
        _ => { let (b, c, d) = (sym_u8(), sym_u8(), sym_u8()); sym_assume((a >= 0xF0) & (a <= 0xF4) & (b & 0xC0 == 0x80) & (c & 0xC0 == 0x80) & (d & 0xC0 == 0x80) & ((a != 0xF0) | (b >= 0x90)) & ((a != 0xF4) | (b < 0x90))); v.extend([a, b, c, d]); }
    }
}
fn into_str(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// An arbitrary string of at most `max` chars, each of at most `maxw` UTF-8 bytes.
pub fn text(max: u8, maxw: u8) -> String { let n = choose(max + 1); let mut v = Vec::with_capacity(16); for _ in 0..n { let w = if maxw > 1 { 1 + choose(maxw) } else { 1 }; push_utf8(&mut v, w); } into_str(v) }
/// An arbitrary string of exactly `n` chars over an ASCII alphabet.
pub fn over_n(n: usize, alphabet: &[u8]) -> String { let mut v = Vec::with_capacity(16); for _ in 0..n { v.push(byte_of(alphabet)); } into_str(v) }
/// An arbitrary string of `min..=max` chars over an ASCII alphabet.
pub fn over(min: u8, max: u8, alphabet: &[u8]) -> String { let n = min as usize + choose(max - min + 1); over_n(n, alphabet) }
/// String equality as a single (unforked) condition.
pub fn same(a: &str, b: &str) -> bool { same_bytes(a.as_bytes(), b.as_bytes()) }
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i]; } r }
pub fn same_opt(a: Option<&str>, b: Option<&str>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false } }

#[macro_export]
macro_rules! harnesses { ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
    $($(#[$m])* #[unsafe(no_mangle)] pub extern "C" fn $n() $b)*
    pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
} }
