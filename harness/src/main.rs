#![allow(clippy::all, dead_code, missing_docs)]
mod sym;
mod ctx; mod c01; mod c02; mod c03; mod c04; mod c05; mod entities; mod c06; mod c07; mod c08; mod c09; mod c10; mod c11; mod c12; mod c13; mod c14; mod c15; mod c16; mod c17; mod c18; mod c19; mod c20; mod c21; mod c22; mod c23;
fn tables() -> Vec<&'static [(&'static str, extern "C" fn())]> { vec![c01::TABLE, c02::TABLE, c03::TABLE, c04::TABLE, c05::TABLE, c06::TABLE, c07::TABLE, c08::TABLE, c09::TABLE, c10::TABLE, c11::TABLE, c12::TABLE, c14::TABLE, c15::TABLE, c16::TABLE, c17::TABLE, c18::TABLE, c19::TABLE, c20::TABLE, c21::TABLE, c22::TABLE, c23::TABLE, c13::TABLE, c13::line::TABLE, #[cfg(feature = "full")] c13::http::TABLE] }
fn unhex(h: &str) -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }
unsafe extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }
fn done(name: &str) { let s = sym::st(); println!("DONE {name} nobs={} obs={:016x} failed={}", s.nobs, s.hash, s.failed.len()); }
fn run(name: &str, inputs: Vec<u8>) {
    *sym::st() = sym::St { inputs, pos: 0, hash: 1469598103934665603, nobs: 0, failed: vec![], covers: vec![], log: false };
    let h = std::panic::take_hook(); let n = name.to_string();
    std::panic::set_hook(Box::new(move |i| { if sym::XP.load(std::sync::atomic::Ordering::Relaxed) { done(&n); std::process::exit(0) } h(i) }));
    for t in tables() { for (n, f) in t { if *n == name { f(); done(name); return; } } }
    println!("NO-SUCH-HARNESS");
}
/// `harness` lists; `harness NAME HEX` replays one trace; `harness --batch` replays `NAME HEX` lines of stdin, each in a process of its own.
fn main() {
    sym::be_child();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { for t in tables() { for (n, _) in t { println!("{n}"); } } return; }
    if a[1] == "--batch" { for l in std::io::stdin().lines() { let l = l.unwrap(); let (n, h) = l.split_once(' ').unwrap(); println!("TRACE {n} {h}"); let p = unsafe { fork() }; if p == 0 { run(n, unhex(h)); std::process::exit(0) } let mut s = 0; unsafe { waitpid(p, &mut s, 0); } } return; }
    run(&a[1], unhex(a.get(2).map(|s| &**s).unwrap_or("")));
}
