//! Native counterpart of the symbolic executor: runs harness entries on concrete inputs.
//!   replay ENTRY FILE   FILE: one hex input per line; per line prints "<status>\t<obs hash>\t<message>"
//! status: ok | assert | panic | assume | short | signal
use std::io::Write;
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(f: *mut i32) -> i32;
    fn close(f: i32) -> i32;
}
static mut IN: Vec<u8> = Vec::new();
static mut POS: usize = 0;
static mut H: u64 = 0xcbf29ce484222325;
static mut OUT: i32 = -1;
static mut VERBOSE: bool = false;
#[allow(static_mut_refs)]
fn finish(st: &str, msg: &str) -> ! {
    use std::os::fd::FromRawFd;
    unsafe {
        if OUT >= 0 {
            let mut f = std::fs::File::from_raw_fd(OUT);
            let _ = f.write_all(format!("{st}\t{:016x}\t{}\n", H, msg.replace(['\n', '\t'], " ")).as_bytes());
        }
        _exit(0)
    }
}
#[allow(static_mut_refs)]
fn next() -> u8 { unsafe { if POS >= IN.len() { finish("short", "") } POS += 1; IN[POS - 1] } }
unsafe fn st<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
fn txt(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
#[no_mangle] unsafe extern "C" fn vsym_bytes(p: *mut u8, n: usize, _: *const u8, _: usize) { for i in 0..n { *p.add(i) = next(); } if VERBOSE { eprintln!("bytes  {:?}", txt(st(p, n))); } }
#[no_mangle] unsafe extern "C" fn vsym_choose(n: u64) -> u64 { let v = next() as u64; if VERBOSE { eprintln!("choose {v} of {n}"); } v }
#[no_mangle] unsafe extern "C" fn vsym_sym(n: u64) -> u64 { let v = next() as u64; if VERBOSE { eprintln!("sym    {v} of {n}"); } v }
#[no_mangle] extern "C" fn vsym_assume(c: bool) { if !c { finish("assume", "") } }
#[no_mangle] unsafe extern "C" fn vsym_assert(c: bool, m: *const u8, n: usize) { if !c { finish("assert", &txt(st(m, n))) } }
#[no_mangle] unsafe extern "C" fn vsym_cover(p: *const u8, n: usize) { if VERBOSE { eprintln!("cover  {}", txt(st(p, n))); } }
#[no_mangle] unsafe extern "C" fn vsym_note(p: *const u8, n: usize) { if VERBOSE { eprintln!("note   {}", txt(st(p, n))); } }
#[no_mangle] unsafe extern "C" fn vsym_observe(np: *const u8, nn: usize, p: *const u8, n: usize) {
    if VERBOSE { eprintln!("value  {} = {:?}", txt(st(np, nn)), txt(st(p, n))); }
    for b in st(np, nn).iter().chain(st(p, n)).chain(&[0xff]) { H = (H ^ *b as u64).wrapping_mul(0x100000001b3); }
}
#[no_mangle] unsafe extern "C" fn vsym_eq(p: *const u8, n: usize, q: *const u8, m: usize) -> bool { st(p, n) == st(q, m) }
#[no_mangle] extern "C" fn vsym_prune() -> ! { finish("assume", "") }
#[no_mangle] extern "C" fn vsym_tier() -> u64 { (std::env::var("VERIF_TIER_RUN").as_deref() == Ok("thorough")) as u64 }

#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::entry(&a[1]).unwrap_or_else(|| { eprintln!("no entry {}", a[1]); std::process::exit(3) });
    let verbose = a.iter().any(|x| x == "-v");
    std::panic::set_hook(Box::new(|i| { let m = i.to_string(); if unsafe { VERBOSE } { eprintln!("{m}"); } finish("panic", &m) }));
    let mut out = std::io::stdout().lock();
    for line in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let inp: Vec<u8> = (0..line.len() / 2).map(|i| u8::from_str_radix(&line[2 * i..2 * i + 2], 16).unwrap()).collect();
        let mut fds = [0i32; 2];
        unsafe {
            if pipe(fds.as_mut_ptr()) != 0 { std::process::exit(3); }
            let pid = fork();
            if pid == 0 {
                close(fds[0]);
                OUT = fds[1];
                VERBOSE = verbose;
                IN = inp;
                f();
                finish("ok", "");
            }
            close(fds[1]);
            use std::io::Read;
            use std::os::fd::FromRawFd;
            let mut s = String::new();
            let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s);
            let mut stt = 0;
            waitpid(pid, &mut stt, 0);
            if s.is_empty() { s = format!("signal\t0\tstatus {stt}\n"); }
            let _ = out.write_all(s.as_bytes());
        }
    }
}
