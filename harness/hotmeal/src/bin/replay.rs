//! Native replay: runs one harness on a recorded assignment against the real, natively compiled
//! code. usage: replay ENTRY PARAMS(v,v,..) FILE
//! exit 0: held; exit 1: violated (assertion, panic, abort); exit 3: assumption not met.

use std::sync::Mutex;

struct St { vals: Vec<u64>, next: usize, params: Vec<u64>, obs: Vec<u64>, verbose: bool }
static ST: Mutex<St> = Mutex::new(St { vals: vec![], next: 0, params: vec![], obs: vec![], verbose: false });

fn text<'a>(p: *const u8, n: usize) -> &'a str { unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap_or("?") } }

#[unsafe(no_mangle)]
extern "C" fn vp_sym(p: *const u8, n: usize, _w: u32, lo: u64, hi: u64) -> u64 {
    let mut s = ST.lock().unwrap();
    let i = s.next;
    s.next += 1;
    let v = s.vals.get(i).copied().unwrap_or(lo);
    let v = if v < lo || v > hi { lo } else { v };
    if s.verbose { println!("  {} = {v}", text(p, n)); }
    v
}
#[unsafe(no_mangle)]
extern "C" fn vp_assume(c: bool) { if !c { println!("ASSUMPTION-NOT-MET"); std::process::exit(3) } }
#[unsafe(no_mangle)]
extern "C" fn vp_assert(c: bool, p: *const u8, n: usize) { if !c { println!("REPRODUCED assert: {}", text(p, n)); std::process::exit(1) } }
#[unsafe(no_mangle)]
extern "C" fn vp_reach(_p: *const u8, _n: usize) {}
#[unsafe(no_mangle)]
extern "C" fn vp_param(i: u64) -> u64 { ST.lock().unwrap().params.get(i as usize).copied().unwrap_or(0) }
#[unsafe(no_mangle)]
extern "C" fn vp_obs(v: u64) { ST.lock().unwrap().obs.push(v) }
#[unsafe(no_mangle)]
extern "C" fn vp_conc(v: u64) -> u64 { v }
#[unsafe(no_mangle)]
extern "C" fn vp_known(_p: *const u8, _n: usize) {}
#[unsafe(no_mangle)]
extern "C" fn vp_set_rand(_v: u64) {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: &str| s.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().expect("number")).collect::<Vec<_>>();
    let vals = nums(&std::fs::read_to_string(&a[3]).expect("values file"));
    // behaviour that depends on hash seeds is tried under many of them
    let rounds: usize = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(1);
    for r in 0..rounds {
        { let mut s = ST.lock().unwrap(); s.vals = vals.clone(); s.next = 0; s.params = nums(&a[2]); s.obs.clear(); s.verbose = r == 0 && std::env::var_os("VP_QUIET").is_none(); }
        let name = a[1].clone();
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            if !hhot::call(&name) { println!("no such harness {name}"); std::process::exit(2) }
        }).unwrap();
        if h.join().is_err() { println!("REPRODUCED panic"); std::process::exit(1) }
        if r == 0 { let s = ST.lock().unwrap(); println!("obs {}", s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); }
    }
    println!("HELD");
}
