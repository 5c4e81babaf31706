//! Native run time: replays recorded witnesses against the compiled crate.
use std::cell::RefCell;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug)]
pub enum In { B(Vec<u8>), C(u64) }
#[derive(Default)]
pub struct W { pub ins: Vec<In>, pub pos: usize, pub logs: Vec<u64>, pub params: Vec<u64>, pub covers: Vec<String> }
thread_local! { pub static ST: RefCell<W> = RefCell::new(W::default()); }
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

pub struct Failed(pub String);
pub struct Assumed;
pub struct Mismatch(pub String);

pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() as u64 > LIMIT.load(Ordering::Relaxed) { too_big(l.size()) } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() as u64 > LIMIT.load(Ordering::Relaxed) { too_big(l.size()) } System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n as u64 > LIMIT.load(Ordering::Relaxed) { too_big(n) } System.realloc(p, l, n) }
}
#[global_allocator]
static GA: A = A;
fn too_big(n: usize) -> ! { LIMIT.store(u64::MAX, Ordering::Relaxed); println!("R ALLOC allocation of {} bytes", n); std::process::exit(9) }

pub fn parse(s: &str) -> Vec<In> {
    s.split(';').filter(|x| !x.is_empty()).map(|x| {
        let (k, r) = x.split_at(1);
        if k == "B" { In::B((0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect()) } else { In::C(r.parse().unwrap()) }
    }).collect()
}
fn next() -> In { ST.with(|s| { let mut s = s.borrow_mut(); let i = s.pos; s.pos += 1; match s.ins.get(i) { Some(x) => x.clone(), None => std::panic::panic_any(Mismatch("witness exhausted".into())) } }) }

#[no_mangle] pub extern "C-unwind" fn sym_u8s(p: *mut u8, n: usize) {
    match next() { In::B(b) if b.len() == n => unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) }, x => std::panic::panic_any(Mismatch(format!("wanted {} bytes, have {:?}", n, x))) }
}
#[no_mangle] pub extern "C-unwind" fn sym_assume(c: u32) { if c == 0 { std::panic::panic_any(Assumed) } }
#[no_mangle] pub extern "C-unwind" fn sym_assert(c: u32, m: *const u8, n: usize) {
    if c == 0 { std::panic::panic_any(Failed(unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).into_owned() })) }
}
#[no_mangle] pub extern "C-unwind" fn sym_log(v: u64) { ST.with(|s| s.borrow_mut().logs.push(v)) }
fn choice() -> u64 { match next() { In::C(v) => v, x => std::panic::panic_any(Mismatch(format!("wanted a choice, have {:?}", x))) } }
#[no_mangle] pub extern "C-unwind" fn sym_choose(_n: u64) -> u64 { choice() }
#[no_mangle] pub extern "C-unwind" fn sym_is_sym(_p: *const u8, _n: usize) -> u64 { choice() }
#[no_mangle] pub extern "C-unwind" fn sym_conc(v: u64) -> u64 { v }
#[no_mangle] pub extern "C-unwind" fn sym_cover(m: *const u8, n: usize) { let m = unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).into_owned() }; ST.with(|s| s.borrow_mut().covers.push(m)) }
#[no_mangle] pub extern "C-unwind" fn sym_param(i: u64) -> u64 { ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0)) }
#[no_mangle] pub extern "C-unwind" fn sym_alloc_limit(n: u64) { LIMIT.store(n, Ordering::Relaxed) }
#[no_mangle] pub extern "C-unwind" fn sym_same(a: *const u8, b: *const u8, n: usize) -> u64 { unsafe { (std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)) as u64 } }

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn quiet() { std::panic::set_hook(Box::new(|i| { let s = i.to_string(); PANIC.with(|p| *p.borrow_mut() = s.replace('\n', " ")) })); }

pub fn run(f: fn(), ins: Vec<In>, params: Vec<u64>) -> (String, Vec<u64>) {
    ST.with(|s| *s.borrow_mut() = W { ins, params, ..W::default() });
    LIMIT.store(u64::MAX, Ordering::Relaxed);
    rand::rngs::drawn_reset();
    sha1::recorded_reset();
    let r = std::panic::catch_unwind(f);
    LIMIT.store(u64::MAX, Ordering::Relaxed);
    let out = match r {
        Ok(()) => "OK".to_string(),
        Err(e) => if let Some(x) = e.downcast_ref::<Failed>() { format!("ASSERT {}", x.0) }
            else if e.is::<Assumed>() { "ASSUME".to_string() }
            else if let Some(x) = e.downcast_ref::<Mismatch>() { format!("MISMATCH {}", x.0) }
            else { format!("PANIC {}", PANIC.with(|p| p.borrow().clone())) },
    };
    (out, ST.with(|s| std::mem::take(&mut s.borrow_mut().logs)))
}
