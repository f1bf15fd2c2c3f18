//! Bridge between the harnesses and whoever runs them.
//!  * symbolic build: engine intrinsics;
//!  * native build: values come from a recorded counterexample.

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sx_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn sx_choose(n: u64) -> u64;
        fn sx_assume(c: bool);
        fn sx_check(c: bool, l: *const u8, n: usize);
        fn sx_reach(l: *const u8, n: usize);
        fn sx_set_mode(m: u32);
        fn sx_print(l: *const u8, n: usize, v: u64);
        fn sx_conc(v: u64) -> u64;
        fn sx_tier() -> u64;
        fn sx_watch(p: *const u8, n: usize);
        fn sx_watched() -> u64;
    }
    pub fn fill(b: &mut [u8], name: &str) {
        unsafe { sx_sym(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn choose(n: u64) -> u64 {
        unsafe { sx_choose(n) }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    pub fn check(c: bool, l: &str) {
        unsafe { sx_check(c, l.as_ptr(), l.len()) }
    }
    pub fn reach(l: &str) {
        unsafe { sx_reach(l.as_ptr(), l.len()) }
    }
    /// freshly generated keys are symbolic instead of arbitrary-but-fixed
    pub fn symbolic_keys() {
        unsafe { sx_set_mode(0) }
    }
    pub fn print(l: &str, v: u64) {
        unsafe { sx_print(l.as_ptr(), l.len(), v) }
    }
    /// from now on, count heap blocks freed while they hold 8 consecutive bytes of `b`
    pub fn watch(b: &[u8]) {
        unsafe { sx_watch(b.as_ptr(), b.len()) }
    }
    pub fn watched() -> u64 {
        unsafe { sx_watched() }
    }
    /// fork over every feasible value
    pub fn concretize(v: u64) -> u64 {
        unsafe { sx_conc(v) }
    }
    pub fn thorough() -> bool {
        unsafe { sx_tier() != 0 }
    }
    pub const NATIVE: bool = false;
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    pub enum Ev {
        Bytes(String, Vec<u8>),
        Choose(u64),
    }
    thread_local! {
        pub static EVS: RefCell<std::collections::VecDeque<Ev>> = RefCell::new(Default::default());
        pub static FAILED: RefCell<Vec<String>> = RefCell::new(vec![]);
    }
    /// exit codes: 0 nothing, 1 violated, 3 an assumption does not hold, 4 the run left the recorded path
    pub struct Stop(pub i32);
    fn stop(c: i32) -> ! {
        std::panic::resume_unwind(Box::new(Stop(c)))
    }
    pub fn fill(b: &mut [u8], name: &str) {
        let e = EVS.with(|e| e.borrow_mut().pop_front());
        match e {
            Some(Ev::Bytes(ref n, ref v)) if (n == name || n.starts_with(&format!("{}.", name))) && v.len() == b.len() => b.copy_from_slice(v),
            _ => stop(4),
        }
    }
    pub fn choose(n: u64) -> u64 {
        let e = EVS.with(|e| e.borrow_mut().pop_front());
        match e {
            Some(Ev::Choose(v)) if v < n => v,
            _ => stop(4),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            stop(3)
        }
    }
    pub fn check(c: bool, l: &str) {
        if !c {
            FAILED.with(|f| f.borrow_mut().push(l.to_owned()));
        }
    }
    pub fn reach(l: &str) {
        println!("REACH {}", l);
    }
    pub fn symbolic_keys() {
        #[cfg(feature = "ideal")]
        crate::ideal::MODE.with(|m| m.set(0));
    }
    pub fn print(l: &str, v: u64) {
        if std::env::var_os("SX_TRACE").is_some() {
            eprintln!("{} {}", l, v);
        }
    }
    static mut WATCH: [u8; 64] = [0; 64];
    static mut WLEN: usize = 0;
    static mut HITS: u64 = 0;
    pub fn watch(b: &[u8]) {
        unsafe {
            WLEN = 0;
            HITS = 0;
            WATCH[..b.len()].copy_from_slice(b);
            WLEN = b.len();
        }
    }
    pub fn watched() -> u64 {
        unsafe { HITS }
    }
    pub fn on_free(p: *mut u8, n: usize) {
        #[cfg(feature = "ideal")]
        {
            if crate::ideal::HUSH.with(|h| h.get()) != 0 {
                return;
            }
        }
        unsafe {
            for k in 0..(WLEN + 1).saturating_sub(8) {
                for o in 0..(n + 1).saturating_sub(8) {
                    if (0..8).all(|i| std::ptr::read_volatile(p.add(o + i)) == WATCH[k + i]) {
                        HITS += 1;
                        return;
                    }
                }
            }
        }
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn thorough() -> bool {
        std::env::var_os("SX_THOROUGH").is_some()
    }
    pub const NATIVE: bool = true;
}
pub use imp::*;

pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, name);
    v
}
pub fn u8v(name: &str) -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b, name);
    b[0]
}
pub fn u32v(name: &str) -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b, name);
    u32::from_be_bytes(b)
}
pub fn u64v(name: &str) -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b, name);
    u64::from_be_bytes(b)
}
/// branch-free "and"/"or" so that conditions reach the solver whole
pub fn and(a: bool, b: bool) -> bool {
    a & b
}
/// message ^ mask, with a symbolic mask
pub fn tampered(m: &[u8], name: &str) -> Vec<u8> {
    let mut mask = bytes(m.len(), name);
    for (x, y) in mask.iter_mut().zip(m) {
        *x ^= *y;
    }
    mask
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
