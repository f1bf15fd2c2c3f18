//! Replays a recorded counterexample against the real crates.
//! usage: replay ENTRY EVENTS
//! exit: 0 not reproduced, 1 reproduced, 3 assumption not met, 4 left the recorded path
macro_rules! entries {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[cfg_attr(feature = "sym", no_mangle)] pub extern "C" fn $n() $b )*
        #[allow(dead_code)]
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
    };
}

#[path = "sx.rs"]
pub mod sx;
#[path = "peer.rs"]
pub mod peer;
#[path = "props.rs"]
pub mod props;
#[path = "p_read.rs"]
pub mod p_read;
#[path = "p_auth.rs"]
pub mod p_auth;
#[path = "p_nego.rs"]
pub mod p_nego;
#[path = "p_wire.rs"]
pub mod p_wire;
#[path = "p_cfg.rs"]
pub mod p_cfg;
#[path = "p_err.rs"]
pub mod p_err;
#[path = "p_more.rs"]
pub mod p_more;
#[cfg(feature = "ideal")]
#[path = "ideal.rs"]
pub mod ideal;

use std::alloc::{GlobalAlloc, Layout, System};
struct Cap;
const HUGE: usize = 1 << 30;
unsafe impl GlobalAlloc for Cap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= HUGE {
            huge(l.size())
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sx::on_free(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n >= HUGE {
            huge(n)
        }
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() >= HUGE {
            huge(l.size())
        }
        System.alloc_zeroed(l)
    }
}
fn huge(_n: usize) -> ! {
    println!("FAULT huge-allocation");
    std::process::exit(1)
}
#[global_allocator]
static A: Cap = Cap;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[2]).expect("events");
    for l in text.lines() {
        let mut p = l.rsplitn(2, ' ');
        let v = p.next().unwrap_or("");
        let n = p.next().unwrap_or("");
        if n == "#choose" {
            sx::EVS.with(|e| e.borrow_mut().push_back(sx::Ev::Choose(v.parse().unwrap())));
        } else if n.starts_with("#uf ") {
            #[cfg(feature = "ideal")]
            {
                let mut q = n.split(' ');
                q.next();
                let tag: u32 = q.next().unwrap().parse().unwrap();
                ideal::UF.with(|u| u.borrow_mut().insert((tag, unhex(q.next().unwrap_or(""))), unhex(v)));
            }
        } else if !n.is_empty() {
            sx::EVS.with(|e| e.borrow_mut().push_back(sx::Ev::Bytes(n.to_owned(), unhex(v))));
        }
    }
    let name = args[1].clone();
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i)));
    let f = [p_read::ENTRIES, p_auth::ENTRIES, p_nego::ENTRIES, p_wire::ENTRIES, p_cfg::ENTRIES, p_more::ENTRIES, p_err::ENTRIES].concat().into_iter().find(|(n, _)| *n == name).expect("entry").1;
    let r = std::panic::catch_unwind(move || f());
    let failed = sx::FAILED.with(|f| f.borrow().clone());
    for l in &failed {
        println!("CHECK-FAILED {}", l);
    }
    if !failed.is_empty() {
        std::process::exit(1)
    }
    match r {
        Ok(()) => std::process::exit(0),
        Err(e) => match e.downcast_ref::<sx::Stop>() {
            Some(s) => std::process::exit(s.0),
            None => std::process::exit(1),
        },
    }
}
