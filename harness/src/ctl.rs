//! Positive controls: one tiny instance of every effect the scan must be able to see. Never executed, never called.
extern crate hacspec_dev;
static mut COUNTER: u64 = 0;
std::thread_local!(static TL: std::cell::Cell<u8> = std::cell::Cell::new(0));
fn raw_deref(p: *const u8) -> u8 { unsafe { *p } }
fn unchecked(x: &[u8]) -> u8 { unsafe { *x.get_unchecked(3) } }
fn transmuted(x: u32) -> f32 { unsafe { std::mem::transmute::<u32, f32>(x) } }
fn global() -> u64 { unsafe { COUNTER += 1; COUNTER } }
fn thread_local() -> u8 { TL.with(|x| x.get()) }
fn prints(x: u8) { println!("{}", x); }
fn eprints(x: u8) { eprintln!("{}", x); }
fn clock() -> std::time::Instant { std::time::Instant::now() }
fn environment() -> Option<String> { std::env::var("X").ok() }
fn hashed() -> std::collections::HashMap<u8, u8> { std::collections::HashMap::new() }
fn locked(m: &std::sync::Mutex<u8>) -> u8 { *m.lock().unwrap() }
fn atomic(a: &std::sync::atomic::AtomicU8) -> u8 { a.load(std::sync::atomic::Ordering::SeqCst) }
fn indirect(f: fn(u8) -> u8) -> u8 { f(1) }
fn pointer_text(x: &u8) -> String { format!("{:p}", x) }
fn drawn() -> u32 { use hacspec::prelude::*; rand::random() }
