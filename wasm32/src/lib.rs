//! The library compiled for a 32-bit machine, driven by packed cases. `run.mjs` is around it.
#[path = "../../nostd/src/answers.rs"]
mod answers;
#[allow(dead_code)]
#[path = "../../nostd/src/packed.rs"]
mod packed;
#[allow(dead_code)]
#[path = "../../mon/mon/src/walk.rs"]
mod walk;
#[allow(dead_code)]
#[path = "../../mon/mon/src/wcase.rs"]
mod wcase;

#[link(wasm_import_module = "env")]
extern "C" {
    fn say(at: *const u8, len: usize);
    fn more() -> u32;
}
fn line(s: String) {
    unsafe { say(s.as_ptr(), s.len()) }
}

#[no_mangle]
pub extern "C" fn room(len: usize) -> *mut u8 {
    Box::leak(vec![0u8; len].into_boxed_slice()).as_mut_ptr()
}

#[no_mangle]
pub unsafe extern "C" fn check(at: *const u8, len: usize, from: u32) -> i32 {
    std::panic::set_hook(Box::new(|i| line(format!("PANIC {i}").replace('\n', " "))));
    packed::check_bytes(std::slice::from_raw_parts(at, len), from as u64, &mut line, &mut || more() != 0)
}
