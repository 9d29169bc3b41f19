//! The parser on a 32-bit platform without the standard library feature: runs
//! the same jobs as the native harness and reports the same texts.

#[path = "../../harness/src/job.rs"]
mod job;

use std::cell::RefCell;
use std::collections::BTreeMap;

use job::{Message, Meta, Src};
use parity_scale_codec::Decode;

getrandom::register_custom_getrandom!(no_random);

fn no_random(_: &mut [u8]) -> Result<(), getrandom::Error> {
    Err(getrandom::Error::UNSUPPORTED)
}

thread_local! {
    static KEPT: RefCell<BTreeMap<u32, Meta>> = const { RefCell::new(BTreeMap::new()) };
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    let mut v = Vec::<u8>::with_capacity(n.max(1));
    let p = v.as_mut_ptr();
    std::mem::forget(v);
    p
}

/// Takes the message of `n` bytes at `p`, gives the length of the answer.
#[no_mangle]
pub extern "C" fn run(p: *mut u8, n: usize) -> usize {
    std::panic::set_hook(Box::new(|i| OUT.with(|o| *o.borrow_mut() = format!("{i}").into_bytes())));
    let v = unsafe { Vec::from_raw_parts(p, n, n.max(1)) };
    OUT.with(|o| o.borrow_mut().clear());
    let m = Message::decode(&mut &v[..]).unwrap();
    let s = match m {
        Message::Keep(id, src) => {
            let meta = Meta::new(&src);
            KEPT.with(|k| k.borrow_mut().insert(id, meta));
            String::new()
        }
        Message::Run(s) => match &s.src {
            Src::Kept(id) => KEPT.with(|k| s.run(&k.borrow()[id])),
            src => s.run(&Meta::new(src)),
        },
    };
    OUT.with(|o| {
        *o.borrow_mut() = s.into_bytes();
        o.borrow().len()
    })
}

#[no_mangle]
pub extern "C" fn answer_len() -> usize {
    OUT.with(|o| o.borrow().len())
}

#[no_mangle]
pub extern "C" fn answer() -> *const u8 {
    OUT.with(|o| o.borrow().as_ptr())
}
