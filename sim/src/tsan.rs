//! The functions LLVM's thread instrumentation calls for atomic operations.
//! Each one is a scheduling point followed by the operation itself.
//! (All orders are executed as SeqCst: weaker memory orders are not simulated.)
use crate::rt::{point, K};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::atomic::*;

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    point(K::Atomic);
    fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

macro_rules! ops {
    ($at:ty, $t:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cs:ident, $cw:ident, $cv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $at, _: i32) -> $t {
            point(K::Atomic);
            (*a).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *const $at, v: $t, _: i32) {
            point(K::Atomic);
            (*a).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(a: *const $at, v: $t, _: i32) -> $t {
            point(K::Atomic);
            (*a).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *const $at, v: $t, _: i32) -> $t {
            point(K::Atomic);
            (*a).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *const $at, v: $t, _: i32) -> $t {
            point(K::Atomic);
            (*a).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *const $at, v: $t, _: i32) -> $t {
            point(K::Atomic);
            (*a).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *const $at, v: $t, _: i32) -> $t {
            point(K::Atomic);
            (*a).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *const $at, v: $t, _: i32) -> $t {
            point(K::Atomic);
            (*a).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *const $at, v: $t, _: i32) -> $t {
            point(K::Atomic);
            (*a).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cs(a: *const $at, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            point(K::Atomic);
            match (*a).compare_exchange(*c, v, SeqCst, SeqCst) {
                Ok(_) => 1,
                Err(x) => {
                    *c = x;
                    0
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cw(a: *const $at, c: *mut $t, v: $t, m: i32, f: i32) -> i32 {
            $cs(a, c, v, m, f)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cv(a: *const $at, c: $t, v: $t, _: i32, _: i32) -> $t {
            point(K::Atomic);
            match (*a).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
    };
}
ops!(AtomicU8, u8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak, __tsan_atomic8_compare_exchange_val);
ops!(AtomicU16, u16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak, __tsan_atomic16_compare_exchange_val);
ops!(AtomicU32, u32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak, __tsan_atomic32_compare_exchange_val);
ops!(AtomicU64, u64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak, __tsan_atomic64_compare_exchange_val);
