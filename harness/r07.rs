use crate::sym::*;
use crate::facet_core::*;
use crate::facet_reflect::*;
use core::num::*;

#[cfg(kani)]
fn take<'a, T: Facet>(w: Wip<'a>) -> T { w.stored() }
#[cfg(not(kani))]
fn take<'a, T: Facet>(w: Wip<'a>) -> T { ok(ok(w.build()).materialize()) }
/// 2^k as f64, exact
fn p2(k: i32) -> f64 { f64::from_bits(((1023 + k) as u64) << 52) }

crate::harness! {
    /// u8: exactly the numbers of the range are stored, truncated toward zero
    fn int_u8(6) {
        let x: f64 = any();
        match Wip::alloc::<u8>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 0.0 && x <= p2(8) - 1.0, "stored although out of range");
                let v: u8 = take(w);
                assert!(v == x as u8, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 0.0 && x <= p2(8) - 1.0), "number in range refused"),
        }
    }
    /// NonZeroU8: never zero, otherwise as u8
    fn nonzerou8(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroU8>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 1.0 && x <= p2(8) - 1.0, "stored although out of range or zero");
                let v: NonZeroU8 = take(w);
                assert!(v.get() == x as u8, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 1.0 && x <= p2(8) - 1.0), "number in range refused"),
        }
    }
    /// u16: exactly the numbers of the range are stored, truncated toward zero
    fn int_u16(6) {
        let x: f64 = any();
        match Wip::alloc::<u16>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 0.0 && x <= p2(16) - 1.0, "stored although out of range");
                let v: u16 = take(w);
                assert!(v == x as u16, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 0.0 && x <= p2(16) - 1.0), "number in range refused"),
        }
    }
    /// NonZeroU16: never zero, otherwise as u16
    fn nonzerou16(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroU16>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 1.0 && x <= p2(16) - 1.0, "stored although out of range or zero");
                let v: NonZeroU16 = take(w);
                assert!(v.get() == x as u16, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 1.0 && x <= p2(16) - 1.0), "number in range refused"),
        }
    }
    /// u32: exactly the numbers of the range are stored, truncated toward zero
    fn int_u32(6) {
        let x: f64 = any();
        match Wip::alloc::<u32>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 0.0 && x <= p2(32) - 1.0, "stored although out of range");
                let v: u32 = take(w);
                assert!(v == x as u32, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 0.0 && x <= p2(32) - 1.0), "number in range refused"),
        }
    }
    /// NonZeroU32: never zero, otherwise as u32
    fn nonzerou32(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroU32>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 1.0 && x <= p2(32) - 1.0, "stored although out of range or zero");
                let v: NonZeroU32 = take(w);
                assert!(v.get() == x as u32, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 1.0 && x <= p2(32) - 1.0), "number in range refused"),
        }
    }
    /// u64: exactly the numbers of the range are stored, truncated toward zero
    fn int_u64(6) {
        let x: f64 = any();
        match Wip::alloc::<u64>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 0.0 && x < p2(64), "stored although out of range");
                let v: u64 = take(w);
                assert!(v == x as u64, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 0.0 && x < p2(64)), "number in range refused"),
        }
    }
    /// NonZeroU64: never zero, otherwise as u64
    fn nonzerou64(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroU64>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 1.0 && x < p2(64), "stored although out of range or zero");
                let v: NonZeroU64 = take(w);
                assert!(v.get() == x as u64, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 1.0 && x < p2(64)), "number in range refused"),
        }
    }
    /// usize: exactly the numbers of the range are stored, truncated toward zero
    fn int_usize(6) {
        let x: f64 = any();
        match Wip::alloc::<usize>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 0.0 && x < p2(64), "stored although out of range");
                let v: usize = take(w);
                assert!(v == x as usize, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 0.0 && x < p2(64)), "number in range refused"),
        }
    }
    /// NonZeroUsize: never zero, otherwise as usize
    fn nonzerousize(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroUsize>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= 1.0 && x < p2(64), "stored although out of range or zero");
                let v: NonZeroUsize = take(w);
                assert!(v.get() == x as usize, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= 1.0 && x < p2(64)), "number in range refused"),
        }
    }
    /// i8: exactly the numbers of the range are stored, truncated toward zero
    fn int_i8(6) {
        let x: f64 = any();
        match Wip::alloc::<i8>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= -p2(7) && x <= p2(7) - 1.0, "stored although out of range");
                let v: i8 = take(w);
                assert!(v == x as i8, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= -p2(7) && x <= p2(7) - 1.0), "number in range refused"),
        }
    }
    /// NonZeroI8: never zero, otherwise as i8
    fn nonzeroi8(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroI8>().try_put_f64(x) {
            Ok(w) => {
                assert!((x >= -p2(7) && x <= p2(7) - 1.0) && (x >= 1.0 || x <= -1.0), "stored although out of range or zero");
                let v: NonZeroI8 = take(w);
                assert!(v.get() == x as i8, "stored value is the number truncated");
            }
            Err(_) => assert!(!((x >= -p2(7) && x <= p2(7) - 1.0) && (x >= 1.0 || x <= -1.0)), "number in range refused"),
        }
    }
    /// i16: exactly the numbers of the range are stored, truncated toward zero
    fn int_i16(6) {
        let x: f64 = any();
        match Wip::alloc::<i16>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= -p2(15) && x <= p2(15) - 1.0, "stored although out of range");
                let v: i16 = take(w);
                assert!(v == x as i16, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= -p2(15) && x <= p2(15) - 1.0), "number in range refused"),
        }
    }
    /// NonZeroI16: never zero, otherwise as i16
    fn nonzeroi16(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroI16>().try_put_f64(x) {
            Ok(w) => {
                assert!((x >= -p2(15) && x <= p2(15) - 1.0) && (x >= 1.0 || x <= -1.0), "stored although out of range or zero");
                let v: NonZeroI16 = take(w);
                assert!(v.get() == x as i16, "stored value is the number truncated");
            }
            Err(_) => assert!(!((x >= -p2(15) && x <= p2(15) - 1.0) && (x >= 1.0 || x <= -1.0)), "number in range refused"),
        }
    }
    /// i32: exactly the numbers of the range are stored, truncated toward zero
    fn int_i32(6) {
        let x: f64 = any();
        match Wip::alloc::<i32>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= -p2(31) && x <= p2(31) - 1.0, "stored although out of range");
                let v: i32 = take(w);
                assert!(v == x as i32, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= -p2(31) && x <= p2(31) - 1.0), "number in range refused"),
        }
    }
    /// NonZeroI32: never zero, otherwise as i32
    fn nonzeroi32(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroI32>().try_put_f64(x) {
            Ok(w) => {
                assert!((x >= -p2(31) && x <= p2(31) - 1.0) && (x >= 1.0 || x <= -1.0), "stored although out of range or zero");
                let v: NonZeroI32 = take(w);
                assert!(v.get() == x as i32, "stored value is the number truncated");
            }
            Err(_) => assert!(!((x >= -p2(31) && x <= p2(31) - 1.0) && (x >= 1.0 || x <= -1.0)), "number in range refused"),
        }
    }
    /// i64: exactly the numbers of the range are stored, truncated toward zero
    fn int_i64(6) {
        let x: f64 = any();
        match Wip::alloc::<i64>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= -p2(63) && x < p2(63), "stored although out of range");
                let v: i64 = take(w);
                assert!(v == x as i64, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= -p2(63) && x < p2(63)), "number in range refused"),
        }
    }
    /// NonZeroI64: never zero, otherwise as i64
    fn nonzeroi64(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroI64>().try_put_f64(x) {
            Ok(w) => {
                assert!((x >= -p2(63) && x < p2(63)) && (x >= 1.0 || x <= -1.0), "stored although out of range or zero");
                let v: NonZeroI64 = take(w);
                assert!(v.get() == x as i64, "stored value is the number truncated");
            }
            Err(_) => assert!(!((x >= -p2(63) && x < p2(63)) && (x >= 1.0 || x <= -1.0)), "number in range refused"),
        }
    }
    /// isize: exactly the numbers of the range are stored, truncated toward zero
    fn int_isize(6) {
        let x: f64 = any();
        match Wip::alloc::<isize>().try_put_f64(x) {
            Ok(w) => {
                assert!(x >= -p2(63) && x < p2(63), "stored although out of range");
                let v: isize = take(w);
                assert!(v == x as isize, "stored value is the number truncated");
            }
            Err(_) => assert!(!(x >= -p2(63) && x < p2(63)), "number in range refused"),
        }
    }
    /// NonZeroIsize: never zero, otherwise as isize
    fn nonzeroisize(6) {
        let x: f64 = any();
        match Wip::alloc::<NonZeroIsize>().try_put_f64(x) {
            Ok(w) => {
                assert!((x >= -p2(63) && x < p2(63)) && (x >= 1.0 || x <= -1.0), "stored although out of range or zero");
                let v: NonZeroIsize = take(w);
                assert!(v.get() == x as isize, "stored value is the number truncated");
            }
            Err(_) => assert!(!((x >= -p2(63) && x < p2(63)) && (x >= 1.0 || x <= -1.0)), "number in range refused"),
        }
    }
    fn float_f64(6) {
        let x: f64 = any();
        let v: f64 = take(ok(Wip::alloc::<f64>().try_put_f64(x)));
        assert!(v.to_bits() == x.to_bits());
    }
    fn float_f32(6) {
        let x: f64 = any();
        let inr = x >= f32::MIN as f64 && x <= f32::MAX as f64;
        match Wip::alloc::<f32>().try_put_f64(x) {
            Ok(w) => {
                assert!(inr);
                let v: f32 = take(w);
                assert!(v == x as f32);
            }
            Err(_) => assert!(!inr),
        }
    }
    /// targets that are not numbers are refused, whatever the number
    fn not_a_number(6) {
        let x: f64 = any();
        match below(3) {
            0 => { assert!(!Wip::alloc::<bool>().can_put_f64()); err(Wip::alloc::<bool>().try_put_f64(x)) }
            1 => { assert!(!Wip::alloc::<char>().can_put_f64()); err(Wip::alloc::<char>().try_put_f64(x)) }
            _ => { assert!(!Wip::alloc::<Option<u8>>().can_put_f64()); err(Wip::alloc::<Option<u8>>().try_put_f64(x)) }
        }
    }
    /// the wide integers are not supported: refused, never stored wrong
    fn wide(6) {
        let x: f64 = any();
        match Wip::alloc::<u128>().try_put_f64(x) { Ok(w) => { let v: u128 = take(w); assert!(x >= 0.0 && x < p2(127) * 2.0 && v == x as u128) } Err(_) => {} }
        match Wip::alloc::<i128>().try_put_f64(x) { Ok(w) => { let v: i128 = take(w); assert!(x >= -p2(127) && x < p2(127) && v == x as i128) } Err(_) => {} }
    }
}
crate::native! {
    fn string_refused() {
        let x: f64 = any();
        err(Wip::alloc::<String>().try_put_f64(x));
        err(Wip::alloc::<Vec<u8>>().try_put_f64(x));
    }
}
