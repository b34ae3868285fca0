//! Inputs of a harness.  Under Kani: symbolic values.  Natively: values read from a list (replay of a
//! counterexample) or from a boundary-biased generator (search), so that one harness source serves the
//! proof, the replay of its counterexample and the search for a concrete failing input.
#![allow(dead_code, unused_macros, unused_imports)]
#[cfg(kani)]
mod imp {
    pub trait Any: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Any for T {}
    pub fn any<T: Any>() -> T { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
    pub fn below(n: usize) -> usize { let x: usize = kani::any(); kani::assume(x < n); x }
    pub fn live() -> isize { 0 }
    pub fn reached() { kani::cover!(true, "harness end reached") }
    #[macro_export] macro_rules! harness {
        ($($(#[$m:meta])* fn $n:ident($u:literal) $b:block)*) => { $(
            #[kani::proof]
            #[kani::unwind($u)]
            #[kani::stub(core::fmt::write, crate::sym::wr)]
            #[kani::stub(::alloc::fmt::format, crate::sym::fm)]
            $(#[$m])*
            pub fn $n() { $b; crate::sym::reached() }
        )* };
    }
    #[macro_export] macro_rules! native { ($($t:tt)*) => {}; }
}
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::io::Write;
    pub struct Reject;
    pub struct Src { rng: u64, replay: Option<std::vec::Vec<std::vec::Vec<u8>>>, pos: usize, pub log: std::vec::Vec<std::vec::Vec<u8>> }
    thread_local! { pub static SRC: RefCell<Src> = RefCell::new(Src { rng: 1, replay: None, pos: 0, log: std::vec::Vec::new() }); }
    pub fn reject() -> ! { std::panic::resume_unwind(std::boxed::Box::new(Reject)) }
    pub fn assume(c: bool) { if !c { reject() } }
    fn next(s: &mut Src) -> u64 { s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15); let mut z = s.rng; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    /// next random word (0 when replaying beyond the list)
    pub fn draw(n: usize, gen_: impl FnOnce(&mut dyn FnMut() -> u64) -> std::vec::Vec<u8>) -> std::vec::Vec<u8> {
        let before = live();
        let v = SRC.with(|s| {
            let mut s = s.borrow_mut();
            let v = if let Some(r) = &s.replay {
                let mut v = r.get(s.pos).cloned().unwrap_or_default();
                v.resize(n, 0);
                v
            } else {
                let s2: &mut Src = &mut s;
                gen_(&mut || next(s2))
            };
            s.pos += 1;
            s.log.push(v.clone());
            v
        });
        LIVE.with(|l| l.set(before + (v.capacity() > 0) as isize));
        v
    }
    pub trait Any: Sized { fn gen_() -> Self; }
    pub fn any<T: Any>() -> T { T::gen_() }
    macro_rules! ints { ($($t:ty),*) => { $( impl Any for $t { fn gen_() -> $t {
        let v = draw(core::mem::size_of::<$t>(), |r| {
            let bits = 8 * core::mem::size_of::<$t>() as u32;
            let w = || -> () {};
            let _ = w;
            let x = r();
            let y = (r() as u128) << 64 | r() as u128;
            let v: u128 = match x % 8 {
                0 => y,
                1 => (x >> 8) as u128 % 20,
                2 => ((x >> 8) as u128 % 20).wrapping_neg(),
                3 | 4 => { let k = (x >> 8) as u32 % bits; (1u128 << k).wrapping_add(((x >> 40) % 5) as u128).wrapping_sub(2) }
                5 => { let k = (x >> 8) as u32 % bits; (1u128 << k).wrapping_add(((x >> 40) % 5) as u128).wrapping_sub(2).wrapping_neg() }
                6 => { let k = (x >> 8) as u32 % bits; y & ((1u128 << k) | ((1u128 << k) - 1)) }
                _ => (0x20 + (x >> 8) % 0x60) as u128,
            };
            (v as $t).to_le_bytes().to_vec()
        });
        <$t>::from_le_bytes(v.try_into().unwrap())
    } } )* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Any for bool { fn gen_() -> bool { let v = draw(1, |r| std::vec![(r() & 1) as u8]); v[0] & 1 == 1 } }
    impl Any for () { fn gen_() {} }
    impl Any for char { fn gen_() -> char {
        let v = draw(4, |r| { let x = r(); let y = (x >> 8) as u32; let c = match x % 6 { 0 => y % 0x20, 1 => y % 0x80, 2 => [0x22, 0x5c, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x2f][y as usize % 16], 3 => 0x20 + y % 0x60, 4 => y % 0x10000, _ => y % 0x110000 }; char::from_u32(c).unwrap_or('x').to_string(); (char::from_u32(c).unwrap_or('\u{e000}') as u32).to_le_bytes().to_vec() });
        match char::from_u32(u32::from_le_bytes(v.try_into().unwrap())) { Some(c) => c, None => reject() }
    } }
    macro_rules! floats { ($($t:ty, $b:ty);*) => { $( impl Any for $t { fn gen_() -> $t {
        let v = draw(core::mem::size_of::<$t>(), |r| {
            let x = r(); let y = r();
            let f: $t = match x % 8 {
                0 => <$t>::from_bits(y as $b),
                1 => [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, <$t>::NAN, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, <$t>::EPSILON, 1.5, -1.5, 0.99999][(y % 16) as usize],
                2 => (y as i64 % 1000) as $t / 4.0,
                3 | 4 => { let k = (y % 130) as i32; let b = (2.0 as $t).powi(k); let b = match (x >> 8) % 5 { 0 => b, 1 => b - 1.0, 2 => b + 1.0, 3 => <$t>::from_bits(b.to_bits() - 1), _ => <$t>::from_bits(b.to_bits() + 1) }; if (x >> 20) & 1 == 1 { -b } else { b } }
                5 => y as i64 as $t,
                6 => (y as i32) as $t,
                _ => (y as i32 % 70000) as $t + 0.5,
            };
            f.to_bits().to_le_bytes().to_vec()
        });
        <$t>::from_bits(<$b>::from_le_bytes(v.try_into().unwrap()))
    } } )* } }
    floats!(f32, u32; f64, u64);
    impl<T: Any, const N: usize> Any for [T; N] { fn gen_() -> [T; N] { core::array::from_fn(|_| T::gen_()) } }
    impl<A: Any, B: Any> Any for (A, B) { fn gen_() -> (A, B) { (A::gen_(), B::gen_()) } }
    impl<A: Any, B: Any, C: Any> Any for (A, B, C) { fn gen_() -> (A, B, C) { (A::gen_(), B::gen_(), C::gen_()) } }
    impl<T: Any> Any for Option<T> { fn gen_() -> Option<T> { if bool::gen_() { Some(T::gen_()) } else { None } } }
    pub fn below(n: usize) -> usize {
        let v = draw(8, |r| ((r() % n as u64) as usize).to_le_bytes().to_vec());
        let x = usize::from_le_bytes(v.try_into().unwrap());
        if x >= n { reject() }
        x
    }
    /// a value below n recorded in one call per choice of a history
    pub fn any_string(max: usize) -> std::string::String { let n = below(max + 1); (0..n).map(|_| any::<char>()).collect() }
    pub fn any_bytes(max: usize) -> std::vec::Vec<u8> { let n = below(max + 1); (0..n).map(|_| any::<u8>()).collect() }
    /// number of live allocations made by this thread (leaks and double frees of a native run)
    pub fn live() -> isize { LIVE.with(|l| l.get()) }
    thread_local! { static LIVE: core::cell::Cell<isize> = const { core::cell::Cell::new(0) }; }
    struct Counting;
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { let _ = LIVE.try_with(|c| c.set(c.get() + 1)); unsafe { std::alloc::System.alloc(l) } }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { let _ = LIVE.try_with(|c| c.set(c.get() - 1)); unsafe { std::alloc::System.dealloc(p, l) } }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { unsafe { std::alloc::System.realloc(p, l, n) } }
    }
    #[global_allocator] static ALLOC: Counting = Counting;
    pub type Entry = (&'static str, fn());
    #[macro_export] macro_rules! harness {
        ($($(#[$m:meta])* fn $n:ident($u:literal) $b:block)*) => { $( pub fn $n() $b )* pub const PROOFS: &[crate::sym::Entry] = &[$((stringify!($n), $n as fn())),*]; };
    }
    #[macro_export] macro_rules! native {
        ($($(#[$m:meta])* fn $n:ident() $b:block)*) => { $( pub fn $n() $b )* pub const NATIVE: &[crate::sym::Entry] = &[$((stringify!($n), $n as fn())),*]; };
    }
    thread_local! { static MSG: RefCell<std::string::String> = RefCell::new(std::string::String::new()); pub static COUNT: RefCell<(u64, std::collections::HashSet<u64>)> = RefCell::new((0, Default::default())); }
    /// an exhaustive harness reports how many cases it enumerated
    pub fn counted(n: u64) { COUNT.with(|c| c.borrow_mut().0 += n) }
    fn once(f: fn()) -> Result<bool, std::string::String> {
        MSG.with(|m| m.borrow_mut().clear());
        match std::panic::catch_unwind(f) {
            Ok(()) => Ok(true),
            Err(e) => if e.is::<Reject>() { Ok(false) } else { Err(MSG.with(|m| m.borrow().clone())) },
        }
    }
    fn set(rng: u64, replay: Option<std::vec::Vec<std::vec::Vec<u8>>>) { SRC.with(|s| *s.borrow_mut() = Src { rng, replay, pos: 0, log: std::vec::Vec::new() }) }
    fn hex(b: &[u8]) -> std::string::String { b.iter().map(|x| std::format!("{x:02x}")).collect() }
    fn log() -> std::string::String { SRC.with(|s| s.borrow().log.iter().map(|v| hex(v)).collect::<std::vec::Vec<_>>().join(",")) }
    fn loghash() -> u64 { use std::hash::*; SRC.with(|s| { let mut h = std::collections::hash_map::DefaultHasher::new(); s.borrow().log.hash(&mut h); h.finish() }) }
    /// usage: search STATEFILE SEED SECONDS_PER_HARNESS [name...] | seed NAME SEED | values NAME hex,hex,...
    pub fn main(all: &[(&'static str, &[Entry])]) {
        std::panic::set_hook(std::boxed::Box::new(|i| {
            if i.payload().is::<Reject>() { return }
            let s = std::format!("{i}");
            MSG.with(|m| { let mut m = m.borrow_mut(); if m.is_empty() { *m = s } });
        }));
        let args: std::vec::Vec<std::string::String> = std::env::args().collect();
        let list: std::vec::Vec<(std::string::String, fn())> = all.iter().flat_map(|(m, l)| l.iter().map(move |(n, f)| (std::format!("{m}::{n}"), *f))).collect();
        match args[1].as_str() {
            "list" => for (n, _) in &list { std::println!("{n}") },
            "search" => {
                let mut state = std::fs::OpenOptions::new().create(true).write(true).open(&args[2]).unwrap();
                let seed: u64 = args[3].parse().unwrap();
                let secs: f64 = args[4].parse().unwrap();
                let only = &args[5..];
                use std::os::unix::fs::FileExt;
                for (hi, (n, f)) in list.iter().enumerate() {
                    if !only.is_empty() && !only.contains(n) { continue }
                    let short = n.rsplit("::").next().unwrap();
                    let single = short.starts_with("b_") || short.starts_with("k_");
                    let t0 = std::time::Instant::now();
                    let (mut runs, mut rejected, mut failed) = (0u64, 0u64, None);
                    COUNT.with(|c| *c.borrow_mut() = (0, Default::default()));
                    let mut last = std::string::String::new();
                    let mut i = 0u64;
                    loop {
                        let sd = seed.wrapping_mul(0x1000003).wrapping_add((hi as u64) << 40).wrapping_add(i);
                        let mut b = [0u8; 16]; b[..8].copy_from_slice(&(hi as u64).to_le_bytes()); b[8..].copy_from_slice(&sd.to_le_bytes());
                        state.write_all_at(&b, 0).unwrap();
                        set(sd, None);
                        runs += 1;
                        match once(*f) {
                            Ok(true) => { let h = loghash(); COUNT.with(|c| { c.borrow_mut().1.insert(h); }); if runs <= 64 { last = log() } }
                            Ok(false) => rejected += 1,
                            Err(m) => { failed = Some((sd, m)); break }
                        }
                        i += 1;
                        if single || t0.elapsed().as_secs_f64() > secs || i > 2_000_000 { break }
                    }
                    let (enumerated, distinct) = COUNT.with(|c| { let c = c.borrow(); (c.0, c.1.len()) });
                    match failed {
                        None => std::println!("DONE\t{n}\t{runs}\t{rejected}\t{distinct}\t{enumerated}\t{last}"),
                        Some((sd, m)) => std::println!("FAIL\t{n}\t{sd}\t{}\t{}", log(), m.replace('\n', " ").replace('\t', " ")),
                    }
                    std::io::stdout().flush().unwrap();
                }
                state.write_all_at(&[0xff; 16], 0).unwrap();
                let _ = state.flush();
            }
            m => {
                let f = match list.iter().find(|(n, _)| *n == args[2]) { Some(x) => x.1, None => { std::println!("REPLAY\tmissing"); return } };
                if m == "seed" { set(args[3].parse().unwrap(), None) } else {
                    let v = args[3].split(',').map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
                    set(0, Some(v));
                }
                // stderr log of the choices, in case the process dies
                let r = once(f);
                match r { Ok(true) => std::println!("REPLAY\tpass"), Ok(false) => std::println!("REPLAY\trejected"), Err(m) => std::println!("REPLAY\tfail\t{}", m.replace('\n', " ")) }
            }
        }
    }
}
pub use imp::*;
pub fn wr(_o: &mut dyn core::fmt::Write, _a: core::fmt::Arguments<'_>) -> core::fmt::Result { Ok(()) }
pub fn fm(_a: core::fmt::Arguments<'_>) -> alloc::string::String { alloc::string::String::new() }
/// Result::unwrap without Debug formatting.
#[track_caller]
pub fn ok<T, E>(r: Result<T, E>) -> T { match r { Ok(t) => t, Err(e) => { core::mem::forget(e); panic!("operation failed") } } }
/// The operation must fail.
#[track_caller]
pub fn err<T, E>(r: Result<T, E>) { match r { Ok(_t) => { panic!("operation must be rejected") } Err(_e) => {} } }
/// Contract of `str::parse::<f64>` used where decimal-to-binary conversion is not the point:
/// exact on [-]digits of at most 15 digits, any result elsewhere.
pub struct F64(pub f64);
impl core::str::FromStr for F64 {
    type Err = ();
    fn from_str(s: &str) -> Result<F64, ()> {
        let b = s.as_bytes();
        let (neg, mut i) = if b.len() > 0 && b[0] == b'-' { (true, 1) } else { (false, 0) };
        let mut v: u64 = 0;
        if i == b.len() { return Err(()) }
        if b.len() - i > 15 { return other() }
        while i < b.len() {
            if b[i] < b'0' || b[i] > b'9' { return other() }
            v = v * 10 + (b[i] - b'0') as u64;
            i += 1;
        }
        Ok(F64(if neg { -(v as f64) } else { v as f64 }))
    }
}
#[cfg(kani)]
fn other() -> Result<F64, ()> { if kani::any() { Ok(F64(kani::any())) } else { Err(()) } }
#[cfg(not(kani))]
fn other() -> Result<F64, ()> { Err(()) }
/// `unwrap` without the Debug text of the error.
pub trait UnwrapV { type T; fn unwrap_v(self) -> Self::T; }
impl<T> UnwrapV for Option<T> { type T = T; #[track_caller] fn unwrap_v(self) -> T { match self { Some(t) => t, None => panic!("unwrap on None") } } }
impl<T, E> UnwrapV for Result<T, E> { type T = T; #[track_caller] fn unwrap_v(self) -> T { match self { Ok(t) => t, Err(e) => { core::mem::forget(e); panic!("unwrap on Err") } } } }
/// `to_string` of a value whose text is not observed.
pub trait ToStringV { fn to_string_v(&self) -> alloc::string::String; }
impl<T: ?Sized> ToStringV for T { fn to_string_v(&self) -> alloc::string::String { alloc::string::String::new() } }
