use crate::sym::*;
use crate::Facet;
use facet_msgpack::{from_slice, to_vec};
use std::string::String;
use std::vec::Vec;
use std::vec;

/// An independent reading of the MessagePack specification.
#[derive(Clone, Debug, PartialEq)]
pub enum M { Int(i128, bool), Str(Vec<u8>), Bool(bool), Nil, Float, Bin, Ext, Arr(Vec<M>), Map(Vec<(M, M)>) }
fn take<'a>(s: &mut &'a [u8], n: usize) -> Option<&'a [u8]> { if s.len() < n { None } else { let (a, b) = s.split_at(n); *s = b; Some(a) } }
fn num(s: &mut &[u8], n: usize) -> Option<u64> { Some(take(s, n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64)) }
/// reads one value (not recursive beyond what the tests build)
pub fn read(s: &mut &[u8]) -> Option<M> {
    let p = take(s, 1)?[0];
    let sg = |n: u64, w: u32| -> i128 { let n = n as i128; if n >> (w - 1) & 1 == 1 { n - (1i128 << w) } else { n } };
    let many = |s: &mut &[u8], n: usize| -> Option<Vec<M>> { let mut r = vec![]; for _ in 0..n { r.push(read(s)?) } Some(r) };
    let pairs = |s: &mut &[u8], n: usize| -> Option<M> { let mut r = vec![]; for _ in 0..n { let k = read(s)?; r.push((k, read(s)?)) } Some(M::Map(r)) };
    Some(match p {
        0..=0x7f => M::Int(p as i128, true), 0xe0..=0xff => M::Int(p as i128 - 256, false),
        0xcc => M::Int(num(s, 1)? as i128, true), 0xcd => M::Int(num(s, 2)? as i128, true), 0xce => M::Int(num(s, 4)? as i128, true), 0xcf => M::Int(num(s, 8)? as i128, true),
        0xd0 => M::Int(sg(num(s, 1)?, 8), false), 0xd1 => M::Int(sg(num(s, 2)?, 16), false), 0xd2 => M::Int(sg(num(s, 4)?, 32), false), 0xd3 => M::Int(sg(num(s, 8)?, 64), false),
        0xc0 => M::Nil, 0xc2 => M::Bool(false), 0xc3 => M::Bool(true), 0xca => { num(s, 4)?; M::Float } 0xcb => { num(s, 8)?; M::Float }
        0xa0..=0xbf => M::Str(take(s, p as usize - 0xa0)?.to_vec()),
        0xd9 => { let n = num(s, 1)?; M::Str(take(s, n as usize)?.to_vec()) } 0xda => { let n = num(s, 2)?; M::Str(take(s, n as usize)?.to_vec()) } 0xdb => { let n = num(s, 4)?; M::Str(take(s, n as usize)?.to_vec()) }
        0xc4 => { let n = num(s, 1)?; take(s, n as usize)?; M::Bin } 0xc5 => { let n = num(s, 2)?; take(s, n as usize)?; M::Bin } 0xc6 => { let n = num(s, 4)?; take(s, n as usize)?; M::Bin }
        0xc7 => { let n = num(s, 1)?; take(s, n as usize + 1)?; M::Ext } 0xc8 => { let n = num(s, 2)?; take(s, n as usize + 1)?; M::Ext } 0xc9 => { let n = num(s, 4)?; take(s, n as usize + 1)?; M::Ext }
        0xd4 => { take(s, 2)?; M::Ext } 0xd5 => { take(s, 3)?; M::Ext } 0xd6 => { take(s, 5)?; M::Ext } 0xd7 => { take(s, 9)?; M::Ext } 0xd8 => { take(s, 17)?; M::Ext }
        0x90..=0x9f => M::Arr(many(s, p as usize - 0x90)?), 0xdc => { let n = num(s, 2)?; M::Arr(many(s, n as usize)?) } 0xdd => { let n = num(s, 4)?; M::Arr(many(s, n as usize)?) }
        0x80..=0x8f => pairs(s, p as usize - 0x80)?, 0xde => { let n = num(s, 2)?; pairs(s, n as usize)? } 0xdf => { let n = num(s, 4)?; pairs(s, n as usize)? }
        0xc1 => return None,
    })
}
/// the shortest encodings
fn be(o: &mut Vec<u8>, p: u8, n: u64, w: usize) { o.push(p); o.extend_from_slice(&n.to_be_bytes()[8 - w..]) }
pub fn w_int(o: &mut Vec<u8>, n: i128) {
    if n >= 0 { let u = n as u64; if n < 128 { o.push(n as u8) } else if n < 1 << 8 { be(o, 0xcc, u, 1) } else if n < 1 << 16 { be(o, 0xcd, u, 2) } else if n < 1 << 32 { be(o, 0xce, u, 4) } else { be(o, 0xcf, u, 8) } }
    else { let u = n as i64 as u64; if n >= -32 { o.push(n as u8) } else if n >= -(1 << 7) { be(o, 0xd0, u, 1) } else if n >= -(1 << 15) { be(o, 0xd1, u, 2) } else if n >= -(1 << 31) { be(o, 0xd2, u, 4) } else { be(o, 0xd3, u, 8) } }
}
pub fn w_str(o: &mut Vec<u8>, s: &[u8]) { let n = s.len(); if n < 32 { o.push(0xa0 + n as u8) } else if n < 256 { be(o, 0xd9, n as u64, 1) } else if n < 65536 { be(o, 0xda, n as u64, 2) } else { be(o, 0xdb, n as u64, 4) } o.extend_from_slice(s) }
pub fn w_map(o: &mut Vec<u8>, n: usize) { if n < 16 { o.push(0x80 + n as u8) } else { be(o, 0xde, n as u64, 2) } }

/// a type that can be serialised: how it is made, what it must look like, what it is in a document
pub trait T: Facet + PartialEq + std::fmt::Debug + Sized { fn make(d: u32) -> Self; fn enc(&self, o: &mut Vec<u8>); fn of(m: &M) -> Option<Self>; fn names() -> Vec<&'static str> { vec![] }
    /// the same value with its members in another order, other formats, unknown members
    fn loose(&self, o: &mut Vec<u8>); }
fn any_int(o: &mut Vec<u8>, n: i128) {
    let u = n as i64 as u64;
    match below(4) { 0 | 1 => w_int(o, n),
        2 if n >= 0 => { let u = n as u64; let k = below(4); let w = [1, 2, 4, 8][k]; if w == 8 || u >> (8 * w) == 0 { be(o, [0xcc, 0xcd, 0xce, 0xcf][k], u, w) } else { be(o, 0xcf, u, 8) } }
        3 if n >= i64::MIN as i128 && n < 0 => { let k = below(4); let w = [1, 2, 4, 8][k]; if w == 8 || n >= -(1i128 << (8 * w - 1)) { be(o, [0xd0, 0xd1, 0xd2, 0xd3][k], u, w) } else { be(o, 0xd3, u, 8) } }
        _ => w_int(o, n) }
}
fn any_len(o: &mut Vec<u8>, s: &[u8]) { match below(4) { 0 if s.len() < 256 => be(o, 0xd9, s.len() as u64, 1), 1 if s.len() < 65536 => be(o, 0xda, s.len() as u64, 2), 2 => be(o, 0xdb, s.len() as u64, 4), _ => { w_str(o, s); return } } o.extend_from_slice(s) }
fn any_map(o: &mut Vec<u8>, n: usize) { match below(4) { 0 => be(o, 0xde, n as u64, 2), 1 => be(o, 0xdf, n as u64, 4), _ => w_map(o, n) } }
/// any value
pub fn junk(o: &mut Vec<u8>, d: u32) {
    match below(if d > 3 { 10 } else { 14 }) {
        0 => any_int(o, any::<i64>() as i128), 1 => any_int(o, any::<u64>() as i128), 2 => o.push([0xc0, 0xc2, 0xc3][below(3)]),
        3 => be(o, 0xca, any::<u32>() as u64, 4), 4 => be(o, 0xcb, any::<u64>(), 8), 5 => { let s = any_bytes(40); any_len(o, &s) }
        6 => { let s = any_bytes(20); let k = below(3); be(o, [0xc4, 0xc5, 0xc6][k], s.len() as u64, [1, 2, 4][k]); o.extend_from_slice(&s) }
        7 => { let s = any_bytes(20); let k = below(3); be(o, [0xc7, 0xc8, 0xc9][k], s.len() as u64, [1, 2, 4][k]); o.push(any()); o.extend_from_slice(&s) }
        8 => { let k = below(5); o.push([0xd4, 0xd5, 0xd6, 0xd7, 0xd8][k]); for _ in 0..=[1, 2, 4, 8, 16][k] { o.push(any()) } }
        9 => { let s = any_string(12); any_len(o, s.as_bytes()) }
        10 | 11 => { let n = below(4); match below(3) { 0 => o.push(0x90 + n as u8), 1 => be(o, 0xdc, n as u64, 2), _ => be(o, 0xdd, n as u64, 4) } for _ in 0..n { junk(o, d + 1) } }
        _ => { let n = below(3); any_map(o, n); for _ in 0..2 * n { junk(o, d + 1) } }
    }
}
macro_rules! ints { ($($t:ty: $sg:expr),*) => { $( impl T for $t { fn make(_: u32) -> $t { any() } fn enc(&self, o: &mut Vec<u8>) { w_int(o, *self as i128) } fn loose(&self, o: &mut Vec<u8>) { any_int(o, *self as i128) }
    fn of(m: &M) -> Option<$t> { match m { M::Int(n, pos) => if *pos || $sg { <$t>::try_from(*n).ok() } else { None }, _ => None } } } )* } }
ints!(u8: false, u16: false, u32: false, u64: false, i8: true, i16: true, i32: true, i64: true);
impl T for bool { fn make(_: u32) -> bool { any() } fn enc(&self, o: &mut Vec<u8>) { o.push(if *self { 0xc3 } else { 0xc2 }) } fn loose(&self, o: &mut Vec<u8>) { self.enc(o) } fn of(m: &M) -> Option<bool> { match m { M::Bool(b) => Some(*b), _ => None } } }
fn text() -> String { match below(12) { 0 => { let n = [30, 31, 32, 33, 254, 255, 256, 257][below(8)]; "x".repeat(n) } 1 => { let n = below(300); "é".repeat(n) } 2 => "y".repeat(if below(40) == 0 { [65535, 65536, 65537][below(3)] } else { 64 }), _ => any_string(10) } }
impl T for String { fn make(_: u32) -> String { text() } fn enc(&self, o: &mut Vec<u8>) { w_str(o, self.as_bytes()) } fn loose(&self, o: &mut Vec<u8>) { any_len(o, self.as_bytes()) } fn of(m: &M) -> Option<String> { match m { M::Str(b) => String::from_utf8(b.clone()).ok(), _ => None } } }
macro_rules! structs { ($($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* })*) => { $(
    #[derive(Facet, PartialEq, Debug)] $(#[$m])* pub struct $n { $($f: $t),* }
    impl T for $n { fn make(d: u32) -> $n { $n { $($f: <$t>::make(d + 1)),* } }
        fn names() -> Vec<&'static str> { vec![$(stringify!($f).trim_start_matches("r#")),*] }
        fn enc(&self, o: &mut Vec<u8>) { w_map(o, Self::names().len()); $( w_str(o, stringify!($f).trim_start_matches("r#").as_bytes()); self.$f.enc(o); )* }
        fn loose(&self, o: &mut Vec<u8>) {
            let mut ms: Vec<Vec<u8>> = vec![];
            $( { let mut x = vec![]; any_len(&mut x, stringify!($f).trim_start_matches("r#").as_bytes()); self.$f.loose(&mut x); ms.push(x); } )*
            // sometimes unknown members
            while below(3) == 0 { let mut x = vec![]; let name = ["zz", "", "A", "ab", "unknown field"][below(5)]; any_len(&mut x, name.as_bytes()); junk(&mut x, 0); let at = below(ms.len() + 1); ms.insert(at, x) }
            for i in (1..ms.len()).rev() { let j = below(i + 1); ms.swap(i, j) }
            any_map(o, ms.len()); for m in ms { o.extend_from_slice(&m) }
        }
        fn of(m: &M) -> Option<$n> { match m { M::Map(ms) => { for (k, _) in ms { match k { M::Str(b) => { String::from_utf8(b.clone()).ok()?; } _ => return None } }
            Some($n { $($f: { let mut r = None; for (k, v) in ms { if *k == M::Str(stringify!($f).trim_start_matches("r#").as_bytes().to_vec()) { if r.is_some() { return None } r = Some(<$t>::of(v)?) } } r? }),* }) } _ => None } } }
)* } }
structs! {
    All { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: bool, j: String }
    Two { x: i32, y: String }
    Nest { p: Two, q: u8, r: Two }
    Deep { n: Nest, t: One, z: bool }
    One { only: u64 }
    Empty { }
    Names { r#type: u8, __: u16, a_rather_long_field_name_of_more_than_thirty_two_bytes: u32, Ünï: i8 }
    Wide { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: u8, b1: u8, b2: u8, b3: u8, b4: i64 }
    Wider { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: u8, b1: u8, b2: u8, b3: u8, b4: u8, b5: i16 }
    Strs { s: String, t: String, u: String }
}
#[derive(Facet, PartialEq, Debug)] pub struct Tu(u8, String, i16);
/// serialised exactly, and read back
fn trip<A: T>() {
    let v = A::make(0);
    let mut want = vec![]; v.enc(&mut want);
    let got = to_vec(&v);
    assert!(got == want, "{v:?} was written as {:02x?} instead of {:02x?}", &got[..got.len().min(60)], &want[..want.len().min(60)]);
}
fn round<A: T>() {
    let v = A::make(0);
    let got = to_vec(&v);
    let b: Result<A, _> = from_slice(&got);
    assert!(b.as_ref().ok() == Some(&v), "{v:?} was read back as {b:?}");
    let mut l = vec![]; v.loose(&mut l);
    let b: Result<A, _> = from_slice(&l);
    assert!(b.as_ref().ok() == Some(&v), "{v:?} encoded as {:02x?} was read as {b:?}", &l[..l.len().min(80)]);
}
/// any bytes: a value exactly if the document holds one (compared with the independent reader)
fn total<A: T>(b: &[u8]) {
    let before = live();
    let m = read(&mut &b[..]);
    let got: Result<A, _> = from_slice(b);
    let want = m.as_ref().and_then(|m| A::of(m));
    match &m {
        // the reader needs the value to be complete; the decoder may refuse earlier, never accept
        None => assert!(got.is_err(), "{b:02x?} ends inside a value or is no value, but was read as {got:?}"),
        Some(_) => assert!(got.as_ref().ok() == want.as_ref(), "{b:02x?} was read as {got:?} instead of {want:?}"),
    }
    drop((m, got, want));
    assert!(live() <= before, "memory leaked");
}
fn doc<A: T>() -> Vec<u8> { let mut l = vec![]; A::make(0).loose(&mut l); l }
fn damaged<A: T>() {
    let mut b = doc::<A>();
    match below(5) {
        0 => { let n = below(b.len() + 1); b.truncate(n) }
        1 => { let i = below(b.len()); b[i] = any() }
        2 => { let i = below(b.len()); b[i] = [0xc0, 0xc1, 0xc2, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd3, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x80, 0x81, 0x90, 0xa0, 0xe0, 0xff, 0x7f][below(23)] }
        3 => { let i = below(b.len()); b.remove(i); }
        _ => { let i = below(b.len() + 1); b.insert(i, any()) }
    }
    if b.len() < 4000 && !huge(&b) { total::<A>(&b) }
}
/// counts that would make the reference reader slow
fn huge(b: &[u8]) -> bool { b.windows(3).any(|w| (w[0] == 0xdd || w[0] == 0xdf) && (w[1] != 0 || w[2] != 0)) }
macro_rules! kinds { ($f:ident) => { match below(20) { 0 => $f::<u8>(), 1 => $f::<u16>(), 2 => $f::<u32>(), 3 => $f::<u64>(), 4 => $f::<i8>(), 5 => $f::<i16>(), 6 => $f::<i32>(), 7 => $f::<i64>(), 8 => $f::<bool>(), 9 => $f::<String>(),
    10 => $f::<All>(), 11 => $f::<Two>(), 12 => $f::<Nest>(), 13 => $f::<Deep>(), 14 => $f::<One>(), 15 => $f::<Names>(), 16 => $f::<Wide>(), 17 => $f::<Wider>(), 18 => $f::<Strs>(), _ => $f::<Empty>() } } }
fn any_doc<A: T>() { let b = any_bytes(24); if !huge(&b) { total::<A>(&b) } }
fn twice<A: T>() {
    let (v, w) = (A::make(0), A::make(0));
    let (mut a, mut b) = (vec![], vec![]); v.enc(&mut a); w.enc(&mut b);
    let n = A::names().len();
    let k = below(n);
    let mut s = &b[1..]; let mut from = 1;
    for i in 0..=k { from = b.len() - s.len(); read(&mut s).unwrap(); read(&mut s).unwrap(); }
    let mut d = vec![0x80 + n as u8 + 1]; d.extend_from_slice(&a[1..]); d.extend_from_slice(&b[from..b.len() - s.len()]);
    assert!(from_slice::<A>(&d).is_err(), "accepted twice the same member: {d:02x?}");
    total::<A>(&d);
}
fn ints_only<A: T>() { let mut b = vec![]; let n: i64 = any(); match below(3) { 0 => any_int(&mut b, n as i128), 1 => any_int(&mut b, n as u64 as i128), _ => { let k = below(8); be(&mut b, 0xcc + k as u8, n as u64, [1, 2, 4, 8][k % 4]) } } total::<A>(&b) }
/// an unknown member holding anything, before, between or after known ones, also cut short
fn skip<A: T>() {
    let v = A::make(0);
    let mut b = vec![]; v.enc(&mut b);
    let n = A::names().len();
    if n >= 15 { return }
    let mut x = vec![]; w_str(&mut x, b"?"); junk(&mut x, 0);
    // members are found by reading
    let mut s = &b[1..]; let mut at = vec![1];
    for _ in 0..n { read(&mut s).unwrap(); read(&mut s).unwrap(); at.push(b.len() - s.len()) }
    let p = at[below(n + 1)];
    let mut d = vec![0x80 + n as u8 + 1]; d.extend_from_slice(&b[1..p]); d.extend_from_slice(&x); d.extend_from_slice(&b[p..]);
    let got: Result<A, _> = from_slice(&d);
    assert!(got.as_ref().ok() == Some(&v), "with an unknown member {x:02x?}: {v:?} was read as {got:?}");
    // cut inside the last member
    if p == b.len() { let k = d.len() - 1 - below(x.len() - 1).min(x.len() - 2); let got: Result<A, _> = from_slice(&d[..k]); assert!(got.is_err(), "an incomplete unknown value was accepted: {:02x?}", &d[..k]) }
}
crate::native! {
    fn m01_shortest() { kinds!(trip) }
    fn m01_scalars() { match below(9) { 0 => trip::<u8>(), 1 => trip::<u16>(), 2 => trip::<u32>(), 3 => trip::<u64>(), 4 => trip::<i8>(), 5 => trip::<i16>(), 6 => trip::<i32>(), 7 => trip::<i64>(), _ => trip::<String>() } }
    fn m02_bytes() { kinds!(any_doc) }
    fn m02_damaged() { kinds!(damaged) }
    /// a member that occurs twice is an error, whatever its values
    fn m02_twice() { match below(5) { 0 => twice::<All>(), 1 => twice::<Two>(), 2 => twice::<Nest>(), 3 => twice::<Strs>(), _ => twice::<One>() } }
    fn m02_ints() { match below(8) { 0 => ints_only::<u8>(), 1 => ints_only::<u16>(), 2 => ints_only::<u32>(), 3 => ints_only::<u64>(), 4 => ints_only::<i8>(), 5 => ints_only::<i16>(), 6 => ints_only::<i32>(), _ => ints_only::<i64>() } }
    /// every single byte, and every byte followed by zeroes or ones, for every scalar
    fn b_m02_prefixes() {
        for p in 0..=255u8 { for fill in [0u8, 1, 0x7f, 0x80, 0xff] { for n in 0..11usize {
            let mut b = vec![p]; b.extend(std::iter::repeat(fill).take(n));
            if huge(&b) || (p == 0xdb || p == 0xc6 || p == 0xc9) && fill > 0 && false { continue }
            macro_rules! each { ($($t:ty),*) => { $( total::<$t>(&b); counted(1); )* } }
            each!(u8, u16, u32, u64, i8, i16, i32, i64, bool, String, One, Empty);
        } } }
    }
    fn m03_round() { kinds!(round) }
    fn m03_scalars() { match below(10) { 0 => round::<u8>(), 1 => round::<u16>(), 2 => round::<u32>(), 3 => round::<u64>(), 4 => round::<i8>(), 5 => round::<i16>(), 6 => round::<i32>(), 7 => round::<i64>(), 8 => round::<bool>(), _ => round::<String>() } }
    fn m03_tuple_struct() { let v = Tu(any(), text(), any()); let b: Tu = from_slice(&to_vec(&v)).unwrap(); assert!(b == v) }
    fn m04_skip() { match below(6) { 0 => skip::<All>(), 1 => skip::<Two>(), 2 => skip::<One>(), 3 => skip::<Empty>(), 4 => skip::<Strs>(), _ => skip::<Nest>() } }
    /// very deep and very wide unknown values
    fn b_m04_deep() {
        for p in [0x91u8, 0x81, 0xdc, 0xdd] { for n in [10usize, 1000, 400_000] {
            let mut b = vec![0x82, 0xa1, b'?'];
            for _ in 0..n { match p { 0x91 => b.push(p), 0x81 => b.extend_from_slice(&[0x81, 0x01]), 0xdc => b.extend_from_slice(&[0xdc, 0, 1]), _ => b.extend_from_slice(&[0xdd, 0, 0, 0, 1]) } }
            let cut = b.len();
            b.push(0xc0); b.extend_from_slice(b"\xa4only\x07");
            assert!(from_slice::<One>(&b).ok() == Some(One { only: 7 })); counted(1);
            assert!(from_slice::<One>(&b[..cut]).is_err()); counted(1);
        } }
        for p in [0xdcu8, 0xde] { let mut b = vec![0x82, 0xa1, b'?', p, 0xff, 0xff]; for _ in 0..65535 * if p == 0xde { 2 } else { 1 } { b.push(0xc2) } b.extend_from_slice(b"\xa4only\x07"); assert!(from_slice::<One>(&b).ok() == Some(One { only: 7 })); counted(1); }
        // a count larger than what is left is refused without reading it all
        for p in [0xddu8, 0xdf, 0xdb, 0xc6, 0xc9] { let b = [0x82, 0xa1, b'?', p, 0xff, 0xff, 0xff, 0xff, 0x01]; assert!(from_slice::<One>(&b).is_err()); counted(1); }
    }
    /// each kind of value cut at each place
    fn b_m04_cut() {
        for p in 0..=255u8 { for n in 0..40usize { for f in [0u8, 2, 0xc0] {
            let mut x = vec![p]; x.extend(std::iter::repeat(f).take(n));
            if huge(&x) { continue }
            let mut s = &x[..]; let whole = read(&mut s).is_some() && s.is_empty();
            let mut d = b"\x82\xa4only\x07\xa1?".to_vec(); d.extend_from_slice(&x);
            let ok = from_slice::<One>(&d).is_ok();
            let mut s = &x[..]; let some = read(&mut s).is_some();
            assert!(ok == some, "unknown value {x:02x?}: accepted {ok}, complete {some}"); counted(1);
            if whole { let mut d = b"\x82\xa1?".to_vec(); d.extend_from_slice(&x); d.extend_from_slice(b"\xa4only\x07"); assert!(from_slice::<One>(&d).ok() == Some(One { only: 7 }), "unknown value {x:02x?} not skipped exactly"); counted(1); }
        } } }
    }
}
