use crate::sym::*;
use crate::Facet;
use facet_json::{from_slice, from_str, to_string, to_writer, peek_to_string};
use std::borrow::Cow;
use std::boxed::Box;
use std::collections::{BTreeMap, HashMap};
use std::string::{String, ToString};
use std::vec::Vec;
use std::vec;
use std::format;

/// An independent, strict reading of RFC 8259.
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
struct R<'a> { s: &'a [u8], p: usize, lenient: bool }
impl R<'_> {
    fn peek(&self) -> Option<u8> { self.s.get(self.p).copied() }
    fn ws(&mut self) { while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.p += 1 } }
    fn eat(&mut self, c: u8) -> Option<()> { if self.peek() == Some(c) { self.p += 1; Some(()) } else { None } }
    fn word(&mut self, w: &[u8]) -> Option<()> { if self.s[self.p..].starts_with(w) { self.p += w.len(); Some(()) } else { None } }
    fn digits(&mut self) -> usize { let a = self.p; while matches!(self.peek(), Some(b'0'..=b'9')) { self.p += 1 } self.p - a }
    fn num(&mut self) -> Option<J> {
        let a = self.p; let _ = self.eat(b'-');
        if self.eat(b'0').is_none() && self.digits() == 0 { return None }
        if self.eat(b'.').is_some() && self.digits() == 0 { return None }
        if matches!(self.peek(), Some(b'e' | b'E')) { self.p += 1; if matches!(self.peek(), Some(b'+' | b'-')) { self.p += 1 } if self.digits() == 0 { return None } }
        Some(J::Num(String::from_utf8(self.s[a..self.p].to_vec()).ok()?))
    }
    fn unit(&mut self) -> Option<u32> { let h = self.s.get(self.p..self.p + 4)?; self.p += 4; let mut n = 0; for d in h { n = n * 16 + (*d as char).to_digit(16)? } Some(n) }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?; let mut o: Vec<u8> = vec![];
        loop { let c = self.peek()?; self.p += 1; match c {
            b'"' => break,
            b'\\' => { let e = self.peek()?; self.p += 1; if self.lenient { o.push(e); continue } match e { b'"' | b'\\' | b'/' => o.push(e), b'b' => o.push(8), b'f' => o.push(12), b'n' => o.push(10), b'r' => o.push(13), b't' => o.push(9),
                b'u' => { let h = self.unit()?; let c = if (0xd800..0xdc00).contains(&h) { self.word(b"\\u")?; let l = self.unit()?; if !(0xdc00..0xe000).contains(&l) { return None } 0x10000 + (h - 0xd800) * 0x400 + (l - 0xdc00) } else { h }; let mut b = [0; 4]; o.extend(char::from_u32(c)?.encode_utf8(&mut b).bytes()) }
                _ => return None } }
            0..=0x1f if !self.lenient => return None,
            c => o.push(c) } }
        if self.lenient { Some(String::from_utf8_lossy(&o).into_owned()) } else { String::from_utf8(o).ok() }
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        match self.peek()? {
            b'n' => { self.word(b"null")?; Some(J::Null) } b't' => { self.word(b"true")?; Some(J::Bool(true)) } b'f' => { self.word(b"false")?; Some(J::Bool(false)) }
            b'"' => Some(J::Str(self.string()?)), b'-' | b'0'..=b'9' => self.num(),
            b'[' => { self.p += 1; let mut r = vec![]; self.ws(); if self.eat(b']').is_some() { return Some(J::Arr(r)) } loop { r.push(self.value()?); self.ws(); if self.eat(b']').is_some() { return Some(J::Arr(r)) } self.eat(b',')? } }
            b'{' => { self.p += 1; let mut r = vec![]; self.ws(); if self.eat(b'}').is_some() { return Some(J::Obj(r)) } loop { self.ws(); let k = self.string()?; self.ws(); self.eat(b':')?; r.push((k, self.value()?)); self.ws(); if self.eat(b'}').is_some() { return Some(J::Obj(r)) } self.eat(b',')? } }
            _ => None }
    }
}
/// the value at the start of s and where it ends; lenient: what is inside strings is not looked at
pub fn read_at(s: &[u8], p: usize, lenient: bool) -> Option<(J, usize)> { let mut r = R { s, p, lenient }; let v = r.value()?; Some((v, r.p)) }
pub fn read(s: &[u8]) -> Option<J> { let mut r = R { s, p: 0, lenient: false }; let v = r.value()?; r.ws(); if r.p == s.len() { Some(v) } else { None } }
/// same content; numbers by value
fn same(a: &J, b: &J) -> bool { match (a, b) {
    (J::Num(x), J::Num(y)) => x == y || (x.contains(['.', 'e', 'E', 'f']) || y.contains(['.', 'e', 'E'])) && x.parse::<f64>().ok() == y.parse::<f64>().ok() || (x.ends_with("f32") || y.ends_with("f32")) && x.trim_end_matches("f32").parse::<f32>().ok() == y.trim_end_matches("f32").parse::<f32>().ok(),
    (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
    (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().filter(|e| e.0 == *k).count() == 1 && y.iter().any(|(k2, v2)| k == k2 && same(v, v2))),
    _ => a == b } }

/// random spelling of a document
fn ws(o: &mut Vec<u8>) { for _ in 0..[0, 0, 0, 0, 1, 2][below(6)] { o.push([b' ', b'\t', b'\n', b'\r'][below(4)]) } }
fn unit(o: &mut Vec<u8>, n: u32) { o.extend(if any() { format!("\\u{n:04x}") } else { format!("\\u{n:04X}") }.bytes()) }
pub fn spell_str(o: &mut Vec<u8>, s: &str) {
    o.push(b'"');
    for c in s.chars() { let short = match c { '"' => Some(b'"'), '\\' => Some(b'\\'), '/' => Some(b'/'), '\u{8}' => Some(b'b'), '\u{c}' => Some(b'f'), '\n' => Some(b'n'), '\r' => Some(b'r'), '\t' => Some(b't'), _ => None };
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        match below(4) {
            0 | 1 if !must => { let mut b = [0; 4]; o.extend(c.encode_utf8(&mut b).bytes()) }
            2 if short.is_some() => { o.push(b'\\'); o.push(short.unwrap()) }
            3 | 0 | 1 => { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { unit(o, *u as u32) } }
            _ if !must => { let mut b = [0; 4]; o.extend(c.encode_utf8(&mut b).bytes()) }
            _ => { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { unit(o, *u as u32) } }
        } }
    o.push(b'"');
}
pub fn a_char() -> char { match below(4) { 0 => ['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\0', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{2028}', 'é', '\u{ffff}', '\u{10000}', '\u{10ffff}', '😀', 'u'][below(20)], 1 => any::<char>(), _ => (below(96) as u8 + 32) as char } }
pub fn a_str(n: usize) -> String { (0..below(n + 1)).map(|_| a_char()).collect() }
/// any value
pub fn junk(o: &mut Vec<u8>, d: u32) {
    ws(o);
    match below(if d > 3 { 5 } else { 8 }) {
        0 => o.extend([&b"null"[..], b"true", b"false"][below(3)].iter()),
        1 => { if any() { o.push(b'-') } o.extend(format!("{}", [0u64, 1, 10, 120, any::<u64>()][below(5)]).bytes()); if any() { o.extend(format!(".{}", below(1000)).bytes()) } if any() { o.push([b'e', b'E'][below(2)]); if any() { o.push([b'+', b'-'][below(2)]) } o.extend(format!("{}", below(40)).bytes()) } }
        2 | 3 => { let s = a_str(6); spell_str(o, &s) } 4 => o.push(b'7'),
        5 | 6 => { o.push(b'['); ws(o); let n = below(4); for i in 0..n { if i > 0 { o.push(b',') } junk(o, d + 1); ws(o) } o.push(b']') }
        _ => { o.push(b'{'); ws(o); let n = below(4); for i in 0..n { if i > 0 { o.push(b',') } ws(o); let s = a_str(3); spell_str(o, &s); ws(o); o.push(b':'); junk(o, d + 1); ws(o) } o.push(b'}') }
    }
}

/// a value that can be written: its content, and for reading: a random spelling
pub trait V: Facet + PartialEq + std::fmt::Debug + Sized + 'static { fn make(d: u32) -> Self; fn j(&self) -> J; fn spell(&self, o: &mut Vec<u8>) { let _ = o; unimplemented!() } }
macro_rules! ints { ($($t:ty),*) => { $( impl V for $t { fn make(_: u32) -> $t { match below(4) { 0 => <$t>::MAX, 1 => <$t>::MIN, 2 => below(12) as $t, _ => any() } } fn j(&self) -> J { J::Num(self.to_string()) }
    fn spell(&self, o: &mut Vec<u8>) { let n = *self as i128; let small = n.abs() < 1 << 53; match below(8) { 0 if small => o.extend(format!("{n}.0").bytes()), 1 if small => o.extend(format!("{n}e0").bytes()), 2 if small && n % 10 == 0 && n != 0 => o.extend(format!("{}E+1", n / 10).bytes()), 3 if n != 0 && n.abs() < 1 << 40 => o.extend(format!("{n}0e-1").bytes()), _ => o.extend(format!("{n}").bytes()) } } } )* } }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl V for bool { fn make(_: u32) -> bool { any() } fn j(&self) -> J { J::Bool(*self) } fn spell(&self, o: &mut Vec<u8>) { o.extend(self.to_string().bytes()) } }
impl V for String { fn make(_: u32) -> String { a_str(8) } fn j(&self) -> J { J::Str(self.clone()) } fn spell(&self, o: &mut Vec<u8>) { spell_str(o, self) } }
impl V for f64 { fn make(_: u32) -> f64 { loop { let x = match below(3) { 0 => [0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e300, 0.1, -1e15, 9007199254740993.0][below(10)], 1 => any::<i32>() as f64 / 8.0, _ => f64::from_bits(any()) }; if x.is_finite() { return x } } } fn j(&self) -> J { J::Num(format!("{self:e}")) }
    fn spell(&self, o: &mut Vec<u8>) { match below(3) { 0 => o.extend(format!("{self}").bytes()), 1 => o.extend(format!("{self:e}").bytes()), _ => o.extend(format!("{self:E}").bytes()) } } }
impl V for f32 { fn make(_: u32) -> f32 { loop { let x = f32::from_bits(any()); if x.is_finite() { return x } } } fn j(&self) -> J { J::Num(format!("{self:e}f32")) } }
impl V for &'static str { fn make(_: u32) -> &'static str { ["", "x", "a\"b", "\\", "\n\u{1}", "é\u{2028}"][below(6)] } fn j(&self) -> J { J::Str(self.to_string()) } }
impl V for Cow<'static, str> { fn make(d: u32) -> Self { if any() { Cow::Borrowed(<&str>::make(d)) } else { Cow::Owned(a_str(5)) } } fn j(&self) -> J { J::Str(self.to_string()) } }
macro_rules! nz { ($($t:ty),*) => { $( impl V for core::num::NonZero<$t> { fn make(d: u32) -> Self { core::num::NonZero::new(<$t>::make(d)).unwrap_or(core::num::NonZero::new(1).unwrap()) } fn j(&self) -> J { J::Num(self.get().to_string()) } fn spell(&self, o: &mut Vec<u8>) { self.get().spell(o) } } )* } }
nz!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl<T: V> V for Option<T> { fn make(d: u32) -> Self { if any() { Some(T::make(d + 1)) } else { None } } fn j(&self) -> J { match self { Some(x) => x.j(), None => J::Null } } fn spell(&self, o: &mut Vec<u8>) { match self { Some(x) => x.spell(o), None => o.extend(b"null") } } }
impl<T: V> V for Vec<T> { fn make(d: u32) -> Self { (0..below(if d > 2 { 2 } else { 4 })).map(|_| T::make(d + 1)).collect() } fn j(&self) -> J { J::Arr(self.iter().map(|x| x.j()).collect()) }
    fn spell(&self, o: &mut Vec<u8>) { o.push(b'['); ws(o); for (i, x) in self.iter().enumerate() { if i > 0 { o.push(b','); ws(o) } x.spell(o); ws(o) } o.push(b']') } }
trait Key: 'static { fn mk() -> Self; fn text(&self) -> String; }
impl Key for String { fn mk() -> String { a_str(4) } fn text(&self) -> String { self.clone() } }
impl Key for u32 { fn mk() -> u32 { any() } fn text(&self) -> String { self.to_string() } }
impl Key for i8 { fn mk() -> i8 { any() } fn text(&self) -> String { self.to_string() } }
impl Key for bool { fn mk() -> bool { any() } fn text(&self) -> String { self.to_string() } }
impl Key for &'static str { fn mk() -> Self { <&str>::make(0) } fn text(&self) -> String { self.to_string() } }
impl<K: Key + Facet + Eq + std::hash::Hash + std::fmt::Debug, T: V> V for HashMap<K, T> { fn make(d: u32) -> Self { (0..below(4)).map(|_| (K::mk(), T::make(d + 1))).collect() } fn j(&self) -> J { J::Obj(self.iter().map(|(k, v)| (k.text(), v.j())).collect()) } }
impl<K: Key + Facet + Ord + std::fmt::Debug, T: V> V for BTreeMap<K, T> { fn make(d: u32) -> Self { (0..below(4)).map(|_| (K::mk(), T::make(d + 1))).collect() } fn j(&self) -> J { J::Obj(self.iter().map(|(k, v)| (k.text(), v.j())).collect()) } }

/// a struct: members by the names they have in a document, which are required, which have a default
macro_rules! st { ($(#[$($m:tt)*])* $n:ident $deny:literal { $($(#[$($a:tt)*])* $f:ident : $t:ty = $name:literal $d:expr;)* }) => {
    #[derive(crate::Facet, PartialEq, Debug)] $(#[$($m)*])* pub struct $n { $($(#[$($a)*])* $f: $t),* }
    impl V for $n { fn make(d: u32) -> $n { $n { $($f: <$t>::make(d + 1)),* } } fn j(&self) -> J { J::Obj(vec![$(($name.to_string(), self.$f.j())),*]) }
        fn spell(&self, o: &mut Vec<u8>) { spell_obj(o, vec![$(($name, Box::new(|o: &mut Vec<u8>| self.$f.spell(o)) as Box<dyn Fn(&mut Vec<u8>)>)),*], if $deny { 0 } else { 2 }) } }
    impl Members for $n { const DENY: bool = $deny; fn count() -> usize { let n: &[&str] = &[$($name),*]; n.len() }
        fn partial(&mut self, o: &mut Vec<u8>, present: u64, unknown: usize) -> bool { let mut k = 0; let mut ok = true; let mut ms: Vec<(&'static str, Box<dyn Fn(&mut Vec<u8>) + '_>)> = vec![];
            $( if present >> k & 1 == 0 { let d: Option<$t> = $d; match d { Some(x) => self.$f = x, None => ok = false } } k += 1; )* let _ = k; let mut k = 0; let me = &*self;
            $( if present >> k & 1 == 1 { ms.push(($name, Box::new(|o: &mut Vec<u8>| me.$f.spell(o)))) } k += 1; )* let _ = k;
            spell_obj(o, ms, unknown); ok } }
} }
pub trait Members: V { const DENY: bool; fn count() -> usize; /// spells a document with the members in `present`; updates self to what reading it must give; false if it must be refused
    fn partial(&mut self, o: &mut Vec<u8>, present: u64, unknown: usize) -> bool; }
fn spell_obj(o: &mut Vec<u8>, mut ms: Vec<(&'static str, Box<dyn Fn(&mut Vec<u8>) + '_>)>, unknown: usize) {
    let mut us: Vec<&str> = vec![]; for i in 0..unknown { us.push(["other", "", "a\"", "ñ\\", "{}", "Name", "nul\0l", "x:1,"][(below(4) * 2 + i % 2) % 8]) }
    o.push(b'{'); ws(o); let mut first = true;
    while !ms.is_empty() || !us.is_empty() {
        if !first { o.push(b','); ws(o) } first = false;
        let i = below(ms.len() + us.len());
        if i < ms.len() { let (n, f) = ms.remove(i); spell_str(o, n); ws(o); o.push(b':'); ws(o); f(o) } else { let n = us.remove(i - ms.len()); spell_str(o, n); ws(o); o.push(b':'); junk(o, 1) }
        ws(o);
    }
    o.push(b'}');
}
st! { Inner false { x: u8 = "x" None; s: String = "s" None; } }
st! { Renamed false { #[facet(rename = "new name")] a: u32 = "new name" None; #[facet(rename = "q\"\\\n")] b: String = "q\"\\\n" None; c: bool = "c" None; #[facet(rename = "é")] d: i64 = "é" None; } }
st! { Outer false { i: Inner = "i" None; n: u64 = "n" None; o: Option<Inner> = "o" None; v: Vec<Inner> = "v" None; w: Vec<Vec<u8>> = "w" None; p: Option<String> = "p" None; q: Vec<Option<i32>> = "q" None; } }
st! { Defaults false { #[facet(default)] a: u32 = "a" Some(0); #[facet(default = "seven")] b: u8 = "b" Some(7); c: String = "c" None; #[facet(default)] v: Vec<u8> = "v" Some(vec![]); #[facet(default)] o: Option<bool> = "o" Some(None); } }
fn seven() -> u8 { 7 }
st! { #[facet(deny_unknown_fields)] Denies true { a: u8 = "a" None; #[facet(rename = "b")] c: Option<u8> = "b" None; } }
st! { #[facet(default)] Whole false { a: u32 = "a" Some(5); s: String = "s" Some("dflt".to_string()); i: Vec<u8> = "i" Some(vec![1]); } }
impl Default for Whole { fn default() -> Whole { Whole { a: 5, s: "dflt".to_string(), i: vec![1] } } }
st! { Deep false { a: Vec<Vec<Vec<u16>>> = "a" None; b: Option<Vec<Option<Renamed>>> = "b" None; d: Vec<Defaults> = "d" None; e: Empty = "e" None; z: core::num::NonZero<i16> = "z" None; } }
st! { Empty false { } }
st! { Nums false { a: i8 = "a" None; b: u16 = "b" None; c: i32 = "c" None; d: i64 = "d" None; e: u64 = "e" None; f: f64 = "f" None; g: usize = "g" None; h: isize = "h" None; } }
#[derive(crate::Facet, PartialEq, Debug)] #[repr(u8)] pub enum E { U, One(u8), Two(u8, String), S { a: String, b: Option<u8> }, L(Vec<E0>) , OneS { only: u8 } }
#[derive(crate::Facet, PartialEq, Debug)] #[repr(C)] pub enum E0 { A, B(Inner) }
fn s(x: &str) -> String { x.to_string() }
impl V for E0 { fn make(d: u32) -> E0 { if any() { E0::A } else { E0::B(Inner::make(d + 1)) } } fn j(&self) -> J { match self { E0::A => J::Str(s("A")), E0::B(i) => J::Obj(vec![(s("B"), i.j())]) } } }
impl V for E { fn make(d: u32) -> E { match below(6) { 0 => E::U, 1 => E::One(any()), 2 => E::Two(any(), a_str(4)), 3 => E::S { a: a_str(4), b: V::make(d) }, 4 => E::L(V::make(d + 1)), _ => E::OneS { only: any() } } }
    fn j(&self) -> J { match self { E::U => J::Str(s("U")), E::One(x) => J::Obj(vec![(s("One"), x.j())]), E::Two(x, y) => J::Obj(vec![(s("Two"), J::Arr(vec![x.j(), y.j()]))]), E::S { a, b } => J::Obj(vec![(s("S"), J::Obj(vec![(s("a"), a.j()), (s("b"), b.j())]))]), E::L(v) => J::Obj(vec![(s("L"), v.j())]), E::OneS { only } => J::Obj(vec![(s("OneS"), only.j())]) } } }
/// the members of a tuple variant may come as an array or by their names _0, _1, ...; those of a one-member struct variant with or without its name
fn norm(j: J) -> J { match j { J::Obj(m) => { let m: Vec<(String, J)> = m.into_iter().map(|(k, v)| (k, norm(v))).collect(); if !m.is_empty() && m.iter().enumerate().all(|(i, e)| e.0 == format!("_{i}")) { J::Arr(m.into_iter().map(|e| e.1).collect()) } else { J::Obj(m) } } J::Arr(a) => J::Arr(a.into_iter().map(norm).collect()), x => x } }
#[derive(crate::Facet, PartialEq, Debug)] pub struct Writes { a: E, b: HashMap<String, E>, c: BTreeMap<u32, Vec<E>>, d: BTreeMap<bool, u8>, e: HashMap<&'static str, Option<u8>>, f: f64, g: f32, h: &'static str, i: Cow<'static, str>, j: Outer, k: Option<Option<u8>>, l: BTreeMap<i8, BTreeMap<String, u8>>, m: core::num::NonZero<u64>, n: Renamed }
impl V for Writes { fn make(d: u32) -> Self { let d = d + 1; Writes { a: V::make(d), b: V::make(d), c: V::make(d), d: V::make(d), e: V::make(d), f: V::make(d), g: V::make(d), h: V::make(d), i: V::make(d), j: V::make(d), k: V::make(d), l: V::make(d), m: V::make(d), n: V::make(d) } }
    fn j(&self) -> J { J::Obj(vec![(s("a"), self.a.j()), (s("b"), self.b.j()), (s("c"), self.c.j()), (s("d"), self.d.j()), (s("e"), self.e.j()), (s("f"), self.f.j()), (s("g"), self.g.j()), (s("h"), self.h.j()), (s("i"), self.i.j()), (s("j"), self.j.j()), (s("k"), self.k.j()), (s("l"), self.l.j()), (s("m"), self.m.j()), (s("n"), self.n.j())]) } }
/// every number of the document equals the one expected, floats of type f32 by their own value
fn writes<T: V>() {
    let v = T::make(0); let t = to_string(&v);
    let got = read(t.as_bytes()); let Some(got) = got else { panic!("not a JSON document: {t:?}") };
    assert!(same(&norm(got.clone()), &norm(v.j())), "{v:?} was written as {t}");
    let mut o: Vec<u8> = vec![]; assert!(to_writer(&v, &mut o).is_ok());
    assert!(same(&norm(read(&o).expect("a document")), &norm(v.j())));
    assert!(same(&norm(read(peek_to_string(&facet_reflect::Peek::new(&v)).as_bytes()).expect("a document")), &norm(v.j())));
}
/// every spelling of v is read as v
fn reads<T: V>() {
    let v = T::make(0); let mut o = vec![]; ws(&mut o); v.spell(&mut o); ws(&mut o);
    assert!(read(&o).is_some(), "oracle");
    match from_slice::<T>(&o) { Ok(x) => assert!(x == v, "{} was read as {x:?}", String::from_utf8_lossy(&o)), Err(e) => panic!("{} was refused: {}", String::from_utf8_lossy(&o), e.message()) }
}
/// documents with some members missing and some unknown ones
fn members<T: Members>() {
    let mut v = T::make(0); let mut o = vec![]; let all = (1u64 << T::count()) - 1;
    let present = match below(3) { 0 => all, 1 => all & !(1 << below(T::count().max(1))), _ => any::<u64>() & all };
    let unknown = if T::DENY { below(2) } else { below(3) };
    ws(&mut o); let ok = v.partial(&mut o, present, unknown); ws(&mut o);
    let ok = ok && !(T::DENY && unknown > 0);
    match from_str::<T>(core::str::from_utf8(&o).unwrap()) { Ok(x) => { assert!(ok, "{} was accepted", String::from_utf8_lossy(&o)); assert!(x == v, "{} was read as {x:?}", String::from_utf8_lossy(&o)) }
        Err(e) => { assert!(!ok, "{} was refused: {}", String::from_utf8_lossy(&o), e.message()); let _ = e.message(); } }
}
#[derive(crate::Facet, PartialEq, Debug)] pub struct Z { z: u8 }
/// a document `{"k": BYTES, "z": N}`: accepted exactly if BYTES can be skipped by the grammar
fn skips(bytes: &[u8]) {
    let n: u8 = any(); let mut o = b"{\"k\":".to_vec(); o.extend(bytes); o.extend(format!(",\"z\":{n}}}").bytes());
    let want = match read_at(&o, 5, true) { Some((_, e)) => {
        // further members may have come out of the bytes: read on, unknown ones only
        let mut r = R { s: &o, p: e, lenient: true }; let mut w = None;
        loop { r.ws(); if r.eat(b',').is_none() { break } r.ws(); let a = r.p; let Some(k) = r.string() else { break }; if core::str::from_utf8(&o[a..r.p]).is_err() { return } r.ws(); if r.eat(b':').is_none() { break }
            if k == "z" { r.ws(); let at = r.p; if r.num().is_some() && r.s[at..r.p] == *format!("{n}").as_bytes() && r.p == o.len() - 1 { w = Some(n) } break } if o[a + 1..r.p].contains(&b'\\') { return } if r.value().is_none() { break } }
        w } None => None };
    match (from_slice::<Z>(&o), want) { (Ok(x), Some(n)) => assert!(x.z == n, "{}", String::from_utf8_lossy(&o)), (Err(e), None) => { let _ = e.message(); if below(16) == 0 { let _ = format!("{e}"); } }
        (Ok(_), None) => panic!("accepted: {}", String::from_utf8_lossy(&o)), (Err(e), Some(_)) => panic!("refused: {} {}", String::from_utf8_lossy(&o), e.message()) }
}
crate::native! {
    fn j01_string() { let v = a_str(12); let t = to_string(&v); assert!(read(t.as_bytes()) == Some(J::Str(v.clone())), "{v:?} was written as {t}"); assert!(from_str::<One>(&to_string(&One { s: v.clone() })).map(|o| o.s == v).unwrap_or(false), "{v:?} is not read back") }
    /// every character, between others
    fn b_j01_chars() { for c in (0..=0x10ffffu32).filter_map(char::from_u32) { if c as u32 > 0x3000 && c as u32 % 17 != 0 && !(0xd7f0..0xe010).contains(&(c as u32)) && (c as u32 & 0xffff) < 0xfff0 { continue } let v = format!("a{c}{c}b"); let t = to_string(&v); assert!(read(t.as_bytes()) == Some(J::Str(v)), "{c:?} was written as {t}"); counted(1) } }
    fn j02_value() { let mut o = vec![]; junk(&mut o, 0); ws(&mut o); assert!(read(&o).is_some(), "oracle"); skips(&o) }
    fn j02_bytes() { let a = b"{}[]\":,\\ \n-0123.eEtfnulas\"[{"; let n = below(14); let mut o: Vec<u8> = (0..n).map(|_| a[below(a.len())]).collect(); if below(8) == 0 && n > 0 { let i = below(n); o[i] = any() } skips(&o) }
    /// a value with one byte changed, removed, doubled or the end cut off
    fn j02_mutated() { let mut o = vec![]; junk(&mut o, 0); if o.is_empty() { return } let i = below(o.len()); match below(4) { 0 => { o[i] = b"{}[]\":,\\ -01.eEtn"[below(17)] } 1 => { o.remove(i); } 2 => { let c = o[i]; o.insert(i, c) } _ => o.truncate(i) } skips(&o) }
    /// an input that ends early is refused
    fn j02_cut() { let mut o = b"{\"k\":".to_vec(); junk(&mut o, 0); o.extend(b",\"z\":1}"); let n = below(o.len()); assert!(from_slice::<Z>(&o[..n]).is_err(), "{:?} was accepted", String::from_utf8_lossy(&o[..n])) }
    fn j03_writes() { writes::<Writes>() }
    fn j03_outer() { writes::<Outer>() }
    fn j03_deep() { writes::<Deep>() }
    fn j03_enum() { match below(4) { 0 => writes::<E>(), 1 => writes::<Vec<E>>(), 2 => writes::<Option<E>>(), _ => writes::<HashMap<String, Vec<E>>>() } }
    fn j03_scalars() { match below(16) { 0 => writes::<u8>(), 1 => writes::<u16>(), 2 => writes::<u32>(), 3 => writes::<u64>(), 4 => writes::<i8>(), 5 => writes::<i16>(), 6 => writes::<i32>(), 7 => writes::<i64>(), 8 => writes::<usize>(), 9 => writes::<isize>(), 10 => writes::<bool>(), 11 => writes::<f64>(), 12 => writes::<Nums>(), 13 => writes::<core::num::NonZero<i8>>(), 14 => writes::<core::num::NonZero<u16>>(), _ => writes::<Cow<'static, str>>() } }
    /// no notation for them: whatever is written is still a document
    fn j03_nonfinite() { let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][below(3)]; assert!(read(to_string(&x).as_bytes()).is_some()); assert!(read(to_string(&vec![x as f32, 1.0]).as_bytes()).is_some()) }
    fn j04_inner() { match below(3) { 0 => members::<Inner>(), 1 => reads::<Vec<Inner>>(), _ => members::<Empty>() } }
    fn j04_renamed() { members::<Renamed>() }
    fn j04_outer() { members::<Outer>() }
    fn j04_defaults() { members::<Defaults>() }
    fn j04_denies() { members::<Denies>() }
    fn j04_whole() { members::<Whole>() }
    fn j04_deep() { members::<Deep>() }
    fn j04_nums() { members::<Nums>() }
    fn j04_top() { match below(6) { 0 => reads::<Vec<Vec<u8>>>(), 1 => reads::<u32>(), 2 => reads::<String>(), 3 => reads::<Vec<Option<String>>>(), 4 => reads::<bool>(), _ => reads::<Vec<Outer>>() } }
    fn j04_top_option() { match below(3) { 0 => reads::<Option<u8>>(), 1 => reads::<Option<Inner>>(), _ => reads::<Option<Vec<u8>>>() } }
}
#[derive(crate::Facet)] pub struct One { s: String }
