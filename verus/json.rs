//@ source facet-json/src/deserialize/error.rs enum JsonErrorKind
//@ prelude
global size_of usize == 8;

// ---- the grammar of RFC 8259 over bytes, where a value ends; what is inside strings is not looked at, except where they end
pub open spec fn is_ws(c: u8) -> bool { c == 0x20 || c == 0x09 || c == 0x0a || c == 0x0d }
pub open spec fn digit(c: u8) -> bool { 0x30 <= c <= 0x39 }
/// the byte at o, -1 past the end
pub open spec fn at(s: Seq<u8>, o: int) -> int { if 0 <= o < s.len() { s[o] as int } else { -1 } }
pub open spec fn ws_end(s: Seq<u8>, o: int) -> int decreases s.len() - o { if 0 <= o < s.len() && is_ws(s[o]) { ws_end(s, o + 1) } else { o } }
pub open spec fn digits_end(s: Seq<u8>, o: int) -> int decreases s.len() - o { if 0 <= o < s.len() && digit(s[o]) { digits_end(s, o + 1) } else { o } }
/// o: after the opening quote
pub open spec fn str_end(s: Seq<u8>, o: int) -> Option<int> decreases s.len() - o {
    if o < 0 || o >= s.len() { None } else if s[o] == 0x22 { Some(o + 1) } else if s[o] == 0x5c { if o + 1 >= s.len() { None } else { str_end(s, o + 2) } } else { str_end(s, o + 1) } }
/// the parts of a number: int, frac, exp
pub open spec fn int_end(s: Seq<u8>, o: int) -> Option<int> {
    let p = if at(s, o) == 0x2d { o + 1 } else { o };
    if at(s, p) == 0x30 { Some(p + 1) } else if digits_end(s, p) > p { Some(digits_end(s, p)) } else { None } }
pub open spec fn frac_end(s: Seq<u8>, o: int) -> Option<int> {
    if at(s, o) == 0x2e { if digits_end(s, o + 1) > o + 1 { Some(digits_end(s, o + 1)) } else { None } } else { Some(o) } }
pub open spec fn exp_end(s: Seq<u8>, o: int) -> Option<int> {
    if at(s, o) == 0x65 || at(s, o) == 0x45 { let p = if at(s, o + 1) == 0x2b || at(s, o + 1) == 0x2d { o + 2 } else { o + 1 }; if digits_end(s, p) > p { Some(digits_end(s, p)) } else { None } } else { Some(o) } }
pub open spec fn num_end(s: Seq<u8>, o: int) -> Option<int> {
    match int_end(s, o) { Some(p) => match frac_end(s, p) { Some(q) => exp_end(s, q), None => None }, None => None } }
pub open spec fn has(s: Seq<u8>, o: int, w: Seq<u8>) -> bool { 0 <= o && o + w.len() <= s.len() && s.subrange(o, o + w.len()) =~= w }
pub open spec fn w_true() -> Seq<u8> { seq![0x74u8, 0x72, 0x75, 0x65] }
pub open spec fn w_false() -> Seq<u8> { seq![0x66u8, 0x61, 0x6c, 0x73, 0x65] }
pub open spec fn w_null() -> Seq<u8> { seq![0x6eu8, 0x75, 0x6c, 0x6c] }
/// end of the value that starts at o, white space before it included
pub open spec fn value_end(s: Seq<u8>, o: int) -> Option<int> decreases s.len() - o, 1nat {
    let p = ws_end(s, o);
    if o < 0 || p < o || p >= s.len() { None }
    else if s[p] == 0x7b { let q = ws_end(s, p + 1); if at(s, q) == 0x7d { Some(q + 1) } else if p < q <= s.len() { members_end(s, q) } else { None } }
    else if s[p] == 0x5b { let q = ws_end(s, p + 1); if at(s, q) == 0x5d { Some(q + 1) } else if p < q <= s.len() { items_end(s, q) } else { None } }
    else if s[p] == 0x22 { str_end(s, p + 1) }
    else if s[p] == 0x74 { if has(s, p, w_true()) { Some(p + 4) } else { None } }
    else if s[p] == 0x66 { if has(s, p, w_false()) { Some(p + 5) } else { None } }
    else if s[p] == 0x6e { if has(s, p, w_null()) { Some(p + 4) } else { None } }
    else if s[p] == 0x2d || digit(s[p]) { num_end(s, p) }
    else { None }
}
/// end of an array whose next item starts at o
pub open spec fn items_end(s: Seq<u8>, o: int) -> Option<int> decreases s.len() - o, 2nat {
    match value_end(s, o) { Some(e) => { let p = ws_end(s, e);
        if o < 0 || e <= o || p < e { None } else if at(s, p) == 0x5d { Some(p + 1) } else if at(s, p) == 0x2c { items_end(s, p + 1) } else { None } } None => None } }
/// end of an object whose next member starts at o
pub open spec fn members_end(s: Seq<u8>, o: int) -> Option<int> decreases s.len() - o, 2nat {
    if at(s, o) != 0x22 { None } else { match str_end(s, o + 1) { Some(k) => { let c = ws_end(s, k);
        if k <= o || c < k || at(s, c) != 0x3a { None } else { match value_end(s, c + 1) { Some(e) => { let p = ws_end(s, e);
            if e <= c || p < e { None } else if at(s, p) == 0x7d { Some(p + 1) } else if at(s, p) == 0x2c && p < ws_end(s, p + 1) <= s.len() { members_end(s, ws_end(s, p + 1)) } else { None } } None => None } } } None => None } } }
pub proof fn lemma_ws(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures o <= ws_end(s, o) <= s.len(), ws_end(s, ws_end(s, o)) == ws_end(s, o), ws_end(s, o) < s.len() ==> !is_ws(s[ws_end(s, o)]), value_end(s, ws_end(s, o)) == value_end(s, o)
    decreases s.len() - o
{ if o < s.len() && is_ws(s[o]) { lemma_ws(s, o + 1); } }
pub proof fn lemma_digits(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures o <= digits_end(s, o) <= s.len()
    decreases s.len() - o
{ if o < s.len() && digit(s[o]) { lemma_digits(s, o + 1); } }
pub proof fn lemma_str(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures str_end(s, o) matches Some(e) ==> o < e <= s.len()
    decreases s.len() - o
{ if o + 1 < s.len() && s[o] == 0x5c { lemma_str(s, o + 2); } else if o < s.len() { lemma_str(s, o + 1); } }
pub proof fn lemma_num(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures num_end(s, o) matches Some(e) ==> o < e <= s.len()
{
    let p = if at(s, o) == 0x2d { o + 1 } else { o };
    lemma_digits(s, p);
    match int_end(s, o) { Some(p) => { if at(s, p) == 0x2e { lemma_digits(s, p + 1); }
        match frac_end(s, p) { Some(q) => { if at(s, q) == 0x65 || at(s, q) == 0x45 { lemma_digits(s, q + 1); if at(s, q + 1) >= 0 { lemma_digits(s, q + 2); } } } None => {} } } None => {} }
}
/// a value ends within the input, after its start
pub proof fn lemma_value(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures value_end(s, o) matches Some(e) ==> o < e <= s.len()
    decreases s.len() - o, 1nat
{
    lemma_ws(s, o);
    let p = ws_end(s, o);
    if p < s.len() {
        lemma_ws(s, p + 1); lemma_str(s, p + 1); lemma_num(s, p);
        let q = ws_end(s, p + 1);
        lemma_items(s, q); lemma_members(s, q);
    }
}
pub proof fn lemma_items(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures items_end(s, o) matches Some(e) ==> o < e <= s.len()
    decreases s.len() - o, 2nat
{ lemma_value(s, o); match value_end(s, o) { Some(e) => { lemma_ws(s, e); let p = ws_end(s, e); if p < s.len() { lemma_items(s, p + 1); } } None => {} } }
pub proof fn lemma_members(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures members_end(s, o) matches Some(e) ==> o < e <= s.len()
    decreases s.len() - o, 2nat
{
    if o < s.len() { lemma_str(s, o + 1);
        match str_end(s, o + 1) { Some(k) => { lemma_ws(s, k); let c = ws_end(s, k); if c < s.len() { lemma_value(s, c + 1);
            match value_end(s, c + 1) { Some(e) => { lemma_ws(s, e); let p = ws_end(s, e); if p < s.len() { lemma_ws(s, p + 1); lemma_members(s, ws_end(s, p + 1)); } } None => {} } } } None => {} } }
}
pub proof fn lemma_items_ws(s: Seq<u8>, o: int)
    requires 0 <= o <= s.len()
    ensures items_end(s, ws_end(s, o)) == items_end(s, o)
{ lemma_ws(s, o); lemma_value(s, o); lemma_value(s, ws_end(s, o)); }
/// `&bytes[a..b] == b"true"`: panics unless the range is within the slice
#[verifier::external_body]
fn is_true(s: &[u8], a: usize, b: usize) -> (r: bool) requires a <= b <= s.len() ensures r == (s@.subrange(a as int, b as int) =~= w_true()) { unimplemented!() }
#[verifier::external_body]
fn is_false(s: &[u8], a: usize, b: usize) -> (r: bool) requires a <= b <= s.len() ensures r == (s@.subrange(a as int, b as int) =~= w_false()) { unimplemented!() }
#[verifier::external_body]
fn is_null(s: &[u8], a: usize, b: usize) -> (r: bool) requires a <= b <= s.len() ensures r == (s@.subrange(a as int, b as int) =~= w_null()) { unimplemented!() }
/// `(c as char).is_ascii_digit()`
#[verifier::external_body]
fn is_digit(c: u8) -> (r: bool) ensures r == digit(c) { unimplemented!() }
/// `c as char`
#[verifier::external_body]
fn char_of(c: u8) -> (r: char) ensures r as u32 == c { unimplemented!() }
/// a slice never covers more than isize::MAX bytes
#[verifier::external_body]
proof fn axiom_len(s: &[u8]) ensures s.len() <= isize::MAX { }


// ---- strings: an independent reading of RFC 8259, after the opening quote: the code points and what follows the closing quote
pub open spec fn cp(c: char) -> int { (c as u32) as int }
pub open spec fn cps(t: Seq<char>) -> Seq<int> { Seq::new(t.len(), |i: int| cp(t[i])) }
pub open spec fn hexd(c: char) -> Option<int> { if '0' <= c <= '9' { Some(cp(c) - 0x30) } else if 'a' <= c <= 'f' { Some(cp(c) - 0x57) } else if 'A' <= c <= 'F' { Some(cp(c) - 0x37) } else { None } }
pub open spec fn unit(t: Seq<char>, i: int) -> Option<int> {
    if i + 4 > t.len() { None } else { match (hexd(t[i]), hexd(t[i + 1]), hexd(t[i + 2]), hexd(t[i + 3])) { (Some(a), Some(b), Some(c), Some(d)) => Some(((a * 16 + b) * 16 + c) * 16 + d), _ => None } } }
pub open spec fn simple(c: char) -> Option<int> {
    if c == '"' { Some(0x22) } else if c == '\\' { Some(0x5c) } else if c == '/' { Some(0x2f) } else if c == 'b' { Some(8) } else if c == 'f' { Some(12) } else if c == 'n' { Some(10) } else if c == 'r' { Some(13) } else if c == 't' { Some(9) } else { None } }
pub open spec fn pre(a: Seq<int>, r: Option<(Seq<int>, Seq<char>)>) -> Option<(Seq<int>, Seq<char>)> { match r { Some((x, rest)) => Some((a + x, rest)), None => None } }
/// the first character of a string's content, and how long its notation is
pub open spec fn first(t: Seq<char>) -> Option<(int, int)> {
    if t.len() == 0 { None }
    else if t[0] == '\\' { if t.len() < 2 { None } else if t[1] == 'u' { match unit(t, 2) { Some(n) => if n < 0xd800 || n >= 0xe000 { Some((n, 6)) } else if n < 0xdc00 && t.len() >= 12 && t[6] == '\\' && t[7] == 'u' { match unit(t, 8) { Some(l) => if 0xdc00 <= l < 0xe000 { Some((0x10000 + (n - 0xd800) * 0x400 + (l - 0xdc00), 12)) } else { None }, None => None } } else { None }, None => None } }
        else { match simple(t[1]) { Some(n) => Some((n, 2)), None => None } } }
    else if cp(t[0]) < 0x20 { None } else { Some((cp(t[0]), 1)) } }
pub open spec fn dec(t: Seq<char>) -> Option<(Seq<int>, Seq<char>)> decreases t.len() {
    if t.len() > 0 && t[0] == '"' { Some((Seq::empty(), t.skip(1))) }
    else { match first(t) { Some((n, k)) => if 0 < k <= t.len() { pre(seq![n], dec(t.skip(k))) } else { None }, None => None } } }
/// whatever follows, e is read as these characters
pub open spec fn encodes(e: Seq<char>, c: Seq<int>) -> bool { forall|tail: Seq<char>| #[trigger] dec(e + tail) == pre(c, dec(tail)) }
/// one character, in one of the notations
pub open spec fn esc_form(e: Seq<char>, c: int) -> bool { e.len() > 0 && e[0] != '"' && first(e) == Some((c, e.len() as int)) }
pub proof fn lemma_esc(e: Seq<char>, c: int)
    requires esc_form(e, c)
    ensures encodes(e, seq![c])
{
    assert forall|tail: Seq<char>| #[trigger] dec(e + tail) == pre(seq![c], dec(tail)) by {
        let t = e + tail;
        assert(forall|i: int| 0 <= i < e.len() ==> t[i] == e[i]);
        assert(first(t) == first(e));
        assert(t.skip(e.len() as int) =~= tail);
    }
}
pub proof fn lemma_empty() ensures encodes(Seq::empty(), Seq::empty())
{ assert forall|tail: Seq<char>| #[trigger] dec(Seq::<char>::empty() + tail) == pre(Seq::empty(), dec(tail)) by { assert(Seq::<char>::empty() + tail =~= tail); match dec(tail) { Some((x, r)) => { assert(Seq::<int>::empty() + x =~= x); } None => {} } } }
pub proof fn lemma_cat(a: Seq<char>, ca: Seq<int>, b: Seq<char>, cb: Seq<int>)
    requires encodes(a, ca), encodes(b, cb)
    ensures encodes(a + b, ca + cb)
{
    assert forall|tail: Seq<char>| #[trigger] dec((a + b) + tail) == pre(ca + cb, dec(tail)) by {
        assert((a + b) + tail =~= a + (b + tail));
        assert(dec(b + tail) == pre(cb, dec(tail)));
        assert(dec(a + (b + tail)) == pre(ca, dec(b + tail)));
        match dec(tail) { Some((x, r)) => { assert(ca + (cb + x) =~= (ca + cb) + x); } None => {} }
    }
}
/// t is a JSON string with this content: a reader finds exactly that, and the end of t as its end
pub open spec fn str_text(t: Seq<char>, s: Seq<char>) -> bool { t.len() > 0 && t[0] == '"' && forall|tail: Seq<char>| #[trigger] dec(t.skip(1) + tail) == Some((cps(s), tail)) }
pub proof fn lemma_str_text(body: Seq<char>, s: Seq<char>)
    requires encodes(body, cps(s))
    ensures str_text(seq!['"'] + body + seq!['"'], s)
{
    let t = seq!['"'] + body + seq!['"'];
    assert forall|tail: Seq<char>| #[trigger] dec(t.skip(1) + tail) == Some((cps(s), tail)) by {
        assert(t.skip(1) + tail =~= body + (seq!['"'] + tail));
        assert(dec(body + (seq!['"'] + tail)) == pre(cps(s), dec(seq!['"'] + tail)));
        assert((seq!['"'] + tail).skip(1) =~= tail);
        assert(cps(s) + Seq::<int>::empty() =~= cps(s));
    }
}
pub mod io { #[derive(Debug)] pub struct Error { x: u8 } pub type Result<T> = core::result::Result<T, Error>; }
/// what was written, as text; whether writing to it cannot fail
pub trait Write { spec fn out(&self) -> Seq<char>; spec fn reliable() -> bool; }
/// `write!(writer, "literal")`
#[verifier::external_body]
fn emit<W: Write>(w: &mut W, s: &str) -> (r: io::Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + s@, W::reliable() ==> r is Ok { unimplemented!() }
/// lower-case hexadecimal digit
pub open spec fn hex(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else if d == 9 { '9' }
    else if d == 10 { 'a' } else if d == 11 { 'b' } else if d == 12 { 'c' } else if d == 13 { 'd' } else if d == 14 { 'e' } else { 'f' } }
pub open spec fn unit_text(n: int) -> Seq<char> { seq!['\\', 'u', hex(n / 4096), hex(n / 256 % 16), hex(n / 16 % 16), hex(n % 16)] }
pub proof fn lemma_unit(n: int)
    requires 0 <= n < 0xd800
    ensures esc_form(unit_text(n), n)
{
    let e = unit_text(n);
    let (a, b, c, d) = (n / 4096, n / 256 % 16, n / 16 % 16, n % 16);
    assert(hexd(hex(a)) == Some(a) && hexd(hex(b)) == Some(b) && hexd(hex(c)) == Some(c) && hexd(hex(d)) == Some(d));
    assert(((a * 16 + b) * 16 + c) * 16 + d == n) by { assert(n / 16 / 16 == n / 256); assert(n / 256 / 16 == n / 4096); }
}
/// `write!(writer, "\\u{:04x}", n)`: longer than four digits from 0x10000 on
#[verifier::external_body]
fn emit_unit<W: Write>(w: &mut W, n: u32) -> (r: io::Result<()>)
    ensures W::reliable() ==> r is Ok, r is Ok && n < 0x10000 ==> final(w).out() == old(w).out() + unit_text(n as int) { unimplemented!() }
/// std: the characters of the general category Cc
#[verifier::external_body]
fn is_control(c: char) -> (r: bool) ensures r == (cp(c) < 0x20 || 0x7f <= cp(c) < 0xa0) { unimplemented!() }
/// `write!(writer, "{}", x)`
pub trait Shown: Sized { spec fn shows(self, t: Seq<char>) -> bool; }
#[verifier::external_body]
fn emit_shown<W: Write, T: Shown>(w: &mut W, x: &T) -> (r: io::Result<()>) ensures W::reliable() ==> r is Ok, r is Ok ==> exists|t: Seq<char>| #[trigger] x.shows(t) && final(w).out() == old(w).out() + t { unimplemented!() }
impl Shown for char { open spec fn shows(self, t: Seq<char>) -> bool { t == seq![self] } }



pub trait Facet: Sized { spec fn tid() -> int; spec fn val(self) -> Val; }
pub trait Fl { spec fn id(self) -> int; }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct NonZero<T> { x: T }
impl<T> NonZero<T> { pub uninterp spec fn get(&self) -> T; }
/// `alloc::borrow::Cow<'_, str>`
#[verifier::external_body] pub struct CowStr { x: u8 }
// ---- values: the real `Peek` is opaque here; the contracts say which content it shows and what reading it gives
pub enum Val { Int(int), Bool(bool), Str(Seq<char>), Float(int) }
/// a value as the document is about: members by the names they have in it; entries of a map in the order of its iteration, by the text of the key, and whether the keys are scalars
pub enum V { Leaf(Val), Struct(Seq<(Seq<char>, V)>), List(Seq<V>), Map(Seq<(Seq<char>, V)>, bool), Enum(Seq<char>, Seq<(Seq<char>, V)>), Null, Some(Box<V>), Other }
/// a number of JSON without fraction and exponent, and its value
pub open spec fn nat_value(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { nat_value(t.drop_last()) * 10 + (cp(t.last()) - 0x30) } }
pub open spec fn nat_text(t: Seq<char>) -> bool { t.len() > 0 && (forall|i: int| 0 <= i < t.len() ==> '0' <= #[trigger] t[i] <= '9') && (t[0] == '0' ==> t.len() == 1) }
pub open spec fn int_text(t: Seq<char>, n: int) -> bool { if n < 0 { t.len() > 0 && t[0] == '-' && nat_text(t.skip(1)) && nat_value(t.skip(1)) == -n } else { nat_text(t) && nat_value(t) == n } }
pub uninterp spec fn finite(x: int) -> bool;
/// a number of JSON whose nearest float is x
pub uninterp spec fn float_text(t: Seq<char>, x: int) -> bool;
/// t is a JSON text of v (RFC 8259, without white space), by the documented mapping of values
pub open spec fn text_ok(t: Seq<char>, v: V) -> bool decreases v, size(v) + 2 { match v {
    V::Leaf(Val::Int(n)) => int_text(t, n),
    V::Leaf(Val::Bool(b)) => t == (if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] }),
    V::Leaf(Val::Str(s)) => str_text(t, s),
    V::Leaf(Val::Float(x)) => if finite(x) { float_text(t, x) } else { t == null() },
    V::Null => t == null(),
    V::Some(b) => text_ok(t, *b),
    V::Struct(ms) => exists|b: Seq<char>| #[trigger] framed(t, '{', b, '}') && members_text(b, v, ms.len()),
    V::Map(ms, _) => exists|b: Seq<char>| #[trigger] framed(t, '{', b, '}') && members_text(b, v, ms.len()),
    V::List(vs) => exists|b: Seq<char>| #[trigger] framed(t, '[', b, ']') && items_text(b, v, vs.len()),
    // a unit variant is its name; one field: its value by the name; more: an object of the members, or an array of their values, by the name
    V::Enum(name, ms) => if ms.len() == 0 { str_text(t, name) } else { exists|n: Seq<char>, b: Seq<char>| #[trigger] variant(t, n, b) && str_text(n, name)
        && if ms.len() == 1 { text_ok(b, ms[0].1) } else { (exists|c: Seq<char>| #[trigger] framed(b, '{', c, '}') && members_text(c, v, ms.len())) || (exists|c: Seq<char>| #[trigger] framed(b, '[', c, ']') && items_text(c, v, ms.len())) } },
    V::Other => false } }
pub open spec fn size(v: V) -> nat { match v { V::Struct(ms) => ms.len(), V::Map(ms, _) => ms.len(), V::Enum(_, ms) => ms.len(), V::List(vs) => vs.len(), _ => 0 } }
pub open spec fn null() -> Seq<char> { seq!['n', 'u', 'l', 'l'] }
pub open spec fn framed(t: Seq<char>, a: char, b: Seq<char>, c: char) -> bool { t == seq![a] + b + seq![c] }
pub open spec fn variant(t: Seq<char>, n: Seq<char>, b: Seq<char>) -> bool { t == seq!['{'] + n + seq![':'] + b + seq!['}'] }
pub open spec fn comma(first: bool) -> Seq<char> { if first { seq![] } else { seq![','] } }
pub open spec fn member(t: Seq<char>, a: Seq<char>, k: nat, n: Seq<char>, b: Seq<char>) -> bool { t == a + comma(k == 1) + n + seq![':'] + b }
pub open spec fn item(t: Seq<char>, a: Seq<char>, k: nat, b: Seq<char>) -> bool { t == a + comma(k == 1) + b }
pub open spec fn parts(v: V) -> Seq<(Seq<char>, V)> { match v { V::Struct(ms) => ms, V::Map(ms, _) => ms, V::Enum(_, ms) => ms, _ => Seq::empty() } }
pub open spec fn elements(v: V) -> Seq<V> { match v { V::List(vs) => vs, V::Enum(_, ms) => Seq::new(ms.len(), |i: int| ms[i].1), _ => Seq::empty() } }
/// the first k members, separated by commas
pub open spec fn members_text(t: Seq<char>, v: V, k: nat) -> bool decreases v, k + 1 {
    if k == 0 { t.len() == 0 } else if k > parts(v).len() { false } else { exists|a: Seq<char>, n: Seq<char>, b: Seq<char>| #[trigger] member(t, a, k, n, b) && members_text(a, v, (k - 1) as nat) && str_text(n, parts(v)[k - 1].0) && part_text(b, v, k - 1) } }
pub open spec fn part_text(b: Seq<char>, v: V, i: int) -> bool decreases v, 0nat { match v { V::Struct(ms) => 0 <= i < ms.len() && text_ok(b, ms[i].1), V::Map(ms, _) => 0 <= i < ms.len() && text_ok(b, ms[i].1), V::Enum(_, ms) => 0 <= i < ms.len() && text_ok(b, ms[i].1), V::List(vs) => 0 <= i < vs.len() && text_ok(b, vs[i]), _ => false } }
pub open spec fn items_text(t: Seq<char>, v: V, k: nat) -> bool decreases v, k + 1 {
    if k == 0 { t.len() == 0 } else { exists|a: Seq<char>, b: Seq<char>| #[trigger] item(t, a, k, b) && items_text(a, v, (k - 1) as nat) && part_text(b, v, k - 1) } }
impl Facet for u8 { open spec fn tid() -> int { 1 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for u8 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for u16 { open spec fn tid() -> int { 2 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for u16 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for u32 { open spec fn tid() -> int { 3 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for u32 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for u64 { open spec fn tid() -> int { 4 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for u64 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for usize { open spec fn tid() -> int { 5 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for usize { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for i8 { open spec fn tid() -> int { 6 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for i8 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for i16 { open spec fn tid() -> int { 7 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for i16 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for i32 { open spec fn tid() -> int { 8 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for i32 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for i64 { open spec fn tid() -> int { 9 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for i64 { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for isize { open spec fn tid() -> int { 10 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Shown for isize { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self as int) } }
impl Facet for NonZero<u8> { open spec fn tid() -> int { 11 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<u8> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<u16> { open spec fn tid() -> int { 12 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<u16> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<u32> { open spec fn tid() -> int { 13 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<u32> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<u64> { open spec fn tid() -> int { 14 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<u64> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<usize> { open spec fn tid() -> int { 15 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<usize> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<i8> { open spec fn tid() -> int { 16 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<i8> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<i16> { open spec fn tid() -> int { 17 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<i16> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<i32> { open spec fn tid() -> int { 18 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<i32> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<i64> { open spec fn tid() -> int { 19 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<i64> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for NonZero<isize> { open spec fn tid() -> int { 20 } open spec fn val(self) -> Val { Val::Int(self.get() as int) } }
impl Shown for NonZero<isize> { open spec fn shows(self, t: Seq<char>) -> bool { int_text(t, self.get() as int) } }
impl Facet for f32 { open spec fn tid() -> int { 21 } open spec fn val(self) -> Val { Val::Float(self.id()) } }
impl Fl for f32 { uninterp spec fn id(self) -> int; }
impl Shown for f32 { open spec fn shows(self, t: Seq<char>) -> bool { finite(self.id()) ==> float_text(t, self.id()) } }
impl Facet for f64 { open spec fn tid() -> int { 22 } open spec fn val(self) -> Val { Val::Float(self.id()) } }
impl Fl for f64 { uninterp spec fn id(self) -> int; }
impl Shown for f64 { open spec fn shows(self, t: Seq<char>) -> bool { finite(self.id()) ==> float_text(t, self.id()) } }
impl Facet for bool { open spec fn tid() -> int { 23 } open spec fn val(self) -> Val { Val::Bool(self) } }
impl Facet for String { open spec fn tid() -> int { 24 } uninterp spec fn val(self) -> Val; }
impl Facet for &str { open spec fn tid() -> int { 25 } uninterp spec fn val(self) -> Val; }
impl Facet for CowStr { open spec fn tid() -> int { 26 } uninterp spec fn val(self) -> Val; }

/// `x.is_finite()` of a float
#[verifier::external_body] fn is_finite<T: Fl>(x: T) -> (r: bool) ensures r == finite(x.id()) { unimplemented!() }
/// types of scalars the writer knows
pub open spec fn known(id: int) -> bool { 1 <= id <= 26 }
pub uninterp spec fn ty(sh: Shape) -> int;
pub enum Def { Scalar(u8), Struct(u8), List(u8), Map(u8), Enum(u8), Option(u8), Other }
pub struct Shape { pub def: Def, pub id: u64 }
impl Shape { #[verifier::external_body] pub fn is_type<T: Facet>(&self) -> (r: bool) ensures r == (ty(*self) == T::tid()) { unimplemented!() } }
#[derive(Debug)]
pub struct ReflectError { x: u8 }
#[verifier::external_body] pub struct Peek<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Members<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Items<'a> { x: &'a u8 }
#[verifier::external_body] pub struct PeekEnum<'a> { x: &'a u8 }
#[verifier::external_body] pub struct PeekOption<'a> { x: &'a u8 }
pub struct Field { pub name: &'static str, pub id: u64 }
pub struct Fields { pub fields: &'static [Field] }
pub struct Variant { pub name: &'static str, pub data: Fields }
/// the kind of content a definition stands for
pub open spec fn fits(def: Def, id: int, v: V) -> bool { match def { Def::Scalar(_) => known(id) == (v is Leaf) && (v is Leaf || v is Other), Def::Struct(_) => v is Struct, Def::List(_) => v is List, Def::Map(_) => v is Map, Def::Enum(_) => v is Enum, Def::Option(_) => v is Null || v is Some, Def::Other => v is Other } }
/// every value below it is one the writer knows, map keys among them
pub open spec fn supported(v: V) -> bool decreases v { match v { V::Leaf(_) => true, V::Null => true, V::Other => false, V::Some(b) => supported(*b), V::List(vs) => forall|i: int| 0 <= i < vs.len() ==> supported(#[trigger] vs[i]),
    V::Struct(ms) => forall|i: int| 0 <= i < ms.len() ==> supported((#[trigger] ms[i]).1), V::Map(ms, k) => k && forall|i: int| 0 <= i < ms.len() ==> supported((#[trigger] ms[i]).1), V::Enum(_, ms) => forall|i: int| 0 <= i < ms.len() ==> supported((#[trigger] ms[i]).1) } }
/// the name a member has in a document: its last-resort name, or the one its first Rename attribute gives
pub uninterp spec fn rename_of(f: Field) -> Option<Seq<char>>;
pub open spec fn doc_name(f: Field) -> Seq<char> { match rename_of(f) { Some(n) => n, None => f.name@ } }
/// `field.attributes.iter().find_map(|attr| if let Rename(name) = attr { Some(*name) } else { None })`
#[verifier::external_body] fn renamed(f: &Field) -> (r: Option<&'static str>) ensures match r { Some(n) => rename_of(*f) == Some(n@), None => rename_of(*f) is None } { unimplemented!() }
impl<'a> Peek<'a> {
    pub uninterp spec fn v(&self) -> V;
    pub uninterp spec fn sh(&self) -> Shape;
    /// the text of a scalar (`Display`), what a key of that value is in a document
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn shape(&self) -> (r: &'static Shape) ensures *r == self.sh(), fits(r.def, ty(*r), self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn get<T: Facet>(&self) -> (r: Result<&'a T, ReflectError>) ensures ty(self.sh()) == T::tid() ==> r is Ok, r matches Ok(x) ==> self.v() == V::Leaf(x.val()) { unimplemented!() }
    #[verifier::external_body] pub fn into_struct(&self) -> (r: Result<Members<'a>, ReflectError>) ensures self.v() is Struct ==> r is Ok, r matches Ok(m) ==> (self.v() matches V::Struct(ms) && ms == m.ms()) { unimplemented!() }
    #[verifier::external_body] pub fn into_map(&self) -> (r: Result<Members<'a>, ReflectError>) ensures self.v() is Map ==> r is Ok, r matches Ok(m) ==> self.v() == V::Map(m.ms(), m.scalar_keys()) { unimplemented!() }
    #[verifier::external_body] pub fn into_list(&self) -> (r: Result<Items<'a>, ReflectError>) ensures self.v() is List ==> r is Ok, r matches Ok(m) ==> self.v() == V::List(m.vs()) { unimplemented!() }
    #[verifier::external_body] pub fn into_enum(&self) -> (r: Result<PeekEnum<'a>, ReflectError>) ensures self.v() is Enum ==> r is Ok, r matches Ok(m) ==> self.v() == m.v() && m.v() is Enum { unimplemented!() }
    #[verifier::external_body] pub fn into_option(&self) -> (r: Result<PeekOption<'a>, ReflectError>) ensures self.v() is Null || self.v() is Some ==> r is Ok, r matches Ok(m) ==> self.v() == m.v() { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn new<T>(value: &'a T) -> (r: Peek<'a>) ensures r.v() == value_of(*value) { unimplemented!() }
}
/// content of a value (what `Peek` shows of it)
pub uninterp spec fn value_of<T>(v: T) -> V;
/// `peek.get::<T>().unwrap()` of a type that derefs to str
#[verifier::external_body] fn get_text<'a, T: Facet>(p: &Peek<'a>) -> (r: &'a str) requires ty(p.sh()) == T::tid() ensures p.v() == V::Leaf(Val::Str(r@)), p.text() == r@ { unimplemented!() }
impl<'a> Members<'a> {
    pub uninterp spec fn ms(&self) -> Seq<(Seq<char>, V)>;
    pub uninterp spec fn scalar_keys(&self) -> bool;
    /// the iterators `fields()` of a struct and `iter()` of a map: how many they give and the k-th
    #[verifier::external_body] pub fn count(&self) -> (r: usize) ensures r == self.ms().len() { unimplemented!() }
    #[verifier::external_body] pub fn field(&self, k: usize) -> (r: (Field, Peek<'a>)) requires k < self.ms().len() ensures doc_name(r.0) == self.ms()[k as int].0, r.1.v() == self.ms()[k as int].1 { unimplemented!() }
    #[verifier::external_body] pub fn entry(&self, k: usize) -> (r: (Peek<'a>, Peek<'a>)) requires k < self.ms().len() ensures r.0.text() == self.ms()[k as int].0, r.1.v() == self.ms()[k as int].1, self.scalar_keys() ==> r.0.sh().def is Scalar { unimplemented!() }
}
impl<'a> Items<'a> {
    pub uninterp spec fn vs(&self) -> Seq<V>;
    #[verifier::external_body] pub fn count(&self) -> (r: usize) ensures r == self.vs().len() { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: Peek<'a>) requires k < self.vs().len() ensures r.v() == self.vs()[k as int] { unimplemented!() }
}
impl<'a> PeekEnum<'a> {
    pub uninterp spec fn v(&self) -> V;
    #[verifier::external_body] pub fn active_variant(&self) -> (r: &'static Variant) ensures self.v() matches V::Enum(n, ms) ==> n == r.name@ && ms.len() == r.data.fields@.len() && forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).0 == r.data.fields@[i].name@ { unimplemented!() }
    #[verifier::external_body] pub fn field(&self, i: usize) -> (r: Option<Peek<'a>>) ensures self.v() matches V::Enum(n, ms) ==> (i < ms.len() ==> r is Some) && (r matches Some(p) ==> i < ms.len() && p.v() == ms[i as int].1) { unimplemented!() }
}
/// whether some field's name does not start with two underscores: only chooses between two accepted notations
#[verifier::external_body] fn any_named(f: &[Field]) -> bool { unimplemented!() }
impl<'a> PeekOption<'a> {
    pub uninterp spec fn v(&self) -> V;
    #[verifier::external_body] pub fn is_none(&self) -> (r: bool) ensures r == (self.v() is Null) { unimplemented!() }
    #[verifier::external_body] pub fn value(&self) -> (r: Option<Peek<'a>>) ensures !(self.v() is Null) ==> r is Some, r matches Some(p) ==> self.v() == V::Some(Box::new(p.v())) { unimplemented!() }
}
#[verifier::external_body] fn other_error() -> io::Error { unimplemented!() }
pub trait OrOther<T> { spec fn good(self) -> bool; spec fn it(self) -> T; fn or_other(self) -> (r: io::Result<T>) where Self: Sized ensures self.good() == (r is Ok), r matches Ok(x) ==> x == self.it(); }
impl<T> OrOther<T> for Option<T> { open spec fn good(self) -> bool { self is Some } open spec fn it(self) -> T { self->Some_0 } #[verifier::external_body] fn or_other(self) -> (r: io::Result<T>) { unimplemented!() } }
impl<T> OrOther<T> for Result<T, ReflectError> { open spec fn good(self) -> bool { self is Ok } open spec fn it(self) -> T { self->Ok_0 } #[verifier::external_body] fn or_other(self) -> (r: io::Result<T>) { unimplemented!() } }
/// what an output vector holds, as text
pub uninterp spec fn held(v: Seq<u8>) -> Seq<char>;
impl Write for Vec<u8> { open spec fn out(&self) -> Seq<char> { held(self@) } open spec fn reliable() -> bool { true } }
#[verifier::external_body] fn new_text() -> (r: Vec<u8>) ensures r.out() == Seq::<char>::empty() { unimplemented!() }
/// `String::from_utf8(output).unwrap()`: what text was written is valid UTF-8
#[verifier::external_body] fn text_of(v: Vec<u8>) -> (r: String) ensures r@ == v.out() { unimplemented!() }
/// the output grew by a text of the value
pub open spec fn wrote<W: Write>(a: W, b: W, v: V) -> bool { exists|t: Seq<char>| #[trigger] text_ok(t, v) && b.out() == a.out() + t }
pub open spec fn wrote_str<W: Write>(a: W, b: W, s: Seq<char>) -> bool { exists|t: Seq<char>| #[trigger] str_text(t, s) && b.out() == a.out() + t }

/// inside an object (array) that began after `before`: k members (elements) of v have been written
pub open spec fn in_object(before: Seq<char>, out: Seq<char>, v: V, k: nat) -> bool { exists|b: Seq<char>| out == before + seq!['{'] + b && #[trigger] members_text(b, v, k) }
pub open spec fn in_array(before: Seq<char>, out: Seq<char>, v: V, k: nat) -> bool { exists|b: Seq<char>| out == before + seq!['['] + b && #[trigger] items_text(b, v, k) }
pub open spec fn next_member(a: Seq<char>, b: Seq<char>, first: bool, name: Seq<char>, v: V) -> bool { exists|n: Seq<char>, t: Seq<char>| b == a + comma(first) + n + seq![':'] + t && #[trigger] str_text(n, name) && #[trigger] text_ok(t, v) }
pub open spec fn next_item(a: Seq<char>, b: Seq<char>, first: bool, v: V) -> bool { exists|t: Seq<char>| b == a + comma(first) + t && #[trigger] text_ok(t, v) }
pub proof fn lemma_member(before: Seq<char>, a: Seq<char>, b: Seq<char>, v: V, k: nat)
    requires in_object(before, a, v, k), k < parts(v).len(), next_member(a, b, k == 0, parts(v)[k as int].0, parts(v)[k as int].1)
    ensures in_object(before, b, v, k + 1)
{
    let body = choose|x: Seq<char>| a == before + seq!['{'] + x && #[trigger] members_text(x, v, k);
    let (n, t) = choose|n: Seq<char>, t: Seq<char>| b == a + comma(k == 0) + n + seq![':'] + t && #[trigger] str_text(n, parts(v)[k as int].0) && #[trigger] text_ok(t, parts(v)[k as int].1);
    let body2 = body + comma(k == 0) + n + seq![':'] + t;
    assert(b =~= before + seq!['{'] + body2);
    assert(member(body2, body, k + 1, n, t));
    assert(part_text(t, v, k as int));
    assert(members_text(body2, v, k + 1));
}
pub proof fn lemma_item(before: Seq<char>, a: Seq<char>, b: Seq<char>, v: V, k: nat)
    requires in_array(before, a, v, k), k < elements(v).len(), next_item(a, b, k == 0, elements(v)[k as int])
    ensures in_array(before, b, v, k + 1)
{
    let body = choose|x: Seq<char>| a == before + seq!['['] + x && #[trigger] items_text(x, v, k);
    let t = choose|t: Seq<char>| b == a + comma(k == 0) + t && #[trigger] text_ok(t, elements(v)[k as int]);
    let body2 = body + comma(k == 0) + t;
    assert(b =~= before + seq!['['] + body2);
    assert(item(body2, body, k + 1, t));
    assert(part_text(t, v, k as int));
    assert(items_text(body2, v, k + 1));
}
/// the object (array) is closed
pub proof fn lemma_close(before: Seq<char>, a: Seq<char>, b: Seq<char>, v: V)
    ensures in_object(before, a, v, parts(v).len()) && b == a + seq!['}'] ==> exists|t: Seq<char>, c: Seq<char>| b == before + t && #[trigger] framed(t, '{', c, '}') && members_text(c, v, parts(v).len()) && (v is Struct || v is Map ==> text_ok(t, v)),
        in_array(before, a, v, elements(v).len()) && b == a + seq![']'] ==> exists|t: Seq<char>, c: Seq<char>| b == before + t && #[trigger] framed(t, '[', c, ']') && items_text(c, v, elements(v).len()) && (v is List ==> text_ok(t, v))
{
    if in_object(before, a, v, parts(v).len()) && b == a + seq!['}'] {
        let c = choose|x: Seq<char>| a == before + seq!['{'] + x && #[trigger] members_text(x, v, parts(v).len());
        let t = seq!['{'] + c + seq!['}']; assert(b =~= before + t); assert(framed(t, '{', c, '}'));
    }
    if in_array(before, a, v, elements(v).len()) && b == a + seq![']'] {
        let c = choose|x: Seq<char>| a == before + seq!['['] + x && #[trigger] items_text(x, v, elements(v).len());
        let t = seq!['['] + c + seq![']']; assert(b =~= before + t); assert(framed(t, '[', c, ']'));
    }
}
pub proof fn lemma_begin(before: Seq<char>, v: V)
    ensures in_object(before, before + seq!['{'], v, 0), in_array(before, before + seq!['['], v, 0)
{ let e = Seq::<char>::empty(); assert(before + seq!['{'] =~= before + seq!['{'] + e); assert(before + seq!['['] =~= before + seq!['['] + e); assert(members_text(e, v, 0)); assert(items_text(e, v, 0)); }

pub open spec fn variant_text(n: Seq<char>, b: Seq<char>) -> Seq<char> { seq!['{'] + n + seq![':'] + b + seq!['}'] }
/// a variant with the notation b of its content
pub proof fn lemma_variant(before: Seq<char>, v: V, n: Seq<char>, b: Seq<char>)
    requires v is Enum, parts(v).len() > 0, str_text(n, v->Enum_0), if parts(v).len() == 1 { text_ok(b, parts(v)[0].1) } else { (exists|c: Seq<char>| #[trigger] framed(b, '{', c, '}') && members_text(c, v, parts(v).len())) || (exists|c: Seq<char>| #[trigger] framed(b, '[', c, ']') && items_text(c, v, parts(v).len())) }
    ensures before + seq!['{'] + n + seq![':'] + b + seq!['}'] =~= before + variant_text(n, b), text_ok(variant_text(n, b), v)
{ assert(variant(variant_text(n, b), n, b)); }
/// at the end of a variant's members
pub proof fn lemma_variant_close(before: Seq<char>, x: Seq<char>, o: Seq<char>, v: V, object: bool)
    requires v is Enum, parts(v).len() > 1, exists|n: Seq<char>| #[trigger] str_text(n, v->Enum_0) && x == before + seq!['{'] + n + seq![':'], if object { in_object(x, o, v, parts(v).len()) } else { in_array(x, o, v, parts(v).len()) }
    ensures exists|t: Seq<char>| o + seq![if object { '}' } else { ']' }] + seq!['}'] == before + t && #[trigger] text_ok(t, v)
{
    let n = choose|n: Seq<char>| #[trigger] str_text(n, v->Enum_0) && x == before + seq!['{'] + n + seq![':'];
    let l = o + seq![if object { '}' } else { ']' }];
    lemma_close(x, o, l, v);
    let b = if object { choose|t: Seq<char>| l == x + t && exists|c: Seq<char>| #[trigger] framed(t, '{', c, '}') && members_text(c, v, parts(v).len()) } else { choose|t: Seq<char>| l == x + t && exists|c: Seq<char>| #[trigger] framed(t, '[', c, ']') && items_text(c, v, parts(v).len()) };
    assert(l == x + b);
    lemma_variant(before, v, n, b);
}

//@ literals
//@ subst write!\(writer, "\{\{"\) ==> emit(writer, "{")
//@ subst write!\(writer, "\}\}"\) ==> emit(writer, "}")
//@ subst write!\(writer, "\\\\u\{:04x\}", c as u32\) ==> emit_unit(writer, c as u32)
//@ subst write!\(writer, "\{\}", c\) ==> emit_shown(writer, &c)
//@ subst write!\(writer, "\{\}", value\) ==> emit_shown(writer, value)
//@ subst write!\(writer, "\{\}", (if [^;{}]*\{[^{};]*\} else \{[^{};]*\})\) ==> emit(writer, \1)
//@ subst write!\(writer, ("(?:\\.|[^"\\{}])*")\) ==> emit(writer, \1)
//@ subst \bc\.is_control\(\) ==> is_control(c)
//@ subst \((\w+\[[^\[\]]*\]) as char\)\.is_ascii_digit\(\) ==> is_digit(\1)
//@ subst (bytes\[[^\[\]]*\]) as char ==> char_of(\1)
//@ subst &(\w+)\[([^\[\]]*?)\.\.([^\[\]]*?)\] == b"(\w+)" ==> is_\4(\1, \2, \3)
//@ subst alloc::borrow::Cow<'_, str> ==> CowStr
//@ subst (peek|key)\.get::<(&str|String|CowStr)>\(\)\.unwrap\(\) ==> get_text::<\2>(&\1)
//@ subst value\.is_finite\(\) ==> is_finite(*value)
//@ subst (?s)io::Error::new\(\s*io::ErrorKind::Other,\s*format!\("[^"]*"(?:, (?:[^()]|\(\))*)?\),?\s*\) ==> other_error()
//@ subst (?s)io::Error::new\(\s*io::ErrorKind::Other,\s*"[^"]*",?\s*\) ==> other_error()
//@ subst (?s)\s*\.map_err\(\|e\| other_error\(\)\) ==> .or_other()
//@ subst (?s)\s*\.ok_or_else\(\|\| (?:\{\s*)?other_error\(\)(?:\s*\})?\) ==> .or_other()
//@ subst for \(field, field_peek\) in struct_peek\.fields\(\) \{ ==> for k in 0..struct_peek.count() { let (field, field_peek) = struct_peek.field(k);
//@ subst for \(key, value\) in map_peek\.iter\(\) \{ ==> for k in 0..map_peek.count() { let (key, value) = map_peek.entry(k);
//@ subst for item_peek in list_peek\.iter\(\) \{ ==> for k in 0..list_peek.count() { let item_peek = list_peek.item(k);
//@ subst (?s)field\s*\.attributes\s*\.iter\(\)\s*\.find_map\(\|attr\| \{\s*if let FieldAttribute::Rename\(name\) = attr \{\s*Some\(\*name\)\s*\} else \{\s*None\s*\}\s*\}\) ==> renamed(&field)
//@ subst (?s)variant\s*\.data\s*\.fields\s*\.iter\(\)\s*\.any\(\|f\| !f\.name\.starts_with\("__"\)\) ==> any_named(variant.data.fields)
//@ subst let mut output = Vec::new\(\) ==> let mut output = new_text()
//@ subst String::from_utf8\(output\)\.unwrap\(\) ==> text_of(output)
//@ lift skip_over_value skip_whitespace bytes: &[u8] bytes
//@ free facet-json/src/deserialize.rs
//@ fn skip_whitespace
    requires *old(pos) <= bytes.len()
    ensures *final(pos) == ws_end(bytes@, *old(pos) as int), *old(pos) <= *final(pos) <= bytes.len()
//@ proof skip_whitespace start
    let ghost start = *pos as int;
    proof { lemma_ws(bytes@, start); }
//@ loop skip_whitespace 0
    invariant_except_break *pos <= bytes.len() && ws_end(bytes@, *pos as int) == ws_end(bytes@, start)
    ensures *pos == ws_end(bytes@, start), *pos <= bytes.len()
    decreases bytes.len() - *pos
//@ fn skip_over_value
    requires *old(pos) <= input.len()
    ensures *final(pos) <= input.len(), match r { Ok(_) => value_end(input@, *old(pos) as int) == Some(*final(pos) as int), Err(_) => value_end(input@, *old(pos) as int) is None }
    decreases input.len() - *old(pos)
//@ proof skip_over_value start
    let ghost g0 = *pos as int;
    let ghost s = input@;
    proof { axiom_len(input); lemma_ws(input@, g0); lemma_value(input@, g0); }
//@ loop skip_over_value 0
    invariant_except_break value_end(s, g0) == members_end(s, *pos as int)
    invariant bytes == input, s == input@, 0 <= g0 < *pos <= input.len(), input.len() <= isize::MAX, g0 == *old(pos)
    ensures value_end(s, g0) == Some(*pos as int)
    decreases input.len() - *pos
//@ proof skip_over_value loop 0 start
    let ghost o = *pos as int;
    proof { if o < s.len() { lemma_str(s, o + 1); match str_end(s, o + 1) { Some(k) => { lemma_ws(s, k); let c = ws_end(s, k); if c < s.len() { lemma_ws(s, c + 1); lemma_value(s, c + 1); match value_end(s, c + 1) { Some(e) => { lemma_ws(s, e); if ws_end(s, e) < s.len() { lemma_ws(s, ws_end(s, e) + 1); } } None => {} } } } None => {} } } }
//@ loop skip_over_value 1
    invariant_except_break value_end(s, g0) == items_end(s, *pos as int)
    invariant bytes == input, s == input@, 0 <= g0 < *pos <= input.len(), input.len() <= isize::MAX, g0 == *old(pos)
    ensures value_end(s, g0) == Some(*pos as int)
    decreases input.len() - *pos
//@ proof skip_over_value loop 1 start
    proof { match value_end(s, *pos as int) { Some(e) => { lemma_value(s, *pos as int); lemma_ws(s, e); if ws_end(s, e) < s.len() { lemma_ws(s, ws_end(s, e) + 1); lemma_items_ws(s, ws_end(s, e) + 1); } } None => {} } }
//@ loop skip_over_value 2
    invariant_except_break value_end(s, g0) == str_end(s, *pos as int), !closed
    invariant bytes == input, s == input@, 0 <= g0 < *pos <= input.len(), input.len() <= isize::MAX, g0 == *old(pos)
    ensures closed ==> value_end(s, g0) == Some(*pos as int), !closed ==> value_end(s, g0) is None
    decreases input.len() - *pos
//@ proof skip_over_value before loop 3
    let ghost d = *pos as int;
    proof { lemma_digits(s, d); }
//@ loop skip_over_value 3
    invariant bytes == input, s == input@, 0 <= d <= *pos <= input.len(), input.len() <= isize::MAX, digits_end(s, *pos as int) == digits_end(s, d)
    decreases input.len() - *pos
//@ proof skip_over_value after loop 3
    proof { assert(*pos == digits_end(s, d)); }
//@ proof skip_over_value before loop 4
    let ghost d = *pos as int;
    proof { lemma_digits(s, d); }
//@ loop skip_over_value 4
    invariant bytes == input, s == input@, 0 <= d <= *pos <= input.len(), input.len() <= isize::MAX, digits_end(s, *pos as int) == digits_end(s, d), has_digit == (*pos > d)
    decreases input.len() - *pos
//@ proof skip_over_value after loop 4
    proof { assert(*pos == digits_end(s, d)); }
//@ proof skip_over_value before loop 5
    let ghost d = *pos as int;
    proof { lemma_digits(s, d); }
//@ loop skip_over_value 5
    invariant bytes == input, s == input@, 0 <= d <= *pos <= input.len(), input.len() <= isize::MAX, digits_end(s, *pos as int) == digits_end(s, d), has_digit == (*pos > d)
    decreases input.len() - *pos
//@ proof skip_over_value after loop 5
    proof { assert(*pos == digits_end(s, d)); }
//@ free facet-json/src/serialize.rs
//@ fn write_json_string
    ensures W::reliable() ==> r is Ok, r is Ok ==> exists|t: Seq<char>| #[trigger] str_text(t, s@) && final(writer).out() == old(writer).out() + t
//@ proof write_json_string start
    let ghost mut body: Seq<char> = Seq::empty();
    let ghost before = writer.out();
    proof { lemma_empty(); assert(cps(s@.take(0)) =~= Seq::<int>::empty()); }
//@ loop write_json_string 0
    invariant it.seq() == s@, writer.out() =~= before + seq!['"'] + body, encodes(body, cps(s@.take(it.index@)))
//@ proof write_json_string loop 0 start
    let ghost o = writer.out();
//@ proof write_json_string loop 0 end
    let e = writer.out().skip(o.len() as int);
    assert(writer.out() =~= o + e);
    assert forall|t: Seq<char>| writer.out() == #[trigger] (o + t) implies e == t by { assert((o + t).skip(o.len() as int) =~= t); }
    if cp(c) < 0xa0 { lemma_unit(cp(c)); }
    assert(e.len() > 0);
    assert(esc_form(e, cp(c)));
    lemma_esc(e, cp(c));
    lemma_cat(body, cps(s@.take(it.index@)), e, seq![cp(c)]);
    assert(cps(s@.take(it.index@ + 1)) =~= cps(s@.take(it.index@)) + seq![cp(c)]);
    body = body + e;
//@ proof write_json_string after loop 0
    proof { assert(s@.take(s@.len() as int) =~= s@); lemma_str_text(body, s@); }
//@ fn serialize
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
    decreases peek.v(), 1nat
//@ fn serialize_scalar
    requires peek.sh().def is Scalar
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
//@ fn serialize_struct
    requires peek.v() is Struct
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
    decreases peek.v(), 0nat
//@ fn serialize_list
    requires peek.v() is List
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
    decreases peek.v(), 0nat
//@ fn serialize_map
    requires peek.v() is Map
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
    decreases peek.v(), 0nat
//@ fn serialize_enum
    requires peek.v() is Enum
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
    decreases peek.v(), 0nat
//@ fn serialize_option
    requires peek.v() is Null || peek.v() is Some
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
    decreases peek.v(), 0nat
//@ proof serialize_struct start
    let ghost before = writer.out();
    proof { lemma_begin(before, peek.v()); }
//@ loop serialize_struct 0
    invariant peek.v() matches V::Struct(ms) && ms == struct_peek.ms(), parts(peek.v()) == struct_peek.ms(), first == (k == 0), in_object(before, writer.out(), peek.v(), k as nat)
//@ proof serialize_struct loop 0 start
    let ghost o = writer.out();
//@ proof serialize_struct loop 0 end
    assert(o + comma(true) =~= o);
    assert(next_member(o, writer.out(), k == 0, parts(peek.v())[k as int].0, parts(peek.v())[k as int].1));
    lemma_member(before, o, writer.out(), peek.v(), k as nat);
//@ proof serialize_struct after loop 0
    let ghost o = writer.out();
    proof { lemma_close(before, o, o + seq!['}'], peek.v()); }
//@ attr serialize_struct #[verifier::loop_isolation(false)]
//@ proof serialize_map start
    let ghost before = writer.out();
    proof { lemma_begin(before, peek.v()); }
//@ loop serialize_map 0
    invariant peek.v() matches V::Map(ms, _) && ms == map_peek.ms(), parts(peek.v()) == map_peek.ms(), first == (k == 0), in_object(before, writer.out(), peek.v(), k as nat)
//@ proof serialize_map loop 0 start
    let ghost o = writer.out();
//@ proof serialize_map loop 0 end
    assert(o + comma(true) =~= o);
    assert(next_member(o, writer.out(), k == 0, parts(peek.v())[k as int].0, parts(peek.v())[k as int].1));
    lemma_member(before, o, writer.out(), peek.v(), k as nat);
//@ proof serialize_map after loop 0
    let ghost o = writer.out();
    proof { lemma_close(before, o, o + seq!['}'], peek.v()); }
//@ attr serialize_map #[verifier::loop_isolation(false)]
//@ proof serialize_list start
    let ghost before = writer.out();
    proof { lemma_begin(before, peek.v()); }
//@ loop serialize_list 0
    invariant peek.v() == V::List(list_peek.vs()), elements(peek.v()) == list_peek.vs(), first == (k == 0), in_array(before, writer.out(), peek.v(), k as nat)
//@ proof serialize_list loop 0 start
    let ghost o = writer.out();
//@ proof serialize_list loop 0 end
    assert(o + comma(true) =~= o);
    assert(next_item(o, writer.out(), k == 0, elements(peek.v())[k as int]));
    lemma_item(before, o, writer.out(), peek.v(), k as nat);
//@ proof serialize_list after loop 0
    let ghost o = writer.out();
    proof { lemma_close(before, o, o + seq![']'], peek.v()); }
//@ attr serialize_list #[verifier::loop_isolation(false)]
//@ proof serialize_enum start
    let ghost before = writer.out();
    proof {
        assert forall|t: Seq<char>| #[trigger] str_text(t, peek.v()->Enum_0) && parts(peek.v()).len() == 0 implies text_ok(t, peek.v()) by { }
        if peek.v() is Enum && parts(peek.v()).len() == 1 {
            assert forall|n: Seq<char>, b: Seq<char>| #[trigger] str_text(n, peek.v()->Enum_0) && #[trigger] text_ok(b, parts(peek.v())[0].1) implies before + seq!['{'] + n + seq![':'] + b + seq!['}'] =~= before + variant_text(n, b) && text_ok(variant_text(n, b), peek.v()) by { lemma_variant(before, peek.v(), n, b); }
        }
    }
//@ proof serialize_enum before loop 0
    let ghost x = writer.out().drop_last();
    proof { assert(x + seq!['{'] =~= writer.out()); lemma_begin(x, peek.v()); assert(exists|n: Seq<char>| #[trigger] str_text(n, peek.v()->Enum_0) && x =~= before + seq!['{'] + n + seq![':']); }
//@ loop serialize_enum 0
    invariant peek.v() == enum_peek.v(), peek.v() is Enum, peek.v()->Enum_0 == variant.name@, variant.data.fields@.len() == parts(peek.v()).len(), forall|i: int| 0 <= i < parts(peek.v()).len() ==> (#[trigger] parts(peek.v())[i]).0 == variant.data.fields@[i].name@,
        first == (i == 0), in_object(x, writer.out(), peek.v(), i as nat)
//@ proof serialize_enum loop 0 start
    let ghost o = writer.out();
//@ proof serialize_enum loop 0 end
    assert(o + comma(true) =~= o);
    assert(next_member(o, writer.out(), i == 0, parts(peek.v())[i as int].0, parts(peek.v())[i as int].1));
    lemma_member(x, o, writer.out(), peek.v(), i as nat);
//@ proof serialize_enum after loop 0
    proof { lemma_variant_close(before, x, writer.out(), peek.v(), true); }
//@ proof serialize_enum before loop 1
    let ghost x = writer.out().drop_last();
    proof { assert(x + seq!['['] =~= writer.out()); lemma_begin(x, peek.v()); assert(exists|n: Seq<char>| #[trigger] str_text(n, peek.v()->Enum_0) && x =~= before + seq!['{'] + n + seq![':']); }
//@ loop serialize_enum 1
    invariant peek.v() == enum_peek.v(), peek.v() is Enum, peek.v()->Enum_0 == variant.name@, variant.data.fields@.len() == parts(peek.v()).len(), elements(peek.v()).len() == parts(peek.v()).len(), first == (i == 0), in_array(x, writer.out(), peek.v(), i as nat)
//@ proof serialize_enum loop 1 start
    let ghost o = writer.out();
//@ proof serialize_enum loop 1 end
    assert(o + comma(true) =~= o);
    assert(next_item(o, writer.out(), i == 0, elements(peek.v())[i as int]));
    lemma_item(x, o, writer.out(), peek.v(), i as nat);
//@ proof serialize_enum after loop 1
    proof { lemma_variant_close(before, x, writer.out(), peek.v(), false); }
//@ attr serialize_enum #[verifier::loop_isolation(false)]
//@ proof serialize_option start
    let ghost inner = *peek.v()->Some_0;
    proof {
        assert(peek.v() is Null ==> text_ok(null(), peek.v()));
        assert forall|t: Seq<char>| peek.v() is Some && #[trigger] text_ok(t, inner) implies text_ok(t, peek.v()) by { }
    }
//@ proof serialize_scalar start
    proof {
        assert forall|t: Seq<char>, n: int| #[trigger] int_text(t, n) implies text_ok(t, V::Leaf(Val::Int(n))) by { }
        assert forall|t: Seq<char>, x: Seq<char>| #[trigger] str_text(t, x) implies text_ok(t, V::Leaf(Val::Str(x))) by { }
        assert forall|t: Seq<char>, x: int| #[trigger] float_text(t, x) && finite(x) implies text_ok(t, V::Leaf(Val::Float(x))) by { }
        assert forall|x: int| !#[trigger] finite(x) implies text_ok(null(), V::Leaf(Val::Float(x))) by { }
        assert(text_ok(seq!['t', 'r', 'u', 'e'], V::Leaf(Val::Bool(true))));
        assert(text_ok(seq!['f', 'a', 'l', 's', 'e'], V::Leaf(Val::Bool(false))));
    }
//@ fn to_string
    requires supported(value_of(*value))
    ensures text_ok(r@, value_of(*value))
//@ fn peek_to_string
    requires supported(peek.v())
    ensures text_ok(r@, peek.v())
//@ fn to_writer
    ensures W::reliable() && supported(value_of(*value)) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), value_of(*value))
//@ fn peek_to_writer
    ensures W::reliable() && supported(peek.v()) ==> r is Ok, r is Ok ==> wrote(*old(writer), *final(writer), peek.v())
//@ proof to_string start
    proof { assert forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
//@ proof peek_to_string start
    proof { assert forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
