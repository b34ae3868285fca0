//@ source facet-msgpack/src/constants.rs consts
//@ source facet-msgpack/src/errors.rs enum Error
//@ prelude
global size_of usize == 8;
type DecodeError = Error;
pub struct Decoder<'input> { input: &'input [u8], offset: usize }

/// big-endian number made of the n bytes of s at i
pub open spec fn be(s: Seq<u8>, i: int, n: int) -> nat decreases n { if n <= 0 { 0 } else { be(s, i, n - 1) * 256 + s[i + n - 1] as nat } }

/// MessagePack specification: what the header at `o` announces: (bytes of the header and of scalar content, number of contained values), None if there is no complete header or it is not a MessagePack format
pub open spec fn fixed(p: u8) -> Option<int> {
    if p <= 0x7f || p >= 0xe0 || p == 0xc0 || p == 0xc2 || p == 0xc3 { Some(0) }
    else if 0xa0 <= p <= 0xbf { Some((p - 0xa0) as int) }
    else if p == 0xcc || p == 0xd0 { Some(1) } else if p == 0xcd || p == 0xd1 { Some(2) }
    else if p == 0xce || p == 0xd2 || p == 0xca { Some(4) } else if p == 0xcf || p == 0xd3 || p == 0xcb { Some(8) }
    else if p == 0xd4 { Some(2) } else if p == 0xd5 { Some(3) } else if p == 0xd6 { Some(5) } else if p == 0xd7 { Some(9) } else if p == 0xd8 { Some(17) }
    else { None }
}
/// length prefix: (its width, fixed extra bytes)
pub open spec fn sized(p: u8) -> Option<(int, int)> {
    if p == 0xd9 || p == 0xc4 { Some((1, 0)) } else if p == 0xda || p == 0xc5 { Some((2, 0)) } else if p == 0xdb || p == 0xc6 { Some((4, 0)) }
    else if p == 0xc7 { Some((1, 1)) } else if p == 0xc8 { Some((2, 1)) } else if p == 0xc9 { Some((4, 1)) } else { None }
}
/// containers: (width of the count, inline count, values per item)
pub open spec fn container(p: u8) -> Option<(int, int, int)> {
    if 0x90 <= p <= 0x9f { Some((0, p - 0x90, 1)) } else if 0x80 <= p <= 0x8f { Some((0, p - 0x80, 2)) }
    else if p == 0xdc { Some((2, 0, 1)) } else if p == 0xdd { Some((4, 0, 1)) } else if p == 0xde { Some((2, 0, 2)) } else if p == 0xdf { Some((4, 0, 2)) } else { None }
}
pub open spec fn header(s: Seq<u8>, o: int) -> Option<(int, nat)> {
    if o < 0 || o >= s.len() { None } else {
        let p = s[o];
        match fixed(p) { Some(n) => if o + 1 + n <= s.len() { Some((o + 1 + n, 0)) } else { None },
        None => match sized(p) {
            Some((w, x)) => if o + 1 + w <= s.len() && o + 1 + w + x + be(s, o + 1, w) <= s.len() { Some((o + 1 + w + x + be(s, o + 1, w), 0)) } else { None },
            None => match container(p) {
                Some((w, k, m)) => if o + 1 + w <= s.len() { Some((o + 1 + w, (if m == 2 { 2 * (be(s, o + 1, w) + k) } else { be(s, o + 1, w) + k }) as nat)) } else { None },
                None => None,
            } } } }
}
/// end of the n values that start at o
pub open spec fn values_end(s: Seq<u8>, o: int, n: nat) -> Option<int> decreases s.len() - o, n
{
    if n == 0 { Some(o) } else { match header(s, o) { Some((e, k)) => if e > o { values_end(s, e, (n - 1 + k) as nat) } else { None }, None => None } }
}
/// The grammar as nested values: a value is a header followed by the values it announces.
pub open spec fn value_end(s: Seq<u8>, o: int) -> Option<int> decreases s.len() - o, 0nat
{
    match header(s, o) { Some((e, k)) => if e > o { items_end(s, e, k) } else { None }, None => None }
}
pub open spec fn items_end(s: Seq<u8>, o: int, n: nat) -> Option<int> decreases s.len() - o, n + 1
{
    if n == 0 { Some(o) } else { match value_end(s, o) { Some(e) => if o < e <= s.len() { items_end(s, e, (n - 1) as nat) } else { None }, None => None } }
}
pub proof fn lemma_header(s: Seq<u8>, o: int)
    ensures header(s, o) matches Some((e, k)) ==> o < e <= s.len()
{ assert(forall|i: int, n: int| be(s, i, n) >= 0); }
/// skipping with a counter follows the grammar
pub proof fn lemma_grammar(s: Seq<u8>, o: int, n: nat, m: nat)
    requires 0 <= o <= s.len()
    ensures values_end(s, o, n + m) == (match items_end(s, o, n) { Some(e) => values_end(s, e, m), None => None }),
            items_end(s, o, n) matches Some(e) ==> o <= e <= s.len() && (n > 0 ==> o < e),
            value_end(s, o) matches Some(e) ==> o < e <= s.len()
    decreases s.len() - o, n + 1
{
    lemma_header(s, o);
    match header(s, o) { Some((e, k)) => {
        lemma_grammar(s, e, k, 0);
        if n > 0 {
            lemma_grammar(s, e, k, (n - 1 + m) as nat);
            assert((n + m - 1 + k) as nat == k + (n - 1 + m) as nat);
            match items_end(s, e, k) { Some(e2) => { lemma_grammar(s, e2, (n - 1) as nat, m); } None => {} }
        }
    } None => {} }
}
/// a value that needs more bytes than there are
pub proof fn lemma_short(s: Seq<u8>, o: int, n: nat)
    requires 0 <= o <= s.len(), n > s.len() - o
    ensures values_end(s, o, n) is None
    decreases s.len() - o
{
    lemma_header(s, o);
    if n > 0 { match header(s, o) { Some((e, k)) => { lemma_short(s, e, (n - 1 + k) as nat); } None => {} } }
}
pub proof fn lemma_be(s: Seq<u8>, i: int)
    ensures be(s, i, 0) == 0, be(s, i, 1) == s[i], be(s, i, 2) == s[i] * 256 + s[i + 1], be(s, i, 4) == ((s[i] * 256 + s[i + 1]) * 256 + s[i + 2]) * 256 + s[i + 3]
{ reveal_with_fuel(be, 6); }

/// `uN::from_be_bytes(s[a..b].try_into().unwrap())`: panics unless the range is within the slice and N/8 long
#[verifier::external_body]
fn be_u16(s: &[u8], a: usize, b: usize) -> (r: u16) requires a + 2 == b, b <= s.len() ensures r == be(s@, a as int, 2) { unimplemented!() }
#[verifier::external_body]
fn be_u32(s: &[u8], a: usize, b: usize) -> (r: u32) requires a + 4 == b, b <= s.len() ensures r == be(s@, a as int, 4) { unimplemented!() }
#[verifier::external_body]
fn be_u64(s: &[u8], a: usize, b: usize) -> (r: u64) requires a + 8 == b, b <= s.len() ensures r == be(s@, a as int, 8) { unimplemented!() }
/// a slice never covers more than isize::MAX bytes
#[verifier::external_body]
proof fn axiom_len(s: &[u8]) ensures s.len() <= isize::MAX { }


// ---- scalars: what the specification says is at `o`
/// an unsigned integer format
pub open spec fn uint_at(s: Seq<u8>, o: int) -> Option<(int, int)> {
    if o < 0 || o >= s.len() { None } else {
        let p = s[o];
        if p <= 0x7f { Some((o + 1, p as int)) }
        else { let w = if p == 0xcc { 1int } else if p == 0xcd { 2 } else if p == 0xce { 4 } else if p == 0xcf { 8 } else { 0 };
            if w > 0 && o + 1 + w <= s.len() { Some((o + 1 + w, be(s, o + 1, w) as int)) } else { None } } } }
/// two's complement reading of n of w bytes
pub open spec fn signed(n: int, w: int) -> int { if w == 1 { if n >= 0x80 { n - 0x100 } else { n } } else if w == 2 { if n >= 0x8000 { n - 0x1_0000 } else { n } }
    else if w == 4 { if n >= 0x8000_0000 { n - 0x1_0000_0000 } else { n } } else { if n >= 0x8000_0000_0000_0000 { n - 0x1_0000_0000_0000_0000 } else { n } } }
/// any integer format
pub open spec fn int_at(s: Seq<u8>, o: int) -> Option<(int, int)> {
    if o < 0 || o >= s.len() { None } else {
        let p = s[o];
        if p >= 0xe0 { Some((o + 1, p - 0x100)) }
        else { let w = if p == 0xd0 { 1int } else if p == 0xd1 { 2 } else if p == 0xd2 { 4 } else if p == 0xd3 { 8 } else { 0 };
            if w > 0 { if o + 1 + w <= s.len() { Some((o + 1 + w, signed(be(s, o + 1, w) as int, w))) } else { None } } else { uint_at(s, o) } } } }
/// an integer that fits in an i64
pub open spec fn int_in(s: Seq<u8>, o: int) -> Option<(int, int)> { match int_at(s, o) { Some((e, n)) => if n <= i64::MAX { Some((e, n)) } else { None }, None => None } }
/// the text of valid UTF-8
pub uninterp spec fn text(s: Seq<u8>) -> Option<Seq<char>>;
/// header of a string: (where its bytes start, where they end)
pub open spec fn str_at(s: Seq<u8>, o: int) -> Option<(int, int)> {
    if o < 0 || o >= s.len() { None } else {
        let p = s[o];
        let w = if p == 0xd9 { 1int } else if p == 0xda { 2 } else if p == 0xdb { 4 } else { 0 };
        if 0xa0 <= p <= 0xbf { if o + 1 + (p - 0xa0) <= s.len() { Some((o + 1, o + 1 + (p - 0xa0))) } else { None } }
        else if w > 0 && o + 1 + w <= s.len() && o + 1 + w + be(s, o + 1, w) <= s.len() { Some((o + 1 + w, o + 1 + w + be(s, o + 1, w))) } else { None } } }
pub open spec fn string_at(s: Seq<u8>, o: int) -> Option<(int, Seq<char>)> {
    match str_at(s, o) { Some((a, e)) => match text(s.subrange(a, e)) { Some(t) => Some((e, t)), None => None }, None => None } }
/// map / array header: (where the items start, how many)
pub open spec fn count_at(s: Seq<u8>, o: int, map: bool) -> Option<(int, int)> {
    if o < 0 || o >= s.len() { None } else {
        let p = s[o];
        match container(p) { Some((w, k, m)) => if (m == 2) == map && o + 1 + w <= s.len() { Some((o + 1 + w, be(s, o + 1, w) + k)) } else { None }, None => None } } }
pub open spec fn bool_at(s: Seq<u8>, o: int) -> Option<(int, bool)> {
    if o < 0 || o >= s.len() { None } else if s[o] == 0xc2 { Some((o + 1, false)) } else if s[o] == 0xc3 { Some((o + 1, true)) } else { None } }
/// `String::from_utf8(s[a..b].to_vec())`: panics outside the slice
#[verifier::external_body]
fn utf8(s: &[u8], a: usize, b: usize) -> (r: Result<String, DecodeError>) requires a <= b <= s.len()
    ensures match r { Ok(t) => text(s@.subrange(a as int, b as int)) == Some(t@), Err(_) => text(s@.subrange(a as int, b as int)) is None } { unimplemented!() }
/// two's complement casts of the language
pub proof fn cast8(n: u8) ensures (n as i8) as int == signed(n as int, 1)
{ assert(n < 0x80 ==> (n as i8) == n) by(bit_vector); assert(n >= 0x80 ==> (n as i8) == n - 0x100) by(bit_vector); }
pub proof fn cast16(n: u16) ensures (n as i16) as int == signed(n as int, 2)
{ assert(n < 0x8000 ==> (n as i16) == n) by(bit_vector); assert(n >= 0x8000 ==> (n as i16) == n - 0x10000) by(bit_vector); }
pub proof fn cast32(n: u32) ensures (n as i32) as int == signed(n as int, 4)
{ assert(n < 0x80000000 ==> (n as i32) == n) by(bit_vector); assert(n >= 0x80000000 ==> (n as i32) == n - 0x100000000) by(bit_vector); }
pub proof fn cast64(n: u64) ensures (n as i64) as int == signed(n as int, 8)
{ assert(n < 0x8000000000000000 ==> (n as i64) == n) by(bit_vector); assert(n >= 0x8000000000000000 ==> (n as i64) == n - 0x10000000000000000) by(bit_vector); }
pub proof fn join(h: u64, l: u64) requires h < 0x1_0000_0000, l < 0x1_0000_0000 ensures (h << 32 | l) as int == h * 0x1_0000_0000 + l
{ assert(h < 0x1_0000_0000 && l < 0x1_0000_0000 ==> (h << 32 | l) == h * 0x1_0000_0000 + l) by(bit_vector); }
pub proof fn lemma_be8(s: Seq<u8>, i: int)
    ensures be(s, i, 8) == be(s, i, 4) * 0x1_0000_0000 + be(s, i + 4, 4), be(s, i, 4) < 0x1_0000_0000, be(s, i + 4, 4) < 0x1_0000_0000, be(s, i, 8) < 0x1_0000_0000_0000_0000, be(s, i, 2) < 0x1_0000, be(s, i, 1) < 0x100
{ reveal_with_fuel(be, 10); }


// ---- contract of the builder (facet_reflect::Wip): what it checks and records; properties R01-R05 verify it
pub struct Field { pub name: &'static str }
pub struct StructDef { pub fields: &'static [Field] }
impl Clone for StructDef { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for StructDef {}
pub enum Def { Scalar(u8), Struct(StructDef), Enum(u8), Map(u8), List(u8), Option(u8), Other }
impl Clone for Def { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for Def {}
pub struct Shape { pub def: Def, pub id: u64 }
pub enum Val { Int(int), Bool(bool), Str(Seq<char>) }
/// what the decoder does to the value: enters a field, stores a scalar, leaves the field
pub enum Ev { Field(int), Put(Val), Pop }
pub trait Facet: Sized { spec fn tid() -> int; spec fn val(self) -> Val; }
impl Facet for u64 { open spec fn tid() -> int { 1 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for u32 { open spec fn tid() -> int { 2 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for u16 { open spec fn tid() -> int { 3 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for u8 { open spec fn tid() -> int { 4 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for i64 { open spec fn tid() -> int { 5 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for i32 { open spec fn tid() -> int { 6 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for i16 { open spec fn tid() -> int { 7 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for i8 { open spec fn tid() -> int { 8 } open spec fn val(self) -> Val { Val::Int(self as int) } }
impl Facet for bool { open spec fn tid() -> int { 9 } open spec fn val(self) -> Val { Val::Bool(self) } }
impl Facet for String { open spec fn tid() -> int { 10 } open spec fn val(self) -> Val { Val::Str(self@) } }
pub uninterp spec fn ty(sh: Shape) -> int;
impl Shape { #[verifier::external_body] pub fn is_type<T: Facet>(&self) -> (r: bool) ensures r == (ty(*self) == T::tid()) { unimplemented!() } }
/// field of that name, and the shape of a field
pub uninterp spec fn field_of(sh: Shape, name: Seq<char>) -> Option<int>;
pub uninterp spec fn field_shape(sh: Shape, i: int) -> Shape;
#[verifier::external_body]
pub struct Wip<'a> { x: &'a u8 }
#[derive(Debug)]
pub struct ReflectError { x: u8 }
impl<'a> Wip<'a> {
    /// shapes of the open frames
    pub uninterp spec fn stack(&self) -> Seq<Shape>;
    /// fields selected so far in each open frame
    pub uninterp spec fn touched(&self) -> Seq<Set<int>>;
    /// everything done so far
    pub uninterp spec fn trail(&self) -> Seq<Ev>;
    /// nothing was stored yet in the place of the last frame
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body] pub fn shape(&self) -> (r: &'static Shape) requires self.stack().len() > 0 ensures *r == self.stack().last() { unimplemented!() }
    #[verifier::external_body] pub fn put<T: Facet>(self, v: T) -> (r: Result<Wip<'a>, ReflectError>) requires self.stack().len() > 0
        ensures ty(self.stack().last()) == T::tid() && self.fresh() ==> r is Ok, r matches Ok(w) ==> w.stack() == self.stack() && w.touched() == self.touched() && w.trail() == self.trail().push(Ev::Put(v.val())) { unimplemented!() }
    #[verifier::external_body] pub fn field_index(&self, name: &String) -> (r: Option<usize>) requires self.stack().len() > 0
        ensures match r { Some(i) => field_of(self.stack().last(), name@) == Some(i as int) && (self.stack().last().def matches Def::Struct(sd) ==> i < sd.fields.len()), None => field_of(self.stack().last(), name@) is None } { unimplemented!() }
    /// selecting a field that exists succeeds
    #[verifier::external_body] pub fn field(self, i: usize) -> (r: Result<Wip<'a>, ReflectError>) requires self.stack().len() > 0
        ensures (exists|n: Seq<char>| #[trigger] field_of(self.stack().last(), n) == Some(i as int)) ==> r is Ok,
            r matches Ok(w) ==> w.stack() == self.stack().push(field_shape(self.stack().last(), i as int)) && w.trail() == self.trail().push(Ev::Field(i as int))
                && (!self.touched().last().contains(i as int) ==> w.fresh() && w.touched() == self.touched().drop_last().push(self.touched().last().insert(i as int)).push(Set::empty())) { unimplemented!() }
    #[verifier::external_body] pub fn pop(self) -> (r: Result<Wip<'a>, ReflectError>)
        ensures self.stack().len() > 1 ==> r is Ok, r matches Ok(w) ==> w.stack() == self.stack().drop_last() && w.touched() == self.touched().drop_last() && w.trail() == self.trail().push(Ev::Pop) { unimplemented!() }
}
/// a value being finished: complete or refused (R02, R03)
#[verifier::external_body]
pub struct HeapValue<'a> { x: &'a u8 }
impl<'a> HeapValue<'a> {
    pub uninterp spec fn trail(&self) -> Seq<Ev>;
    pub uninterp spec fn sh(&self) -> Shape;
    #[verifier::external_body] pub fn materialize<T: Facet>(self) -> (r: Result<T, ReflectError>)
        ensures ty(self.sh()) == T::tid() ==> r is Ok, r matches Ok(v) ==> built(v, self.trail()) { unimplemented!() }
}
/// the value of type T that these stores make
pub uninterp spec fn built<T>(v: T, evs: Seq<Ev>) -> bool;
/// these stores initialise everything a value of that shape has
pub uninterp spec fn complete(sh: Shape, evs: Seq<Ev>) -> bool;
impl<'a> Wip<'a> {
    #[verifier::external_body] pub fn alloc<T: Facet>() -> (r: Wip<'a>)
        ensures r.stack().len() == 1, ty(r.stack().last()) == T::tid(), r.fresh(), r.touched() =~= seq![Set::empty()], r.trail() =~= Seq::<Ev>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn build(self) -> (r: Result<HeapValue<'a>, ReflectError>) requires self.stack().len() == 1
        ensures r is Ok == complete(self.stack().last(), self.trail()), r matches Ok(h) ==> h.trail() == self.trail() && h.sh() == self.stack().last() { unimplemented!() }
}
pub trait OrUnsupported<X> { fn or_unsupported(self) -> (r: Result<X, DecodeError>); }
impl<X> OrUnsupported<X> for Result<X, ReflectError> { fn or_unsupported(self) -> (r: Result<X, DecodeError>) ensures r is Ok == self is Ok, r matches Ok(x) ==> self == Ok::<X, ReflectError>(x) { match self { Ok(x) => Ok(x), Err(_) => Err(DecodeError::InvalidData) } } }
#[verifier::external_body]
fn text_of(s: &Shape) -> (r: String) { unimplemented!() }

// ---- what decoding must do with the value at `o` for a place of shape sh
pub open spec fn ints(r: Option<(int, int)>, lo: int, hi: int) -> Option<(int, Seq<Ev>)> { match r { Some((e, n)) => if lo <= n <= hi { Some((e, seq![Ev::Put(Val::Int(n))])) } else { None }, None => None } }
pub open spec fn decode(s: Seq<u8>, o: int, sh: Shape) -> Option<(int, Seq<Ev>)> decreases s.len() - o, 0nat
{
    match sh.def {
        Def::Scalar(_) => {
            if ty(sh) == 10 { match string_at(s, o) { Some((e, t)) => Some((e, seq![Ev::Put(Val::Str(t))])), None => None } }
            else if ty(sh) == 9 { match bool_at(s, o) { Some((e, b)) => Some((e, seq![Ev::Put(Val::Bool(b))])), None => None } }
            else if ty(sh) == 1 { ints(uint_at(s, o), 0, u64::MAX as int) }
            else if ty(sh) == 2 { ints(uint_at(s, o), 0, u32::MAX as int) }
            else if ty(sh) == 3 { ints(uint_at(s, o), 0, u16::MAX as int) }
            else if ty(sh) == 4 { ints(uint_at(s, o), 0, u8::MAX as int) }
            else if ty(sh) == 5 { ints(int_at(s, o), i64::MIN as int, i64::MAX as int) }
            else if ty(sh) == 6 { ints(int_at(s, o), i32::MIN as int, i32::MAX as int) }
            else if ty(sh) == 7 { ints(int_at(s, o), i16::MIN as int, i16::MAX as int) }
            else if ty(sh) == 8 { ints(int_at(s, o), i8::MIN as int, i8::MAX as int) }
            else { None }
        }
        Def::Struct(_) => match count_at(s, o, true) { Some((e, n)) => if o < e <= s.len() { members(s, e, sh, n as nat, Set::empty()) } else { None }, None => None },
        _ => None,
    }
}
/// n members of a map, each a name and a value; a value whose name is no field is skipped
pub open spec fn members(s: Seq<u8>, o: int, sh: Shape, n: nat, seen: Set<int>) -> Option<(int, Seq<Ev>)> decreases s.len() - o, n
{
    if n == 0 { Some((o, seq![])) } else {
        match string_at(s, o) {
            Some((e, name)) => if o < e <= s.len() { match field_of(sh, name) {
                Some(i) => if seen.contains(i) { None } else { match decode(s, e, field_shape(sh, i)) {
                    Some((e2, evs)) => if e < e2 <= s.len() { match members(s, e2, sh, (n - 1) as nat, seen.insert(i)) { Some((e3, more)) => Some((e3, seq![Ev::Field(i)] + evs + seq![Ev::Pop] + more)), None => None } } else { None },
                    None => None } },
                None => match value_end(s, e) { Some(e2) => if e < e2 <= s.len() { members(s, e2, sh, (n - 1) as nat, seen) } else { None }, None => None },
            } } else { None },
            None => None,
        } }
}
/// after some members: the result of all of them is what was done so far followed by the result of the others
#[verifier::opaque]
pub open spec fn rest(s: Seq<u8>, e: int, sh: Shape, n: nat, o: int, left: nat, seen: Set<int>, now: Seq<Ev>, start: Seq<Ev>) -> bool {
    match members(s, e, sh, n, Set::empty()) {
        Some((end, evs)) => members(s, o, sh, left, seen) matches Some((end2, more)) && end == end2 && start + evs =~= now + more,
        None => members(s, o, sh, left, seen) is None,
    }
}
pub proof fn lemma_first(s: Seq<u8>, e: int, sh: Shape, n: nat, now: Seq<Ev>)
    ensures rest(s, e, sh, n, e, n, Set::empty(), now, now)
{ reveal(rest); }
pub proof fn lemma_last(s: Seq<u8>, e: int, sh: Shape, n: nat, o: int, seen: Set<int>, now: Seq<Ev>, start: Seq<Ev>)
    requires rest(s, e, sh, n, o, 0, seen, now, start)
    ensures members(s, e, sh, n, Set::empty()) matches Some((e2, evs)) && e2 == o && now =~= start + evs
{ reveal(rest); }
/// one more member
pub proof fn lemma_step(s: Seq<u8>, e: int, sh: Shape, n: nat, o: int, left: nat, seen: Set<int>, now: Seq<Ev>, start: Seq<Ev>)
    requires rest(s, e, sh, n, o, left, seen, now, start), left > 0
    ensures match string_at(s, o) {
        None => members(s, e, sh, n, Set::empty()) is None,
        Some((e1, name)) => o < e1 <= s.len() && match field_of(sh, name) {
            Some(i) => if seen.contains(i) { members(s, e, sh, n, Set::empty()) is None } else { match decode(s, e1, field_shape(sh, i)) { None => members(s, e, sh, n, Set::empty()) is None, Some((e2, evs)) => e1 < e2 <= s.len() } },
            None => match value_end(s, e1) { None => members(s, e, sh, n, Set::empty()) is None, Some(e2) => e1 < e2 <= s.len() },
        } }
{
    reveal(rest);
    lemma_decode(s, o, sh);
    match string_at(s, o) { Some((e1, name)) => match field_of(sh, name) { Some(i) => { lemma_decode(s, e1, field_shape(sh, i)); } None => { lemma_grammar(s, e1, 1, 0); } }, None => {} }
}
pub open spec fn went(s: Seq<u8>, sh: Shape, o: int, o2: int, seen: Set<int>, seen2: Set<int>, now: Seq<Ev>, now2: Seq<Ev>) -> bool {
    string_at(s, o) matches Some((e1, name)) && match field_of(sh, name) {
        Some(i) => !seen.contains(i) && seen2 =~= seen.insert(i) && (decode(s, e1, field_shape(sh, i)) matches Some((e2, evs)) && e2 == o2 && now2 =~= (now.push(Ev::Field(i)) + evs).push(Ev::Pop)),
        None => value_end(s, e1) == Some(o2) && now2 == now && seen2 == seen }
}
pub proof fn lemma_after(s: Seq<u8>, e: int, sh: Shape, n: nat, o: int, left: nat, seen: Set<int>, now: Seq<Ev>, start: Seq<Ev>, o2: int, seen2: Set<int>, now2: Seq<Ev>)
    requires rest(s, e, sh, n, o, left, seen, now, start), left > 0, went(s, sh, o, o2, seen, seen2, now, now2)
    ensures rest(s, e, sh, n, o2, (left - 1) as nat, seen2, now2, start)
{
    lemma_step(s, e, sh, n, o, left, seen, now, start);
    reveal(rest);
    let (e1, name) = string_at(s, o).unwrap();
    match field_of(sh, name) { Some(i) => { let (e2, evs) = decode(s, e1, field_shape(sh, i)).unwrap();
        match members(s, e2, sh, (left - 1) as nat, seen2) { Some((e3, more)) => { assert(now + (seq![Ev::Field(i)] + evs + seq![Ev::Pop] + more) =~= now2 + more); } None => {} } } None => {} }
}
pub proof fn lemma_decode(s: Seq<u8>, o: int, sh: Shape)
    ensures decode(s, o, sh) matches Some((e, evs)) ==> o < e <= s.len(), string_at(s, o) matches Some((e, t)) ==> o < e <= s.len(), count_at(s, o, true) matches Some((e, n)) ==> o < e <= s.len() && n >= 0
    decreases s.len() - o, 1nat
{
    assert(forall|i: int, n: int| be(s, i, n) >= 0);
    match count_at(s, o, true) { Some((e, n)) => { lemma_members(s, e, sh, n as nat, Set::empty()); } None => {} }
}
pub proof fn lemma_members(s: Seq<u8>, o: int, sh: Shape, n: nat, seen: Set<int>)
    requires o <= s.len()
    ensures members(s, o, sh, n, seen) matches Some((e, evs)) ==> o <= e <= s.len()
    decreases s.len() - o, n
{
    if n > 0 { match string_at(s, o) { Some((e, name)) => if o < e <= s.len() { match field_of(sh, name) {
        Some(i) => match decode(s, e, field_shape(sh, i)) { Some((e2, evs)) => if e < e2 <= s.len() { lemma_members(s, e2, sh, (n - 1) as nat, seen.insert(i)); }, None => {} },
        None => match value_end(s, e) { Some(e2) => if e < e2 <= s.len() { lemma_members(s, e2, sh, (n - 1) as nat, seen); }, None => {} } } }, None => {} } }
}

// ---- encoder
/// n as w big-endian bytes
pub open spec fn bes(n: int, w: nat) -> Seq<u8> decreases w { if w == 0 { seq![] } else { bes(n / 256, (w - 1) as nat).push((n % 256) as u8) } }
/// the shortest encoding of an integer
pub open spec fn enc_int(n: int) -> Seq<u8> {
    if 0 <= n <= 127 { seq![n as u8] } else if -32 <= n < 0 { seq![(n + 256) as u8] }
    else if 0 <= n <= 0xff { seq![0xccu8] + bes(n, 1) } else if 0 <= n <= 0xffff { seq![0xcdu8] + bes(n, 2) } else if 0 <= n <= 0xffff_ffff { seq![0xceu8] + bes(n, 4) } else if 0 <= n { seq![0xcfu8] + bes(n, 8) }
    else if -0x80 <= n { seq![0xd0u8] + bes(n + 0x100, 1) } else if -0x8000 <= n { seq![0xd1u8] + bes(n + 0x1_0000, 2) }
    else if -0x8000_0000 <= n { seq![0xd2u8] + bes(n + 0x1_0000_0000, 4) } else { seq![0xd3u8] + bes(n + 0x1_0000_0000_0000_0000, 8) } }
/// UTF-8 bytes of a text, and how long they are
pub uninterp spec fn utf8_of(t: Seq<char>) -> Seq<u8>;
/// assumed of the standard library: decoding what was encoded gives the text back
#[verifier::external_body]
pub proof fn axiom_utf8(t: Seq<char>) ensures text(utf8_of(t)) == Some(t) {}
pub open spec fn enc_len(n: int) -> Seq<u8> { if n <= 31 { seq![(0xa0 + n) as u8] } else if n <= 0xff { seq![0xd9u8] + bes(n, 1) } else if n <= 0xffff { seq![0xdau8] + bes(n, 2) } else { seq![0xdbu8] + bes(n, 4) } }
pub open spec fn enc_str(t: Seq<char>) -> Seq<u8> { enc_len(utf8_of(t).len() as int) + utf8_of(t) }
pub open spec fn enc_map(n: int) -> Seq<u8> { if n <= 15 { seq![(0x80 + n) as u8] } else if n <= 0xffff { seq![0xdeu8] + bes(n, 2) } else { seq![0xdfu8] + bes(n, 4) } }
/// contract of a writer into memory
pub trait Write { spec fn out(&self) -> Seq<u8>; fn write_all(&mut self, b: &[u8]) -> (r: Result<(), io::Error>) ensures final(self).out() == old(self).out() + b@, r is Ok; }
pub mod io { #[derive(Debug)] pub struct Error { x: u8 } pub type Result<T> = core::result::Result<T, Error>; }
pub trait BeBytes<const N: usize>: Sized { spec fn num(self) -> int; fn to_be_v(self) -> (r: [u8; N]) ensures r@ == bes(self.num(), N as nat); }
impl BeBytes<2> for u16 { open spec fn num(self) -> int { self as int } #[verifier::external_body] fn to_be_v(self) -> (r: [u8; 2]) { unimplemented!() } }
impl BeBytes<4> for u32 { open spec fn num(self) -> int { self as int } #[verifier::external_body] fn to_be_v(self) -> (r: [u8; 4]) { unimplemented!() } }
impl BeBytes<8> for u64 { open spec fn num(self) -> int { self as int } #[verifier::external_body] fn to_be_v(self) -> (r: [u8; 8]) { unimplemented!() } }
impl BeBytes<2> for i16 { open spec fn num(self) -> int { if self < 0 { self + 0x1_0000 } else { self as int } } #[verifier::external_body] fn to_be_v(self) -> (r: [u8; 2]) { unimplemented!() } }
impl BeBytes<4> for i32 { open spec fn num(self) -> int { if self < 0 { self + 0x1_0000_0000 } else { self as int } } #[verifier::external_body] fn to_be_v(self) -> (r: [u8; 4]) { unimplemented!() } }
impl BeBytes<8> for i64 { open spec fn num(self) -> int { if self < 0 { self + 0x1_0000_0000_0000_0000 } else { self as int } } #[verifier::external_body] fn to_be_v(self) -> (r: [u8; 8]) { unimplemented!() } }
#[verifier::external_body]
fn bytes_of(s: &str) -> (r: &[u8]) ensures r@ == utf8_of(s@) { unimplemented!() }
pub proof fn lemma_bes(n: int) ensures bes(n, 1) == seq![(n % 256) as u8], bes(n, 2).len() == 2, bes(n, 4).len() == 4, bes(n, 8).len() == 8
{ reveal_with_fuel(bes, 9); assert(bes(n, 1) =~= seq![(n % 256) as u8]); }

// ---- a value as the encoder sees it
pub enum V { Leaf(Val), Struct(Seq<(Seq<char>, V)>), Other }
pub open spec fn supported(v: V) -> bool decreases v { match v { V::Leaf(Val::Str(t)) => utf8_of(t).len() < 0x1_0000_0000, V::Leaf(Val::Int(n)) => i64::MIN <= n <= u64::MAX, V::Leaf(_) => true, V::Struct(ms) => ms.len() < 0x1_0000_0000 && forall|i: int| 0 <= i < ms.len() ==> utf8_of(#[trigger] ms[i].0).len() < 0x1_0000_0000 && supported(ms[i].1), V::Other => false } }
pub open spec fn enc(v: V) -> Seq<u8> decreases v, (match v { V::Struct(ms) => ms.len() + 2, _ => 0 }) { match v {
    V::Leaf(Val::Int(n)) => enc_int(n), V::Leaf(Val::Bool(b)) => if b { seq![0xc3u8] } else { seq![0xc2u8] }, V::Leaf(Val::Str(t)) => enc_str(t),
    V::Struct(ms) => enc_map(ms.len() as int) + enc_ms(v, ms.len()), V::Other => seq![] } }
/// the first n members
pub open spec fn enc_ms(v: V, n: nat) -> Seq<u8> decreases v, n + 1 when v is Struct && n <= v->Struct_0.len() { if n == 0 { seq![] } else { enc_ms(v, (n - 1) as nat) + enc_str(v->Struct_0[n - 1].0) + enc(v->Struct_0[n - 1].1) } }

/// contract of the read-only view (facet_reflect::Peek); property R06 verifies it
#[verifier::external_body]
pub struct Peek<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct PeekStruct<'a> { x: &'a u8 }
impl<'a> Peek<'a> {
    pub uninterp spec fn v(&self) -> V;
    pub uninterp spec fn sh(&self) -> Shape;
    #[verifier::external_body] pub fn shape(&self) -> (r: &'static Shape) ensures *r == self.sh(),
        match r.def { Def::Scalar(_) => (1 <= ty(*r) <= 10) == (self.v() is Leaf) && !(self.v() is Struct), Def::Struct(sd) => self.v() matches V::Struct(ms) && ms.len() == sd.fields.len(), _ => self.v() is Other } { unimplemented!() }
    #[verifier::external_body] pub fn get<T: Facet>(&self) -> (r: Result<&'a T, ReflectError>) ensures ty(self.sh()) == T::tid() ==> r is Ok, r matches Ok(x) ==> self.v() == V::Leaf(x.val()) { unimplemented!() }
    #[verifier::external_body] pub fn into_struct(self) -> (r: Result<PeekStruct<'a>, io::Error>) ensures self.sh().def is Struct ==> r is Ok, r matches Ok(p) ==> p.ms() == self.v()->Struct_0 { unimplemented!() }
}
/// the value itself
pub uninterp spec fn value_of<T>(v: T) -> V;
impl<'a> Peek<'a> { #[verifier::external_body] pub fn new<T: Facet>(value: &'a T) -> (r: Peek<'a>) ensures r.v() == value_of(*value) { unimplemented!() } }
impl Write for Vec<u8> { open spec fn out(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> (r: Result<(), io::Error>) { unimplemented!() } }
impl<'a> PeekStruct<'a> {
    pub uninterp spec fn ms(&self) -> Seq<(Seq<char>, V)>;
    /// the iterator `fields()`: how many it gives and the k-th
    #[verifier::external_body] pub fn count(&self) -> (r: usize) ensures r == self.ms().len() { unimplemented!() }
    #[verifier::external_body] pub fn nth(&self, k: usize) -> (r: (Field, Peek<'a>)) requires k < self.ms().len() ensures r.0.name@ == self.ms()[k as int].0, r.1.v() == self.ms()[k as int].1 { unimplemented!() }
}
#[verifier::external_body]
fn other_error() -> (r: io::Error) { unimplemented!() }

// ---- round trip: what the decoder does with what the encoder writes
pub open spec fn is_at(s: Seq<u8>, o: int, b: Seq<u8>) -> bool { 0 <= o && o + b.len() <= s.len() && forall|i: int| 0 <= i < b.len() ==> s[o + i] == #[trigger] b[i] }
pub open spec fn pw(w: nat) -> int decreases w { if w == 0 { 1 } else { 256 * pw((w - 1) as nat) } }
pub proof fn lemma_be_bes(s: Seq<u8>, o: int, n: int, w: nat)
    requires is_at(s, o, bes(n, w)), 0 <= n < pw(w)
    ensures be(s, o, w as int) == n, bes(n, w).len() == w
    decreases w
{
    if w > 0 {
        let b = bes(n / 256, (w - 1) as nat);
        lemma_bes_len(n / 256, (w - 1) as nat);
        assert(bes(n, w) =~= b.push((n % 256) as u8));
        assert forall|i: int| 0 <= i < b.len() implies s[o + i] == #[trigger] b[i] by { assert(bes(n, w)[i] == b[i]); }
        lemma_be_bes(s, o, n / 256, (w - 1) as nat);
        assert(bes(n, w)[w - 1] == (n % 256) as u8);
    }
}
pub proof fn lemma_bes_len(n: int, w: nat) ensures bes(n, w).len() == w decreases w { if w > 0 { lemma_bes_len(n / 256, (w - 1) as nat); } }
pub proof fn lemma_split(s: Seq<u8>, o: int, a: Seq<u8>, b: Seq<u8>)
    requires is_at(s, o, a + b) ensures is_at(s, o, a), is_at(s, o + a.len(), b)
{
    assert forall|i: int| 0 <= i < a.len() implies s[o + i] == #[trigger] a[i] by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies s[o + a.len() + i] == #[trigger] b[i] by { assert((a + b)[a.len() + i] == b[i]); }
}
/// a prefix byte followed by n in w bytes
pub proof fn lemma_prefixed(s: Seq<u8>, o: int, p: u8, n: int, w: nat)
    requires is_at(s, o, seq![p] + bes(n, w)), 0 <= n < pw(w)
    ensures s[o] == p, be(s, o + 1, w as int) == n, o + 1 + w <= s.len(), (seq![p] + bes(n, w)).len() == 1 + w, 0 <= o
{
    lemma_split(s, o, seq![p], bes(n, w));
    assert(s[o + 0] == seq![p][0]);
    lemma_bes_len(n, w);
    lemma_be_bes(s, o + 1, n, w);
}
pub proof fn lemma_pw() ensures pw(1) == 0x100, pw(2) == 0x1_0000, pw(4) == 0x1_0000_0000, pw(8) == 0x1_0000_0000_0000_0000 { reveal_with_fuel(pw, 9); }
pub proof fn lemma_int(s: Seq<u8>, o: int, n: int)
    requires is_at(s, o, enc_int(n)), i64::MIN <= n <= u64::MAX
    ensures int_at(s, o) == Some((o + enc_int(n).len(), n)), n >= 0 ==> uint_at(s, o) == Some((o + enc_int(n).len(), n)), value_end(s, o) == Some((o + enc_int(n).len()) as int)
{
    lemma_pw();
    assert(enc_int(n).len() > 0);
    if 0 <= n <= 127 { assert(s[o + 0] == enc_int(n)[0]); } else if -32 <= n < 0 { assert(s[o + 0] == enc_int(n)[0]); }
    else if 0 <= n <= 0xff { lemma_prefixed(s, o, 0xcc, n, 1); } else if 0 <= n <= 0xffff { lemma_prefixed(s, o, 0xcd, n, 2); } else if 0 <= n <= 0xffff_ffff { lemma_prefixed(s, o, 0xce, n, 4); } else if 0 <= n { lemma_prefixed(s, o, 0xcf, n, 8); }
    else if -0x80 <= n { lemma_prefixed(s, o, 0xd0, n + 0x100, 1); } else if -0x8000 <= n { lemma_prefixed(s, o, 0xd1, n + 0x1_0000, 2); }
    else if -0x8000_0000 <= n { lemma_prefixed(s, o, 0xd2, n + 0x1_0000_0000, 4); } else { lemma_prefixed(s, o, 0xd3, n + 0x1_0000_0000_0000_0000, 8); }
    reveal_with_fuel(items_end, 2);
}
pub proof fn lemma_str(s: Seq<u8>, o: int, t: Seq<char>)
    requires is_at(s, o, enc_str(t)), utf8_of(t).len() < 0x1_0000_0000
    ensures string_at(s, o) == Some((o + enc_str(t).len(), t)), value_end(s, o) == Some((o + enc_str(t).len()) as int)
{
    lemma_pw();
    let b = utf8_of(t); let n = b.len() as int; let h = enc_len(n);
    lemma_split(s, o, h, b);
    axiom_utf8(t);
    if n <= 31 { assert(s[o + 0] == h[0]); } else if n <= 0xff { lemma_prefixed(s, o, 0xd9, n, 1); } else if n <= 0xffff { lemma_prefixed(s, o, 0xda, n, 2); } else { lemma_prefixed(s, o, 0xdb, n, 4); }
    assert(s.subrange(o + h.len(), o + h.len() + n) =~= b);
    reveal_with_fuel(items_end, 2);
}
pub proof fn lemma_map(s: Seq<u8>, o: int, n: int)
    requires is_at(s, o, enc_map(n)), 0 <= n < 0x1_0000_0000
    ensures count_at(s, o, true) == Some((o + enc_map(n).len(), n)), header(s, o) == Some((o + enc_map(n).len(), (2 * n) as nat))
{
    lemma_pw();
    if n <= 15 { assert(s[o + 0] == enc_map(n)[0]); } else if n <= 0xffff { lemma_prefixed(s, o, 0xde, n, 2); } else { lemma_prefixed(s, o, 0xdf, n, 4); }
}
/// no integer format is shorter
pub proof fn lemma_shortest(s: Seq<u8>, o: int, n: int)
    requires 0 <= o, int_at(s, o) matches Some((e, m)) && m == n, i64::MIN <= n <= u64::MAX
    ensures int_at(s, o)->Some_0.0 - o >= enc_int(n).len()
{ lemma_bes(n); lemma_bes(n + 0x100); lemma_bes(n + 0x1_0000); lemma_bes(n + 0x1_0000_0000); lemma_bes(n + 0x1_0000_0000_0000_0000); lemma_be8(s, o + 1); }
/// the value can be held by a place of that shape: every member whose name is a field fits that field, and no two members name the same field
pub open spec fn fits(v: V, sh: Shape) -> bool decreases v {
    supported(v) && match v {
        V::Leaf(x) => sh.def is Scalar && match x { Val::Str(_) => ty(sh) == 10, Val::Bool(_) => ty(sh) == 9,
            Val::Int(n) => (ty(sh) == 1 && 0 <= n <= u64::MAX) || (ty(sh) == 2 && 0 <= n <= u32::MAX) || (ty(sh) == 3 && 0 <= n <= u16::MAX) || (ty(sh) == 4 && 0 <= n <= u8::MAX)
                || (ty(sh) == 5 && i64::MIN <= n <= i64::MAX) || (ty(sh) == 6 && i32::MIN <= n <= i32::MAX) || (ty(sh) == 7 && i16::MIN <= n <= i16::MAX) || (ty(sh) == 8 && i8::MIN <= n <= i8::MAX) },
        V::Struct(ms) => sh.def is Struct && (forall|i: int| 0 <= i < ms.len() ==> match field_of(sh, #[trigger] ms[i].0) { Some(k) => fits(ms[i].1, field_shape(sh, k)), None => true })
            && forall|i: int, j: int| 0 <= i < j < ms.len() && field_of(sh, #[trigger] ms[i].0) is Some ==> field_of(sh, ms[i].0) != field_of(sh, #[trigger] ms[j].0),
        V::Other => false } }
/// what building the value takes: its leaves put into the fields of their names
pub open spec fn events(v: V, sh: Shape) -> Seq<Ev> decreases v, (match v { V::Struct(ms) => ms.len() + 2, _ => 0 }) {
    match v { V::Leaf(x) => seq![Ev::Put(x)], V::Struct(ms) => events_from(v, sh, 0), V::Other => seq![] } }
pub open spec fn events_from(v: V, sh: Shape, k: nat) -> Seq<Ev> decreases v, v->Struct_0.len() + 1 - k when v is Struct && k <= v->Struct_0.len() {
    if k == v->Struct_0.len() { seq![] } else {
        match field_of(sh, v->Struct_0[k as int].0) { Some(i) => seq![Ev::Field(i)] + events(v->Struct_0[k as int].1, field_shape(sh, i)) + seq![Ev::Pop] + events_from(v, sh, k + 1), None => events_from(v, sh, k + 1) } } }
/// the members from k on, as they are written
pub open spec fn enc_from(v: V, k: nat) -> Seq<u8> decreases v->Struct_0.len() - k when v is Struct && k <= v->Struct_0.len() {
    if k == v->Struct_0.len() { seq![] } else { enc_str(v->Struct_0[k as int].0) + enc(v->Struct_0[k as int].1) + enc_from(v, k + 1) } }
pub proof fn lemma_enc_from(v: V, k: nat)
    requires v is Struct, k <= v->Struct_0.len()
    ensures enc_ms(v, v->Struct_0.len()) =~= enc_ms(v, k) + enc_from(v, k)
    decreases v->Struct_0.len() - k
{ if k < v->Struct_0.len() { lemma_enc_from(v, k + 1); } }
/// ROUND TRIP: decoding the encoding of a value stores exactly its leaves in the fields they name, in whatever order the members were written, and skips members that are no field
pub proof fn round_trip(s: Seq<u8>, o: int, v: V, sh: Shape)
    requires is_at(s, o, enc(v)), fits(v, sh)
    ensures decode(s, o, sh) == Some((o + enc(v).len(), events(v, sh))), enc(v).len() > 0
    decreases v, (match v { V::Struct(ms) => ms.len() + 2, _ => 0 })
{
    match v {
        V::Leaf(Val::Int(n)) => { lemma_int(s, o, n); }
        V::Leaf(Val::Bool(b)) => { assert(s[o + 0] == enc(v)[0]); }
        V::Leaf(Val::Str(t)) => { lemma_str(s, o, t); }
        V::Struct(ms) => {
            lemma_enc_from(v, 0);
            let h = enc_map(ms.len() as int);
            assert(enc(v) =~= h + enc_from(v, 0));
            lemma_split(s, o, h, enc_from(v, 0));
            lemma_map(s, o, ms.len() as int);
            round_trip_members(s, o + h.len(), v, sh, 0, Set::empty());
        }
        V::Other => {}
    }
}
pub proof fn round_trip_members(s: Seq<u8>, o: int, v: V, sh: Shape, k: nat, seen: Set<int>)
    requires v is Struct, k <= v->Struct_0.len(), is_at(s, o, enc_from(v, k)), fits(v, sh),
        forall|j: int| k <= j < v->Struct_0.len() ==> match field_of(sh, #[trigger] v->Struct_0[j].0) { Some(i) => !seen.contains(i), None => true }
    ensures members(s, o, sh, (v->Struct_0.len() - k) as nat, seen) == Some((o + enc_from(v, k).len(), events_from(v, sh, k)))
    decreases v, v->Struct_0.len() + 1 - k
{
    let ms = v->Struct_0;
    if k < ms.len() {
        let (name, m) = ms[k as int];
        let (a, b, c) = (enc_str(name), enc(m), enc_from(v, k + 1));
        assert(enc_from(v, k) =~= a + (b + c));
        lemma_split(s, o, a, b + c);
        lemma_split(s, o + a.len(), b, c);
        lemma_str(s, o, name);
        assert(utf8_of(ms[k as int].0).len() < 0x1_0000_0000);
        match field_of(sh, name) { Some(i) => { round_trip(s, o + a.len(), m, field_shape(sh, i)); } None => { skips(s, o + a.len(), m); } }
        round_trip_members(s, o + a.len() + b.len(), v, sh, k + 1, match field_of(sh, name) { Some(i) => seen.insert(i), None => seen });
    }
}
/// skipping the encoding of a value takes exactly its bytes
pub proof fn skips(s: Seq<u8>, o: int, v: V)
    requires is_at(s, o, enc(v)), supported(v)
    ensures value_end(s, o) == Some((o + enc(v).len()) as int), enc(v).len() > 0
    decreases v, (match v { V::Struct(ms) => ms.len() + 2, _ => 0 })
{
    match v {
        V::Leaf(Val::Int(n)) => { lemma_int(s, o, n); }
        V::Leaf(Val::Bool(b)) => { assert(s[o + 0] == enc(v)[0]); reveal_with_fuel(items_end, 2); }
        V::Leaf(Val::Str(t)) => { lemma_str(s, o, t); }
        V::Struct(ms) => {
            lemma_enc_from(v, 0);
            let h = enc_map(ms.len() as int);
            assert(enc(v) =~= h + enc_from(v, 0));
            lemma_split(s, o, h, enc_from(v, 0));
            lemma_map(s, o, ms.len() as int);
            skips_members(s, o + h.len(), v, 0);
        }
        V::Other => {}
    }
}
pub proof fn skips_members(s: Seq<u8>, o: int, v: V, k: nat)
    requires v is Struct, k <= v->Struct_0.len(), is_at(s, o, enc_from(v, k)), supported(v)
    ensures items_end(s, o, (2 * (v->Struct_0.len() - k)) as nat) == Some((o + enc_from(v, k).len()) as int)
    decreases v, v->Struct_0.len() + 1 - k
{
    let ms = v->Struct_0;
    if k < ms.len() {
        let (name, m) = ms[k as int];
        let (a, b, c) = (enc_str(name), enc(m), enc_from(v, k + 1));
        assert(enc_from(v, k) =~= a + (b + c));
        lemma_split(s, o, a, b + c);
        lemma_split(s, o + a.len(), b, c);
        assert(utf8_of(ms[k as int].0).len() < 0x1_0000_0000);
        lemma_str(s, o, name);
        skips(s, o + a.len(), m);
        skips_members(s, o + a.len() + b.len(), v, k + 1);
        reveal_with_fuel(items_end, 3);
    }
}

//@ subst for \(field, field_peek\) in ps\.fields\(\) \{ ==> for k in 0..ps.count() { let (field, field_peek) = ps.nth(k);
//@ subst (?s)\s*\.map_err\(\|e\| io::Error::new\(io::ErrorKind::Other, e\)\) ==>
//@ subst (?s)io::Error::new\(\s*io::ErrorKind::Other,\s*format!\([^;]*?\),\s*\)(?=\)) ==> other_error()
//@ subst s\.as_bytes\(\) ==> bytes_of(s)
//@ subst \.to_be_bytes\(\) ==> .to_be_v()
//@ subst (?s)pv\s*\.get::<i8>\(\)\? ==> pv.get::<i8>().unwrap()
//@ subst@write_i8 -128\.\.= ==> i8::MIN..=
//@ subst@write_i16 -32768\.\.= ==> i16::MIN..=
//@ subst@write_i32 -2147483648\.\.= ==> i32::MIN..=
//@ subst \.map_err\(\|e\| DecodeError::UnsupportedType\(e\.to_string\(\)\)\) ==> .or_unsupported()
//@ subst trace!\([^;]*\); ==> 
//@ subst format!\("\{(:\?)?\}", shape\) ==> text_of(shape)
//@ subst String::from_utf8\(self\.input\[([^\[\]]*?)\.\.([^\[\]]*?)\]\.to_vec\(\)\)\s*\.map_err\(\|_\| DecodeError::InvalidData\) ==> utf8(self.input, \1, \2)
//@ subst (u16|u32|u64)::from_be_bytes\(\s*self\.input\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\.try_into\(\)\s*\.unwrap\(\),?\s*\) ==> be_\1(self.input, \2, \3)
//@ impl facet-msgpack/src/from_msgpack.rs impl<'input> Decoder<'input>
//@ fn new
    ensures r.input == input, r.offset == 0
//@ fn decode_u8
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => final(self).offset == old(self).offset + 1 && old(self).offset < final(self).input.len() && n == final(self).input@[old(self).offset as int],
                  Err(_) => old(self).offset == final(self).input.len() }
//@ fn decode_u16
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => final(self).offset == old(self).offset + 2 && n == be(final(self).input@, old(self).offset as int, 2),
                  Err(_) => old(self).offset + 2 > final(self).input.len() }
//@ proof decode_u16 start
    proof { axiom_len(self.input); }
//@ fn decode_u32
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => final(self).offset == old(self).offset + 4 && n == be(final(self).input@, old(self).offset as int, 4),
                  Err(_) => old(self).offset + 4 > final(self).input.len() }
//@ proof decode_u32 start
    proof { axiom_len(self.input); }
//@ fn skip_bytes
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(_) => final(self).offset == old(self).offset + len, Err(_) => old(self).offset + len > final(self).input.len() }
//@ fn skip_header
    requires old(self).offset <= old(self).input.len(), *old(pending) <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(_) => header(final(self).input@, old(self).offset as int) == Some((final(self).offset as int, (*final(pending) - *old(pending)) as nat)) && *final(pending) >= *old(pending),
                  Err(_) => header(final(self).input@, old(self).offset as int) is None }
//@ proof skip_header start
    proof {
        axiom_len(self.input);
        lemma_be(self.input@, self.offset + 1);
        if self.offset < self.input.len() {
            let p = self.input@[self.offset as int];
            assert(0xa0 <= p <= 0xbf ==> p & 0x1f == p - 0xa0) by (bit_vector);
            assert(0x80 <= p <= 0x8f ==> p & 0x0f == p - 0x80) by (bit_vector);
            assert(0x90 <= p <= 0x9f ==> p & 0x0f == p - 0x90) by (bit_vector);
        }
    }
//@ fn skip_value
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(_) => value_end(final(self).input@, old(self).offset as int) == Some(final(self).offset as int),
                  Err(_) => value_end(final(self).input@, old(self).offset as int) is None }
//@ proof skip_value start
    let ghost start = self.offset as int;
    proof { axiom_len(self.input); lemma_grammar(self.input@, start, 1, 0); reveal_with_fuel(items_end, 3); }
//@ loop skip_value 0
    invariant self.input == old(self).input, start == old(self).offset, start <= self.offset <= self.input.len(), self.input.len() <= isize::MAX,
        pending <= u64::MAX,
        values_end(self.input@, start, 1) == values_end(self.input@, self.offset as int, pending as nat),
        values_end(self.input@, start, 1) == value_end(self.input@, start)
    decreases self.input.len() - self.offset, pending
//@ proof skip_value loop 0 start
    proof { if pending > self.input.len() - self.offset { lemma_short(self.input@, self.offset as int, pending as nat); } lemma_header(self.input@, self.offset as int); }
//@ fn decode_u64
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => uint_at(final(self).input@, old(self).offset as int) == Some((final(self).offset as int, n as int)), Err(_) => uint_at(final(self).input@, old(self).offset as int) is None }
//@ proof decode_u64 start
    proof { axiom_len(self.input); lemma_be(self.input@, self.offset + 1); lemma_be8(self.input@, self.offset + 1); }
//@ fn decode_i64
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => int_in(final(self).input@, old(self).offset as int) == Some((final(self).offset as int, n as int)), Err(_) => int_in(final(self).input@, old(self).offset as int) is None }
//@ proof decode_i64 start
    proof { axiom_len(self.input); lemma_be(self.input@, self.offset + 1); lemma_be8(self.input@, self.offset + 1);
        cast8(be(self.input@, self.offset + 1, 1) as u8); cast16(be(self.input@, self.offset + 1, 2) as u16); cast32(be(self.input@, self.offset + 1, 4) as u32);
        cast64(be(self.input@, self.offset + 1, 8) as u64); join(be(self.input@, self.offset + 1, 4) as u64, be(self.input@, self.offset + 5, 4) as u64);
        if self.offset < self.input.len() { cast8(self.input@[self.offset as int]); }
 }
//@ fn decode_string
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => string_at(final(self).input@, old(self).offset as int) == Some((final(self).offset as int, n@)), Err(_) => string_at(final(self).input@, old(self).offset as int) is None }
//@ proof decode_string start
    proof { axiom_len(self.input); lemma_be(self.input@, self.offset + 1); lemma_be8(self.input@, self.offset + 1);
        if self.offset < self.input.len() {
            let p = self.input@[self.offset as int];
            assert(0xa0 <= p <= 0xbf ==> p & 0x1f == p - 0xa0) by (bit_vector);
            assert(0x80 <= p <= 0x8f ==> p & 0x0f == p - 0x80) by (bit_vector);
            assert(0x90 <= p <= 0x9f ==> p & 0x0f == p - 0x90) by (bit_vector);
        }
     }
//@ fn decode_map_len
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => count_at(final(self).input@, old(self).offset as int, true) == Some((final(self).offset as int, n as int)), Err(_) => count_at(final(self).input@, old(self).offset as int, true) is None }
//@ proof decode_map_len start
    proof { axiom_len(self.input); lemma_be(self.input@, self.offset + 1); lemma_be8(self.input@, self.offset + 1);
        if self.offset < self.input.len() {
            let p = self.input@[self.offset as int];
            assert(0xa0 <= p <= 0xbf ==> p & 0x1f == p - 0xa0) by (bit_vector);
            assert(0x80 <= p <= 0x8f ==> p & 0x0f == p - 0x80) by (bit_vector);
            assert(0x90 <= p <= 0x9f ==> p & 0x0f == p - 0x90) by (bit_vector);
        }
     }
//@ fn decode_array_len
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => count_at(final(self).input@, old(self).offset as int, false) == Some((final(self).offset as int, n as int)), Err(_) => count_at(final(self).input@, old(self).offset as int, false) is None }
//@ proof decode_array_len start
    proof { axiom_len(self.input); lemma_be(self.input@, self.offset + 1); lemma_be8(self.input@, self.offset + 1);
        if self.offset < self.input.len() {
            let p = self.input@[self.offset as int];
            assert(0xa0 <= p <= 0xbf ==> p & 0x1f == p - 0xa0) by (bit_vector);
            assert(0x80 <= p <= 0x8f ==> p & 0x0f == p - 0x80) by (bit_vector);
            assert(0x90 <= p <= 0x9f ==> p & 0x0f == p - 0x90) by (bit_vector);
        }
     }
//@ fn decode_bool
    requires old(self).offset <= old(self).input.len()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(n) => bool_at(final(self).input@, old(self).offset as int) == Some((final(self).offset as int, n)), Err(_) => bool_at(final(self).input@, old(self).offset as int) is None }
//@ proof decode_bool start
    proof { axiom_len(self.input); lemma_be(self.input@, self.offset + 1); lemma_be8(self.input@, self.offset + 1); }
//@ fn deserialize_value
    requires old(self).offset <= old(self).input.len(), wip.stack().len() > 0, wip.fresh(), wip.touched().len() == wip.stack().len(), wip.touched().last() =~= Set::empty()
    ensures final(self).input == old(self).input, old(self).offset <= final(self).offset <= final(self).input.len(),
        match r { Ok(w) => match decode(final(self).input@, old(self).offset as int, wip.stack().last()) { Some((e, evs)) => e == final(self).offset && w.stack() == wip.stack() && w.touched().len() == w.stack().len() && w.touched().drop_last() =~= wip.touched().drop_last() && w.trail() =~= wip.trail() + evs, None => false },
                  Err(_) => decode(final(self).input@, old(self).offset as int, wip.stack().last()) is None }
    decreases old(self).input.len() - old(self).offset
//@ proof deserialize_value start
    let ghost sh = wip.stack().last();
    let ghost wip0 = wip;
    let ghost start = self.offset as int;
    let ghost mut got: Set<int> = Set::empty();
    proof { lemma_decode(self.input@, start, sh); }
//@ proof deserialize_value before loop 0
    let ghost e = self.offset as int;
    let ghost input = self.input;
    proof { lemma_first(self.input@, e, sh, map_len as nat, wip.trail()); }
//@ loop deserialize_value 0
    invariant self.input == input, input == old(self).input, start < self.offset <= self.input.len(), start == old(self).offset, sh == wip0.stack().last(), wip0.stack().len() > 0,
        wip.stack() == wip0.stack(), wip.touched().len() == wip.stack().len(), wip.touched().last() =~= got, wip.touched().drop_last() =~= wip0.touched().drop_last(),
        sh.def == Def::Struct(def), seen.len() == def.fields.len(), forall|i: int| 0 <= i < seen.len() ==> seen[i] == got.contains(i),
        start < e <= self.input.len(), sh.def is Struct, count_at(input@, start, true) == Some((e, map_len as int)),
        rest(input@, e, sh, map_len as nat, self.offset as int, (map_len - it.index@) as nat, got, wip.trail(), wip0.trail())
//@ proof deserialize_value loop 0 start
    let ghost (o0, now0, got0) = (self.offset as int, wip.trail(), got);
    proof { lemma_step(input@, e, sh, map_len as nat, o0, (map_len - it.index@) as nat, got, now0, wip0.trail());
        if let Some((e1, name)) = string_at(input@, o0) { if let Some(i) = field_of(sh, name) { got = got.insert(i); } } }
//@ proof deserialize_value loop 0 end
    assert(went(input@, sh, o0, self.offset as int, got0, got, now0, wip.trail()));
    lemma_after(input@, e, sh, map_len as nat, o0, (map_len - it.index@) as nat, got0, now0, wip0.trail(), self.offset as int, got, wip.trail());
//@ proof deserialize_value after loop 0
    proof { lemma_last(input@, e, sh, map_len as nat, self.offset as int, got, wip.trail(), wip0.trail()); }
//@ attr deserialize_value #[verifier::loop_isolation(false)]
//@ free facet-msgpack/src/from_msgpack.rs
//@ fn from_slice_value
    requires wip.stack().len() == 1, wip.fresh(), wip.touched() =~= seq![Set::empty()]
    ensures match r { Ok(h) => (decode(msgpack@, 0, wip.stack().last()) matches Some((e, evs)) && h.trail() =~= wip.trail() + evs && h.sh() == wip.stack().last() && complete(h.sh(), h.trail())),
                      Err(_) => decode(msgpack@, 0, wip.stack().last()) matches Some((e, evs)) ==> !complete(wip.stack().last(), wip.trail() + evs) }
//@ fn from_slice
    ensures match r { Ok(v) => exists|sh: Shape| ty(sh) == T::tid() && (#[trigger] decode(msgpack@, 0, sh) matches Some((e, evs)) && complete(sh, evs) && built(v, evs)),
                      Err(_) => exists|sh: Shape| ty(sh) == T::tid() && (#[trigger] decode(msgpack@, 0, sh) matches Some((e, evs)) ==> !complete(sh, evs)) }
//@ free facet-msgpack/src/to_msgpack.rs
//@ fn to_vec
    requires supported(value_of(*value))
    ensures r@ =~= enc(value_of(*value))
//@ fn write_u8
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_u8 start
    proof { lemma_bes(n as int); }
//@ fn write_u16
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_u16 start
    proof { lemma_bes(n as int); }
//@ fn write_u32
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_u32 start
    proof { lemma_bes(n as int); }
//@ fn write_u64
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_u64 start
    proof { lemma_bes(n as int); }
//@ fn write_i8
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_i8 start
    proof { lemma_bes(n as int); lemma_bes(n as int + 0x100); 
        assert(n < 0 && n >= -128 ==> (n as u8) == n + 0x100) by(bit_vector); }
//@ fn write_i16
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_i16 start
    proof { lemma_bes(n as int); lemma_bes(n as int + 0x100); lemma_bes(n as int + 0x1_0000);
        assert(n < 0 && n >= -128 ==> (n as u8) == n + 0x100) by(bit_vector); }
//@ fn write_i32
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_i32 start
    proof { lemma_bes(n as int); lemma_bes(n as int + 0x100); lemma_bes(n as int + 0x1_0000);
        assert(n < 0 && n >= -128 ==> (n as u8) == n + 0x100) by(bit_vector); }
//@ fn write_i64
    
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_int(n as int)
//@ proof write_i64 start
    proof { lemma_bes(n as int); lemma_bes(n as int + 0x100); lemma_bes(n as int + 0x1_0000);
        assert(n < 0 && n >= -128 ==> (n as u8) == n + 0x100) by(bit_vector); }
//@ fn write_map_len
    requires len < 0x1_0000_0000
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_map(len as int)
//@ proof write_map_len start
    proof { assert(0 <= len <= 15 ==> 0x80u8 | (len as u8) == 0x80 + len) by(bit_vector); }
//@ fn write_str
    requires utf8_of(s@).len() < 0x1_0000_0000
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc_str(s@)
//@ proof write_str start
    proof { lemma_bes(utf8_of(s@).len() as int); assert(forall|len: usize| len <= 31 ==> 0xa0u8 | (#[trigger] (len as u8)) == 0xa0 + len) by(bit_vector); }
//@ fn serialize
    requires supported(pv.v())
    ensures r is Ok, final(writer).out() =~= old(writer).out() + enc(pv.v())
    decreases pv.v()
//@ loop serialize 0
    invariant pv.v() is Struct, pv.v()->Struct_0 == ps.ms(), supported(pv.v()), writer.out() =~= old(writer).out() + enc_map(ps.ms().len() as int) + enc_ms(pv.v(), k as nat)
//@ attr serialize #[verifier::loop_isolation(false)]
