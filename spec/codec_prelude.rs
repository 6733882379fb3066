#![allow(non_camel_case_types, non_snake_case, unused, unreachable_code)]
use vstd::prelude::*;
macro_rules! vx_vec { ($v:expr; $n:expr) => { vx_vec_fill($v, $n) }; }
// the arguments are evaluated, the text is left unspecified
macro_rules! vx_format { ($f:literal $(, $a:expr)* $(,)?) => {{ $( let _ = &$a; )* vx_fmt_any() }}; }
verus! {

global size_of usize == 8;

// ======================================================================================
// Trusted contracts on std and on the `bytes` crate (assumptions, listed in the evidence)
// ======================================================================================
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]), vx_cloned_seq(s@, r@);
// a clone of a byte sequence is the same byte sequence
pub uninterp spec fn vx_cloned_seq<T>(a: Seq<T>, b: Seq<T>) -> bool;
pub broadcast axiom fn vx_cloned_u8(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] vx_cloned_seq(a, b) ==> a == b;
// `self == &true` with `self: &mut bool`
pub axiom fn vx_eq_mut_bool()
    ensures <&mut bool as vstd::std_specs::cmp::PartialEqSpec<&bool>>::obeys_eq_spec(),
        forall|x: &&mut bool, y: &&bool| #[trigger] <&mut bool as vstd::std_specs::cmp::PartialEqSpec<&bool>>::eq_spec(x, y) == (vx_mb(*x) == **y);
pub open spec fn vx_mb(x: &mut bool) -> bool { *x }

pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);

// what String::from_utf8_lossy yields on bytes that are not UTF-8 is left unspecified
pub uninterp spec fn vx_lossy(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn vx_lossy_valid(b: Seq<u8>)
    ensures vstd::utf8::valid_utf8(b) ==> #[trigger] vx_lossy(b) == vstd::utf8::decode_utf8(b);

pub struct VxCow { pub s: String }
impl VxCow {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.s@ { self.s.clone() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self.s@ { self.s }
}
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &[u8]) -> (r: VxCow) ensures r.s@ == vx_lossy(b@)
{ VxCow { s: String::from_utf8_lossy(b).to_string() } }

// memory: no buffer is longer than isize::MAX bytes, and a function under contract may only
// allocate `vec![v; n]` when a buffer of at least that length already exists
pub uninterp spec fn vx_mem() -> nat;
pub broadcast axiom fn vx_mem_slice(s: &[u8])
    ensures #[trigger] s@.len() <= vx_mem(), vx_mem() <= isize::MAX;
pub broadcast axiom fn vx_mem_vec(s: Vec<u8>)
    ensures #[trigger] s@.len() <= vx_mem(), vx_mem() <= isize::MAX;
#[verifier::external_body]
pub fn vx_vec_fill<T: Copy>(v: T, n: usize) -> (r: Vec<T>)
    requires n <= vx_mem(),
    ensures r@ == Seq::new(n as nat, |i: int| v)
{ vec![v; n] }

pub axiom fn vx_alloc_u8(v: &Vec<u8>) ensures v@.len() * 1 <= isize::MAX;
pub axiom fn vx_alloc_i8(v: &Vec<i8>) ensures v@.len() * 1 <= isize::MAX;
pub axiom fn vx_alloc_bool(v: &Vec<bool>) ensures v@.len() * 1 <= isize::MAX;
pub axiom fn vx_alloc_u16(v: &Vec<u16>) ensures v@.len() * 2 <= isize::MAX;
pub axiom fn vx_alloc_i16(v: &Vec<i16>) ensures v@.len() * 2 <= isize::MAX;
pub axiom fn vx_alloc_u32(v: &Vec<u32>) ensures v@.len() * 4 <= isize::MAX;
pub axiom fn vx_alloc_i32(v: &Vec<i32>) ensures v@.len() * 4 <= isize::MAX;
pub axiom fn vx_alloc_f32(v: &Vec<f32>) ensures v@.len() * 4 <= isize::MAX;
pub axiom fn vx_alloc_u64(v: &Vec<u64>) ensures v@.len() * 8 <= isize::MAX;
pub axiom fn vx_alloc_i64(v: &Vec<i64>) ensures v@.len() * 8 <= isize::MAX;
pub axiom fn vx_alloc_f64(v: &Vec<f64>) ensures v@.len() * 8 <= isize::MAX;
pub axiom fn vx_size_float() ensures vstd::layout::size_of::<f32>() == 4, vstd::layout::size_of::<f64>() == 8;

// Vec::drain(a..).collect()
pub struct VxDrain<T> { pub v: Vec<T> }
impl<T> VxDrain<T> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.v@ { self.v }
}
pub trait VxDrainExt<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_drain(&mut self, r: std::ops::RangeFrom<usize>) -> (d: VxDrain<T>)
        requires r.start <= old(self).vx_seq().len(),
        ensures d.v@ == old(self).vx_seq().skip(r.start as int),
                final(self).vx_seq() == old(self).vx_seq().take(r.start as int);
}
impl<T> VxDrainExt<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain(&mut self, r: std::ops::RangeFrom<usize>) -> (d: VxDrain<T>) { VxDrain { v: self.drain(r).collect() } }
}

// Vec::extend_from_slice of bytes
pub trait VxExtendExt {
    spec fn vx_bytes(&self) -> Seq<u8>;
    fn vx_extend(&mut self, s: &[u8]) ensures final(self).vx_bytes() == old(self).vx_bytes() + s@;
}
impl VxExtendExt for Vec<u8> {
    open spec fn vx_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, s: &[u8]) { self.extend_from_slice(s) }
}

// clock: its reading is arbitrary; duration_since fails only if the clock is before 1970
pub uninterp spec fn vx_clock_ok() -> bool;
pub struct SystemTime { }
pub struct VxDuration { pub s: u64 }
pub struct VxTimeError { }
pub const UNIX_EPOCH: SystemTime = SystemTime { };
impl SystemTime {
    #[verifier::external_body]
    pub fn now() -> SystemTime { SystemTime { } }
    #[verifier::external_body]
    pub fn duration_since(&self, e: SystemTime) -> (r: Result<VxDuration, VxTimeError>)
        ensures vx_clock_ok() ==> r is Ok
    { unimplemented!() }
}
impl VxDuration {
    #[verifier::external_body]
    pub fn as_secs(&self) -> u64 { unimplemented!() }
}
impl VxTimeError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
pub struct VxIntError { }
#[verifier::external_body]
pub fn vx_fmt_any() -> String { String::new() }

// ======================================================================================
// Little-endian layout
// ======================================================================================
pub open spec fn vx_le_u8(v: u8) -> Seq<u8> { seq![v] }
pub open spec fn vx_un_u8(b: Seq<u8>) -> u8 { b[0] }
pub open spec fn vx_le_u16(v: u16) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8] }
pub open spec fn vx_un_u16(b: Seq<u8>) -> u16 { (b[0] as u16) | ((b[1] as u16) << 8) }
pub open spec fn vx_le_u32(v: u32) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8] }
pub open spec fn vx_un_u32(b: Seq<u8>) -> u32 { (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24) }
pub open spec fn vx_le_u64(v: u64) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8, ((v >> 32) & 0xff) as u8, ((v >> 40) & 0xff) as u8, ((v >> 48) & 0xff) as u8, ((v >> 56) & 0xff) as u8] }
pub open spec fn vx_un_u64(b: Seq<u8>) -> u64 { (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24) | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56) }
// two's complement
pub open spec fn vx_le_i8(v: i8) -> Seq<u8> { vx_le_u8(if v >= 0 { v as u8 } else { (v + 0x100) as u8 }) }
pub open spec fn vx_un_i8(b: Seq<u8>) -> i8 { let u = vx_un_u8(b); if u < 0x80 { u as i8 } else { (u - 0x100) as i8 } }
pub open spec fn vx_le_i16(v: i16) -> Seq<u8> { vx_le_u16(if v >= 0 { v as u16 } else { (v + 0x1_0000) as u16 }) }
pub open spec fn vx_un_i16(b: Seq<u8>) -> i16 { let u = vx_un_u16(b); if u < 0x8000 { u as i16 } else { (u - 0x1_0000) as i16 } }
pub open spec fn vx_le_i32(v: i32) -> Seq<u8> { vx_le_u32(if v >= 0 { v as u32 } else { (v + 0x1_0000_0000) as u32 }) }
pub open spec fn vx_un_i32(b: Seq<u8>) -> i32 { let u = vx_un_u32(b); if u < 0x8000_0000 { u as i32 } else { (u - 0x1_0000_0000) as i32 } }
pub open spec fn vx_le_i64(v: i64) -> Seq<u8> { vx_le_u64(if v >= 0 { v as u64 } else { (v + 0x1_0000_0000_0000_0000) as u64 }) }
pub open spec fn vx_un_i64(b: Seq<u8>) -> i64 { let u = vx_un_u64(b); if u < 0x8000_0000_0000_0000 { u as i64 } else { (u - 0x1_0000_0000_0000_0000) as i64 } }
// floats are identified with their bit pattern
pub open spec fn vx_le_f32(v: u32) -> Seq<u8> { vx_le_u32(v) }
pub open spec fn vx_un_f32(b: Seq<u8>) -> u32 { vx_un_u32(b) }
pub open spec fn vx_le_f64(v: u64) -> Seq<u8> { vx_le_u64(v) }
pub open spec fn vx_un_f64(b: Seq<u8>) -> u64 { vx_un_u64(b) }
pub open spec fn vx_le_bool(v: bool) -> Seq<u8> { seq![if v { 1u8 } else { 0u8 }] }
pub open spec fn vx_un_bool(b: Seq<u8>) -> bool { b[0] != 0 }

// ======================================================================================
// Mathematical value of every runtime type
// ======================================================================================
pub trait VxDv { type V; spec fn dv(&self) -> Self::V; }
impl VxDv for u8 { type V = u8; open spec fn dv(&self) -> u8 { *self } }
impl VxDv for u16 { type V = u16; open spec fn dv(&self) -> u16 { *self } }
impl VxDv for u32 { type V = u32; open spec fn dv(&self) -> u32 { *self } }
impl VxDv for u64 { type V = u64; open spec fn dv(&self) -> u64 { *self } }
impl VxDv for i8 { type V = i8; open spec fn dv(&self) -> i8 { *self } }
impl VxDv for i16 { type V = i16; open spec fn dv(&self) -> i16 { *self } }
impl VxDv for i32 { type V = i32; open spec fn dv(&self) -> i32 { *self } }
impl VxDv for i64 { type V = i64; open spec fn dv(&self) -> i64 { *self } }
impl VxDv for bool { type V = bool; open spec fn dv(&self) -> bool { *self } }
impl VxDv for f32 { type V = u32; open spec fn dv(&self) -> u32 { vstd::float::FloatBitsProperties::to_bits_spec(self) } }
impl VxDv for f64 { type V = u64; open spec fn dv(&self) -> u64 { vstd::float::FloatBitsProperties::to_bits_spec(self) } }
impl VxDv for String { type V = Seq<char>; open spec fn dv(&self) -> Seq<char> { self@ } }
impl<T: VxDv> VxDv for Vec<T> {
    type V = Seq<T::V>;
    open spec fn dv(&self) -> Seq<T::V> { Seq::new(self@.len(), |i: int| self@[i].dv()) }
}
impl<T: VxDv> VxDv for Option<T> {
    type V = Option<T::V>;
    open spec fn dv(&self) -> Option<T::V> { match *self { Some(x) => Some(x.dv()), None => None } }
}

// a clone of a generated value is an equal value (the generated types derive Clone)
pub broadcast axiom fn vx_clone_dv<T: VxDv + Clone>(a: T, b: T) ensures #[trigger] cloned(a, b) ==> a.dv() == b.dv();

pub trait VxLe: VxDv { 
    spec fn vx_le(v: Self::V) -> Seq<u8>;
    spec fn vx_be(v: Self::V) -> Seq<u8>;
    fn vx_to_le_bytes(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == Self::vx_le(self.dv());
    fn vx_to_be_bytes(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == Self::vx_be(self.dv());
}
// @@LE@@

// ======================================================================================
// Cursor<&[u8]> as bytes::Buf (shim with the contracts of the real crate: reading past the end panics)
// ======================================================================================
pub struct Cursor<T> { pub vx_b: T, pub vx_p: u64 }
impl<'a> Cursor<&'a [u8]> {
    pub open spec fn vx_buf(&self) -> Seq<u8> { self.vx_b@ }
    pub open spec fn vx_pos(&self) -> int { self.vx_p as int }
    pub open spec fn vx_has(&self, n: int) -> bool { self.vx_pos() + n <= self.vx_buf().len() }
    pub open spec fn vx_at(&self, n: int) -> Seq<u8> { self.vx_buf().subrange(self.vx_pos(), self.vx_pos() + n) }
    #[verifier::external_body]
    pub fn new(b: &'a [u8]) -> (r: Self) ensures r.vx_buf() == b@, r.vx_pos() == 0 { Cursor { vx_b: b, vx_p: 0 } }
    #[verifier::external_body]
    pub fn position(&self) -> (r: u64) ensures r == self.vx_pos() { self.vx_p }
    #[verifier::external_body]
    pub fn set_position(&mut self, p: u64) ensures final(self).vx_pos() == p, final(self).vx_buf() == old(self).vx_buf() { self.vx_p = p; }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize)
        ensures r == (if self.vx_pos() >= self.vx_buf().len() { 0 } else { self.vx_buf().len() - self.vx_pos() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_remaining(&self) -> (r: bool) ensures r == (self.vx_pos() < self.vx_buf().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires old(self).vx_has(n as int)
        ensures final(self).vx_buf() == old(self).vx_buf(), final(self).vx_pos() == old(self).vx_pos() + n { unimplemented!() }
// @@GET@@
}

// ======================================================================================
// Wire format
// ======================================================================================
pub open spec fn vx_size_bytes(size: ESize) -> Seq<u8> {
    match size {
        ESize::U8(n) => seq![8u8] + vx_le_u8(n),
        ESize::U16(n) => seq![16u8] + vx_le_u16(n),
        ESize::U32(n) => seq![32u8] + vx_le_u32(n),
        ESize::U64(n) => seq![64u8] + vx_le_u64(n),
    }
}
// a field: [id: u16][rank: u8][length: rank bits][body]; without id only the body
pub open spec fn vx_gvb(id: Option<u16>, size: ESize, body: Seq<u8>) -> Seq<u8> {
    match id { None => body, Some(i) => vx_le_u16(i) + vx_size_bytes(size) + body }
}
pub open spec fn vx_size(wide: bool, n: nat) -> ESize { if wide { ESize::U64(n as u64) } else { ESize::U8(n as u8) } }
pub open spec fn vx_vb(id: Option<u16>, wide: bool, body: Seq<u8>) -> Seq<u8> { vx_gvb(id, vx_size(wide, body.len()), body) }

pub open spec fn vx_cat<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { vx_cat(s.drop_last(), f) + f(s.last()) }
}
// items of an array: [length][bytes]...
pub open spec fn vx_lenw(hl: int, n: nat) -> Seq<u8> { if hl == 4 { vx_le_u32(n as u32) } else { vx_le_u64(n as u64) } }
pub open spec fn vx_unlen(hl: int, b: Seq<u8>) -> nat { if hl == 4 { vx_un_u32(b) as nat } else { vx_un_u64(b) as nat } }
pub open spec fn vx_items<V>(b: Seq<u8>, hl: int, p: spec_fn(Seq<u8>) -> Option<V>) -> Option<Seq<V>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) }
    else if hl <= 0 || b.len() < hl { None }
    else {
        let n = vx_unlen(hl, b.subrange(0, hl));
        if b.len() < hl + n { None }
        else {
            match (p(b.subrange(hl, hl + n as int)), vx_items(b.skip(hl + n as int), hl, p)) {
                (Some(v), Some(r)) => Some(seq![v] + r),
                _ => None,
            }
        }
    }
}
pub open spec fn vx_prep<V>(done: Seq<V>, r: Option<Seq<V>>) -> Option<Seq<V>> {
    match r { Some(x) => Some(done + x), None => None }
}

// one field at the start of `s`: (id, body, number of bytes consumed)
pub open spec fn vx_rankw(r: u8) -> int { if r == 8 { 1 } else if r == 16 { 2 } else if r == 32 { 4 } else if r == 64 { 8 } else { 0 } }
pub open spec fn vx_ranklen(r: u8, b: Seq<u8>) -> nat {
    if r == 8 { vx_un_u8(b) as nat } else if r == 16 { vx_un_u16(b) as nat } else if r == 32 { vx_un_u32(b) as nat } else { vx_un_u64(b) as nat }
}
pub open spec fn vx_body(s: Seq<u8>) -> Option<(Seq<u8>, int)> {
    if s.len() < 1 { None }
    else {
        let w = vx_rankw(s[0]);
        if w == 0 || s.len() < 1 + w { None }
        else {
            let n = vx_ranklen(s[0], s.subrange(1, 1 + w));
            if s.len() < 1 + w + n { None } else { Some((s.subrange(1 + w, 1 + w + n as int), 1 + w + n as int)) }
        }
    }
}
pub open spec fn vx_field(s: Seq<u8>) -> Option<(u16, Seq<u8>, int)> {
    if s.len() < 2 { None }
    else { match vx_body(s.skip(2)) { None => None, Some((b, n)) => Some((vx_un_u16(s.subrange(0, 2)), b, 2 + n)) } }
}
pub open spec fn vx_store_acc(s: Seq<u8>, m: Map<u16, Seq<u8>>) -> Option<Map<u16, Seq<u8>>> decreases s.len() {
    if s.len() == 0 { Some(m) }
    else {
        match vx_field(s) {
            None => None,
            Some((id, b, n)) => if n <= 0 || n > s.len() { None } else { vx_store_acc(s.skip(n), m.insert(id, b)) },
        }
    }
}
pub open spec fn vx_store(s: Seq<u8>) -> Option<Map<u16, Seq<u8>>> { vx_store_acc(s, Map::empty()) }

pub open spec fn vx_src(s: Source, id: Option<u16>) -> Option<Seq<u8>> {
    match s {
        Source::Storage(st) => match id { Some(i) => if st.dv().contains_key(i) { Some(st.dv()[i]) } else { None }, None => None },
        Source::Buffer(b) => Some(b@),
    }
}
#[verifier::prophetic]
pub open spec fn vx_frame(s: Source) -> bool {
    match s { Source::Storage(st) => final(st).dv() == st.dv(), Source::Buffer(_) => true }
}
pub open spec fn vx_okv<T: VxDv>(r: Result<T, String>, o: Option<T::V>) -> bool {
    match r { Ok(v) => o == Some(v.dv()), Err(_) => o is None }
}
pub open spec fn vx_sdec<T: StructDecode>(b: Seq<u8>) -> Option<T::V> {
    match vx_store(b) { None => None, Some(m) => T::sd_parse(m) }
}
pub open spec fn vx_p_struct<T: StructDecode>() -> spec_fn(Seq<u8>) -> Option<T::V> { |b: Seq<u8>| vx_sdec::<T>(b) }
pub open spec fn vx_p_enum<T: EnumDecode>() -> spec_fn(Seq<u8>) -> Option<T::V> { |b: Seq<u8>| T::ed_parse(b) }
pub open spec fn vx_p_str() -> spec_fn(Seq<u8>) -> Option<Seq<char>> { |b: Seq<u8>| Some(vx_lossy(b)) }
pub open spec fn vx_f_struct<T: StructEncode>() -> spec_fn(T::V) -> Seq<u8> { |v: T::V| vx_le_u64(T::se_bytes(v).len() as u64) + T::se_bytes(v) }
pub open spec fn vx_f_enum<T: EnumEncode>() -> spec_fn(T::V) -> Seq<u8> { |v: T::V| vx_le_u64(T::ee_bytes(v).len() as u64) + T::ee_bytes(v) }
pub open spec fn vx_f_str() -> spec_fn(Seq<char>) -> Seq<u8> { |v: Seq<char>| vx_le_u32(vstd::utf8::encode_utf8(v).len() as u32) + vstd::utf8::encode_utf8(v) }
// @@FW@@

// packets: [id: u32][signature: u16][sequence: u32][timestamp: u64][length: u64][body]
pub open spec fn vx_packet(id: u32, sig: u16, seq: u32, ts: u64, body: Seq<u8>) -> Seq<u8> {
    Seq::<u8>::empty() + vx_le_u32(id) + vx_le_u16(sig) + vx_le_u32(seq) + vx_le_u64(ts) + vx_le_u64(body.len() as u64) + body
}
// the timestamp is arbitrary, everything else is fixed
pub open spec fn vx_is_packet(b: Seq<u8>, id: u32, sig: u16, seq: u32, body: Seq<u8>) -> bool {
    b.len() >= 26 && b == vx_packet(id, sig, seq, vx_un_u64(b.subrange(10, 18)), body)
}
pub ghost struct VxHdr { pub id: u32, pub sig: u16, pub seq: u32, pub ts: u64, pub len: u64 }
pub open spec fn vx_hdr(b: Seq<u8>) -> VxHdr {
    VxHdr { id: vx_un_u32(b.subrange(0, 4)), sig: vx_un_u16(b.subrange(4, 6)), seq: vx_un_u32(b.subrange(6, 10)),
            ts: vx_un_u64(b.subrange(10, 18)), len: vx_un_u64(b.subrange(18, 26)) }
}

// stream: the messages a byte stream yields, the bytes left over, and whether it stopped on an error
pub ghost struct VxMsgOf<V> { pub hdr: VxHdr, pub msg: V }
pub ghost struct VxRun<V> { pub rest: Seq<u8>, pub out: Seq<VxMsgOf<V>>, pub err: bool }
pub open spec fn vx_run<V>(b: Seq<u8>, sig: u16, parse: spec_fn(u32, Seq<u8>) -> Option<V>) -> VxRun<V> decreases b.len() {
    if b.len() < 26 { VxRun { rest: b, out: Seq::empty(), err: false } }
    else {
        let h = vx_hdr(b);
        if b.len() < 26 + h.len { VxRun { rest: b, out: Seq::empty(), err: false } }
        else {
            let body = b.subrange(26, 26 + h.len as int);
            let rest = b.skip(26 + h.len as int);
            if h.sig != sig { VxRun { rest, out: Seq::empty(), err: true } }
            else {
                match parse(h.id, body) {
                    None => VxRun { rest, out: Seq::empty(), err: true },
                    Some(m) => {
                        let r = vx_run(rest, sig, parse);
                        VxRun { rest: r.rest, out: seq![VxMsgOf { hdr: h, msg: m }] + r.out, err: r.err }
                    }
                }
            }
        }
    }
}
