
// ======================================================================================
// Texts: formatting and comparison (assumed of std)
// ======================================================================================
pub trait VxShow { spec fn vx_s(&self) -> Seq<char>; }
impl VxShow for String { open spec fn vx_s(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn vx_s(&self) -> Seq<char> { self@ } }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn vx_s(&self) -> Seq<char> { (**self).vx_s() } }
// format!("{}{}{}", ..) and format!("{}.{}", ..)
#[verifier::external_body] pub fn vx_cat3<A: VxShow, B: VxShow, C: VxShow>(a: &A, b: &B, c: &C) -> (r: String) ensures r@ == a.vx_s() + b.vx_s() + c.vx_s() { unimplemented!() }
#[verifier::external_body] pub fn vx_cat2<A: VxShow, B: VxShow>(a: &A, b: &B) -> (r: String) ensures r@ == a.vx_s() + ("."@) + b.vx_s() { unimplemented!() }
#[verifier::external_body] pub fn vx_text_eq<A: VxShow + ?Sized, B: VxShow + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.vx_s() == b.vx_s()) { unimplemented!() }
pub trait VxToOwned { fn vx_to_owned(&self) -> String; }
impl VxToOwned for str { #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub trait VxStarts { fn vx_starts_with(&self, c: char) -> bool; }
impl VxStarts for str { #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() } }
impl VxStarts for String { #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() } }
pub trait VxContains<X> { spec fn vx_has(&self, x: X) -> bool; fn vx_contains(&self, x: X) -> (r: bool) ensures r == self.vx_has(x); }
impl VxContains<char> for str { open spec fn vx_has(&self, x: char) -> bool { self@.contains(x) } #[verifier::external_body] fn vx_contains(&self, x: char) -> (r: bool) { unimplemented!() } }
impl VxContains<char> for String { open spec fn vx_has(&self, x: char) -> bool { self@.contains(x) } #[verifier::external_body] fn vx_contains(&self, x: char) -> (r: bool) { unimplemented!() } }
impl<'a> VxContains<&'a Target> for Vec<Target> { open spec fn vx_has(&self, x: &'a Target) -> bool { self@.contains(*x) } #[verifier::external_body] fn vx_contains(&self, x: &'a Target) -> (r: bool) { unimplemented!() } }
// char::is_alphanumeric: all of Unicode; on ASCII it is the letters and the digits
pub uninterp spec fn vx_ualnum(c: char) -> bool;
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == vx_ualnum(c);
pub trait VxCharsAll { spec fn vx_chs(&self) -> Seq<char>; fn vx_chars_all<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures if r { forall|i: int| 0 <= i < self.vx_chs().len() ==> f.ensures((#[trigger] self.vx_chs()[i],), true) } else { exists|i: int| 0 <= i < self.vx_chs().len() && f.ensures((#[trigger] self.vx_chs()[i],), false) }; }
impl VxCharsAll for String { open spec fn vx_chs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars_all<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() } }
impl VxCharsAll for str { open spec fn vx_chs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars_all<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() } }
// UTF-8: the bytes of a text
pub open spec fn vx_clen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub trait VxCharLen { fn vx_len_utf8(self) -> usize; }
impl VxCharLen for char { #[verifier::external_body] fn vx_len_utf8(self) -> (r: usize) ensures r == vx_clen(self) { unimplemented!() } }
#[verifier::opaque]
pub open spec fn vx_bytes(s: Seq<char>, k: int) -> int decreases k { if 0 < k <= s.len() { vx_bytes(s, k - 1) + vx_clen(s[k - 1]) } else { 0 } }
pub axiom fn vx_mem_bytes(s: &String) ensures vx_bytes(s@, s@.len() as int) <= isize::MAX;
pub proof fn vx_bytes_step(s: Seq<char>, k: int) requires 0 <= k < s.len() ensures vx_bytes(s, k + 1) == vx_bytes(s, k) + vx_clen(s[k]), vx_bytes(s, 0) == 0 { reveal_with_fuel(vx_bytes, 2); }
pub proof fn vx_bytes_le(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures 0 <= k <= vx_bytes(s, k) <= vx_bytes(s, s.len() as int), vx_bytes(s, 0) == 0 decreases s.len() - k + k * 2
{ reveal(vx_bytes); vx_bytes_low(s, k); vx_bytes_up(s, k, s.len() as int); }
pub proof fn vx_bytes_low(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures k <= vx_bytes(s, k) decreases k { reveal(vx_bytes); if k > 0 { vx_bytes_low(s, k - 1); } }
pub proof fn vx_bytes_up(s: Seq<char>, k: int, m: int) requires 0 <= k <= m <= s.len() ensures vx_bytes(s, k) + (m - k) <= vx_bytes(s, m) decreases m - k { reveal(vx_bytes); if k < m { vx_bytes_up(s, k, m - 1); } }
/// the bytes of two parts of a text
pub proof fn vx_bytes_skip(s: Seq<char>, a: int, b: int) requires 0 <= a <= s.len(), 0 <= b <= s.len() - a ensures vx_bytes(s, a + b) == vx_bytes(s, a) + vx_bytes(s.skip(a), b) decreases b
{ reveal(vx_bytes); if b > 0 { vx_bytes_skip(s, a, b - 1); assert(s.skip(a)[b - 1] == s[a + b - 1]); } }
pub proof fn vx_bytes_inj(s: Seq<char>, a: int, b: int) requires 0 <= a <= s.len(), 0 <= b <= s.len(), vx_bytes(s, a) == vx_bytes(s, b) ensures a == b
{ if a < b { vx_bytes_up(s, a, b); } else if b < a { vx_bytes_up(s, b, a); } }
/// the character that begins at a byte
pub open spec fn vx_at_byte(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && vx_bytes(s, k) == n }
// &text[n..]: panics unless a character begins there
#[verifier::external_body]
pub fn vx_from(s: &String, n: usize) -> (r: &str)
    requires exists|k: int| vx_at_byte(s@, n as int, k)
    ensures forall|k: int| vx_at_byte(s@, n as int, k) ==> r@ == #[trigger] s@.skip(k)
{ &s[n..] }
#[verifier::external_body]
pub fn vx_range(s: &String, n: usize, m: usize) -> (r: &str)
    requires exists|k: int, l: int| vx_at_byte(s@, n as int, k) && vx_at_byte(s@, m as int, l) && k <= l
    ensures forall|k: int, l: int| vx_at_byte(s@, n as int, k) && vx_at_byte(s@, m as int, l) ==> r@ == #[trigger] s@.subrange(k, l)
{ &s[n..m] }
// String::len: bytes
pub trait VxLen { spec fn vx_l(&self) -> int; fn vx_len(&self) -> (r: usize) ensures r == self.vx_l(); }
impl VxLen for String { open spec fn vx_l(&self) -> int { vx_bytes(self@, self@.len() as int) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VxLen for Vec<T> { open spec fn vx_l(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VxLen for [T] { open spec fn vx_l(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }

// ======================================================================================
// Outside world of the parser
// ======================================================================================
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
/// the text of the file
pub uninterp spec fn vx_file(p: PathBuf) -> Seq<char>;
/// the hash of the file
pub uninterp spec fn vx_hash(p: PathBuf) -> Seq<char>;
pub mod hash { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn get(filename: &PathBuf) -> (r: Result<String, String>) ensures r is Ok ==> r->Ok_0@ == vx_hash(*filename) { unimplemented!() } }
impl Clone for ENext { #[verifier::external_body] fn clone(&self) -> (r: ENext) ensures r == *self { unimplemented!() } }
// the schema of the protocol, seen from the workflow: which references it knows. That `find_by_str_path` answers by
// the definitions of the schema alone is proved with the contracts of the protocol front end (P02).
#[verifier::external_body] pub struct Field { p: usize }
pub struct VxFd { pub name: Seq<char>, pub kind: PrimitiveTypes::ETypes, pub optional: bool }
impl Field {
    pub uninterp spec fn v(&self) -> VxFd;
    #[verifier::external_body] pub fn create_not_assigned_primitive(name: String, kind: PrimitiveTypes::ETypes, optional: bool) -> (r: Field) ensures r.v() == (VxFd { name: name@, kind, optional }) { unimplemented!() } }
pub open spec fn vx_fds(s: Seq<Field>) -> Seq<VxFd> { Seq::new(s.len(), |i: int| s[i].v()) }
pub broadcast proof fn vx_fds0(s: Seq<Field>) requires s.len() == 0 ensures #[trigger] vx_fds(s) == Seq::<VxFd>::empty() { assert(vx_fds(s) =~= Seq::empty()); }
pub broadcast proof fn vx_fds1(s: Seq<Field>) requires s.len() == 1 ensures #[trigger] vx_fds(s) == seq![s[0].v()] { assert(vx_fds(s) =~= seq![s[0].v()]); }
pub broadcast proof fn vx_fds2(s: Seq<Field>) requires s.len() == 2 ensures #[trigger] vx_fds(s) == seq![s[0].v(), s[1].v()] { assert(vx_fds(s) =~= seq![s[0].v(), s[1].v()]); }
/// the schema as it was read, and the service messages added to it
pub struct VxW { pub base: int, pub svc: Map<Seq<char>, Seq<VxFd>> }
/// a dotted reference names something of the schema
pub uninterp spec fn vx_known(w: VxW, path: Seq<char>) -> bool;
#[verifier::external_body] pub struct Protocol { p: usize }
impl Protocol {
    pub uninterp spec fn w(&self) -> VxW;
    #[verifier::external_body] pub fn find_by_str_path(&self, from: usize, path: &str) -> (r: Option<Vec<(String, usize)>>) ensures from == 0 ==> r is Some == vx_known(self.w(), path@) { unimplemented!() }
    #[verifier::external_body] pub fn add_service_struct(&mut self, name: String, fields: Vec<Field>) ensures final(self).w() == vx_serve(old(self).w(), name@, vx_fds(fields@)) { unimplemented!() } }
pub open spec fn vx_serve(w: VxW, name: Seq<char>, fields: Seq<VxFd>) -> VxW { VxW { svc: w.svc.insert(name, fields), ..w } }

// ======================================================================================
// Lexical structure of a workflow file
// ======================================================================================
pub enum VxTok { Word(Seq<char>), Open, Close, OpenBracket, CloseBracket, Arrow, Exclamation, Question, Semi, Dot, Colon }
/// what a text starts with: an error, the end, or a token and the characters it takes
pub enum VxNext { Bad, End, Tok(VxTok, int) }
pub open spec fn vx_wc(c: char) -> bool { vx_alnum(c) || c == '_' || c == '@' || c == '&' }
/// the end of the line
pub open spec fn vx_eol(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && s[i] != '\n' { vx_eol(s, i + 1) } else { i } }
pub proof fn vx_eol_le(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures i <= vx_eol(s, i) <= s.len(), vx_eol(s, i) < s.len() ==> s[vx_eol(s, i)] == '\n' decreases s.len() - i
{ if 0 <= i < s.len() && s[i] != '\n' { vx_eol_le(s, i + 1); } }
/// first position from `i` on that is neither white space nor in a comment
pub open spec fn vx_skip(s: Seq<char>, i: int) -> int decreases s.len() - i via vx_skip_ends {
    if 0 <= i < s.len() && vx_ws(s[i]) { vx_skip(s, i + 1) } else if 0 <= i < s.len() && s[i] == '#' { vx_skip(s, vx_eol(s, i)) } else { i } }
#[via_fn]
proof fn vx_skip_ends(s: Seq<char>, i: int) { if 0 <= i < s.len() { vx_eol_le(s, i); if s[i] == '#' { vx_eol_le(s, i + 1); } } }
pub proof fn vx_skip_le(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures i <= vx_skip(s, i) <= s.len(), vx_skip(s, i) < s.len() ==> !vx_ws(s[vx_skip(s, i)]) && s[vx_skip(s, i)] != '#' decreases s.len() - i
{ if 0 <= i < s.len() && vx_ws(s[i]) { vx_skip_le(s, i + 1); } else if 0 <= i < s.len() && s[i] == '#' { vx_eol_le(s, i); vx_eol_le(s, i + 1); vx_skip_le(s, vx_eol(s, i)); } }
/// first position from `i` on that is not part of a word
pub open spec fn vx_wend(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && vx_wc(s[i]) { vx_wend(s, i + 1) } else { i } }
pub proof fn vx_wend_le(s: Seq<char>, i: int) requires 0 <= i <= s.len()
    ensures i <= vx_wend(s, i) <= s.len(), vx_wend(s, i) < s.len() ==> !vx_wc(s[vx_wend(s, i)]) decreases s.len() - i
{ if 0 <= i < s.len() && vx_wc(s[i]) { vx_wend_le(s, i + 1); } }
pub open spec fn vx_sign(c: char) -> Option<VxTok> {
    if c == ';' { Some(VxTok::Semi) } else if c == '{' { Some(VxTok::Open) } else if c == '}' { Some(VxTok::Close) } else if c == '?' { Some(VxTok::Question) } else if c == '.' { Some(VxTok::Dot) }
    else if c == ':' { Some(VxTok::Colon) } else if c == '(' { Some(VxTok::OpenBracket) } else if c == ')' { Some(VxTok::CloseBracket) } else if c == '>' { Some(VxTok::Arrow) } else if c == '!' { Some(VxTok::Exclamation) } else { None } }
/// what ends a word: a comment says nothing, then white space or a sign
pub open spec fn vx_wstop(s: Seq<char>, e: int) -> int { if 0 <= e < s.len() && s[e] == '#' { vx_eol(s, e) } else { e } }
pub open spec fn vx_next(s: Seq<char>) -> VxNext {
    let n = vx_skip(s, 0);
    if n >= s.len() { VxNext::End }
    else if vx_sign(s[n]) is Some { VxNext::Tok(vx_sign(s[n])->0, n + 1) }
    else if vx_digit(s[n]) || !vx_wc(s[n]) { VxNext::Bad }
    else {
        let e = vx_wend(s, n);
        let f = vx_wstop(s, e);
        if f >= s.len() || vx_ws(s[f]) || vx_sign(s[f]) is Some { VxNext::Tok(VxTok::Word(s.subrange(n, e)), f) } else { VxNext::Bad } } }
/// a mark inside a word
pub open spec fn vx_badmark(s: Seq<char>) -> bool { let n = vx_skip(s, 0); let e = vx_wend(s, n); exists|i: int| n < i < e && (#[trigger] s[i] == '@' || s[i] == '&') }
/// a token takes at least one character
pub proof fn vx_next_adv(s: Seq<char>)
    ensures match vx_next(s) { VxNext::Tok(t, a) => 0 < a <= s.len() && (t is Word ==> t->Word_0.len() > 0), _ => true }
{
    vx_skip_le(s, 0); let n = vx_skip(s, 0);
    if n < s.len() { vx_wend_le(s, n); vx_wend_le(s, n + 1); let e = vx_wend(s, n); if e < s.len() { vx_eol_le(s, e); } }
}
/// what the tokenizer knows after `k` characters: `w` is the beginning of a word, `c` tells that it is in a comment
pub open spec fn vx_lexing(s: Seq<char>, k: int, w: Seq<char>, c: bool) -> bool {
    let n = vx_skip(s, 0);
    let e = vx_wend(s, n);
    &&& 0 <= k <= s.len()
    &&& w.len() == 0 && !c ==> n == vx_skip(s, k)
    &&& w.len() == 0 && c ==> n == vx_skip(s, vx_eol(s, k))
    &&& w.len() > 0 ==> 0 <= n < k && n + w.len() <= k && w == s.subrange(n, n + w.len()) && vx_wc(s[n]) && !vx_digit(s[n]) && vx_sign(s[n]) is None
    &&& w.len() > 0 && !c ==> n + w.len() == k && e == vx_wend(s, k)
    &&& w.len() > 0 && c ==> e == n + w.len() && e < k && s[e] == '#' && vx_eol(s, e) == vx_eol(s, k)
}
pub proof fn vx_lex_step(s: Seq<char>, k: int, w: Seq<char>, c: bool)
    requires vx_lexing(s, k, w, c), k < s.len()
    ensures
        vx_ws(s[k]) ==> vx_skip(s, k) == vx_skip(s, k + 1),
        s[k] == '#' ==> vx_skip(s, k) == vx_skip(s, vx_eol(s, k)) && vx_eol(s, k) == vx_eol(s, k + 1),
        !vx_ws(s[k]) && s[k] != '#' ==> vx_skip(s, k) == k,
        vx_eol(s, k) == if s[k] != '\n' { vx_eol(s, k + 1) } else { k },
        vx_wend(s, k) == if vx_wc(s[k]) { vx_wend(s, k + 1) } else { k },
        vx_skip(s, s.len() as int) == s.len(), vx_eol(s, s.len() as int) == s.len(), vx_wend(s, s.len() as int) == s.len(),
        w.len() > 0 && !c ==> w.push(s[k]) == s.subrange(vx_skip(s, 0), k + 1),
        w.len() == 0 ==> w.push(s[k]) == s.subrange(k, k + 1),
{
    vx_eol_le(s, k);
    if w.len() > 0 && !c { assert(w.push(s[k]) =~= s.subrange(vx_skip(s, 0), k + 1)); }
    if w.len() == 0 { assert(w.push(s[k]) =~= s.subrange(k, k + 1)); }
}
pub proof fn vx_lex_end(s: Seq<char>, w: Seq<char>, c: bool)
    requires vx_lexing(s, s.len() as int, w, c)
    ensures w.len() == 0 ==> vx_next(s) is End, w.len() > 0 ==> vx_next(s) == VxNext::Tok(VxTok::Word(w), s.len() as int)
{ }

// ======================================================================================
// What a workflow declares
// ======================================================================================
pub struct VxBc { pub reference: Seq<char>, pub optional: bool }
pub struct VxAct { pub conclusion: Option<Seq<char>>, pub response: Option<Seq<char>>, pub casts: Seq<VxBc> }
pub struct VxConfC { pub producer: Seq<Target>, pub consumer: Seq<Target>, pub self_key: Option<Seq<char>>, pub response: Seq<char>, pub assigned_key: Option<Seq<char>> }
pub struct VxEvtC { pub reference: Option<Seq<char>>, pub casts: Seq<VxBc> }
pub struct VxReqC { pub request: Option<Seq<char>>, pub error: Option<Seq<char>>, pub actions: Seq<VxAct>, pub casts: Seq<Seq<char>> }
pub struct VxStore { pub events: Seq<VxEvtC>, pub requests: Seq<VxReqC>, pub beacons: Seq<VxBc>, pub config: Option<VxConfC>, pub hash: Seq<char> }
// ---- a reference under construction: words and dots
pub enum VxL { Start, Dot, Word }
pub struct VxRef { pub path: Seq<char>, pub at: VxL }
pub open spec fn vx_join(p: Seq<char>, w: Seq<char>) -> Seq<char> { if p.len() == 0 { w } else { p + ("."@) + w } }
pub open spec fn vx_ref0() -> VxRef { VxRef { path: Seq::empty(), at: VxL::Start } }
pub open spec fn vx_ref_word(r: VxRef, w: Seq<char>) -> VxRef { VxRef { path: vx_join(r.path, w), at: VxL::Word } }
pub open spec fn vx_ref_dot(r: VxRef) -> VxRef { VxRef { at: VxL::Dot, ..r } }
pub open spec fn vx_allknown(w: VxW, s: Seq<VxBc>) -> bool { forall|i: int| 0 <= i < s.len() ==> vx_known(w, (#[trigger] s[i]).reference) }
// ---- @beacons { > Reference; .. }
pub enum VxBcsPh { Open, First, Next, Ref(VxRef), Closed }
pub struct VxBcs { pub list: Seq<VxBc>, pub ph: VxBcsPh }
pub open spec fn vx_step_bcs(b: VxBcs, t: VxTok, w: VxW) -> Option<VxBcs> {
    match (b.ph, t) {
        (VxBcsPh::Open, VxTok::Open) => Some(VxBcs { ph: VxBcsPh::First, ..b }),
        (VxBcsPh::First, VxTok::Arrow) => Some(VxBcs { ph: VxBcsPh::Ref(vx_ref0()), ..b }),
        (VxBcsPh::Next, VxTok::Arrow) => Some(VxBcs { ph: VxBcsPh::Ref(vx_ref0()), ..b }),
        (VxBcsPh::Ref(r), VxTok::Word(x)) => Some(VxBcs { ph: VxBcsPh::Ref(vx_ref_word(r, x)), ..b }),
        (VxBcsPh::Ref(r), VxTok::Dot) => if r.at is Word { Some(VxBcs { ph: VxBcsPh::Ref(vx_ref_dot(r)), ..b }) } else { None },
        (VxBcsPh::Ref(r), VxTok::Semi) => if r.at is Word { Some(VxBcs { list: b.list.push(VxBc { reference: r.path, optional: false }), ph: VxBcsPh::Next }) } else { None },
        (VxBcsPh::Next, VxTok::Close) => if b.list.len() > 0 && vx_allknown(w, b.list) { Some(VxBcs { ph: VxBcsPh::Closed, ..b }) } else { None },
        _ => None,
    } }
// ---- @Reference { > Reference; > Reference?; .. }
pub enum VxEvtPh { Ref(VxRef), First, Next, Cast(VxRef), Opt(VxRef), Closed }
pub struct VxEvt { pub c: VxEvtC, pub ph: VxEvtPh }
pub open spec fn vx_default_event(r: Seq<char>) -> bool { r == "connected"@ || r == "disconnected"@ }
pub open spec fn vx_evt_ok(c: VxEvtC, w: VxW) -> bool { c.reference is Some && (vx_default_event(c.reference->0) || vx_known(w, c.reference->0)) && c.casts.len() > 0 && vx_allknown(w, c.casts) }
pub open spec fn vx_step_evt(e: VxEvt, t: VxTok, w: VxW) -> Option<VxEvt> {
    match (e.ph, t) {
        (VxEvtPh::Ref(r), VxTok::Word(x)) => Some(VxEvt { ph: VxEvtPh::Ref(vx_ref_word(r, x)), ..e }),
        (VxEvtPh::Ref(r), VxTok::Dot) => if r.at is Word { Some(VxEvt { ph: VxEvtPh::Ref(vx_ref_dot(r)), ..e }) } else { None },
        (VxEvtPh::Ref(r), VxTok::Open) => if r.at is Word && r.path.len() > 0 { Some(VxEvt { c: VxEvtC { reference: Some(r.path), ..e.c }, ph: VxEvtPh::First }) } else { None },
        (VxEvtPh::First, VxTok::Arrow) => Some(VxEvt { ph: VxEvtPh::Cast(vx_ref0()), ..e }),
        (VxEvtPh::Next, VxTok::Arrow) => Some(VxEvt { ph: VxEvtPh::Cast(vx_ref0()), ..e }),
        (VxEvtPh::Cast(r), VxTok::Word(x)) => Some(VxEvt { ph: VxEvtPh::Cast(vx_ref_word(r, x)), ..e }),
        (VxEvtPh::Cast(r), VxTok::Dot) => if r.at is Word { Some(VxEvt { ph: VxEvtPh::Cast(vx_ref_dot(r)), ..e }) } else { None },
        (VxEvtPh::Cast(r), VxTok::Question) => if r.at is Word { Some(VxEvt { ph: VxEvtPh::Opt(r), ..e }) } else { None },
        (VxEvtPh::Cast(r), VxTok::Semi) => if r.at is Word { Some(VxEvt { c: VxEvtC { casts: e.c.casts.push(VxBc { reference: r.path, optional: false }), ..e.c }, ph: VxEvtPh::Next }) } else { None },
        (VxEvtPh::Opt(r), VxTok::Semi) => Some(VxEvt { c: VxEvtC { casts: e.c.casts.push(VxBc { reference: r.path, optional: true }), ..e.c }, ph: VxEvtPh::Next }),
        (VxEvtPh::Next, VxTok::Close) => if vx_evt_ok(e.c, w) { Some(VxEvt { ph: VxEvtPh::Closed, ..e }) } else { None },
        _ => None,
    } }
// ---- Reference [!Reference]; | Reference { > Reference; .. } | Reference !Reference { ([conclusion >] Reference) [> Reference[?]; ..]; .. }
pub enum VxReqPh { Ref(VxRef), Err(VxRef), CastFirst, CastNext, Cast(VxRef), ActFirst, ActNext, In(VxRef), InResp(VxAct, VxRef), Out(VxAct), ACast(VxAct, VxRef), AOpt(VxAct, VxRef), ANext(VxAct), Closed }
pub struct VxReq { pub c: VxReqC, pub ph: VxReqPh }
pub open spec fn vx_act_ok(a: VxAct, alone: bool, w: VxW) -> bool { (a.conclusion is Some || alone) && a.response is Some && vx_known(w, a.response->0) && vx_allknown(w, a.casts) }
pub open spec fn vx_req_ok(c: VxReqC, w: VxW) -> bool {
    &&& c.request is Some && vx_known(w, c.request->0)
    &&& match c.error { Some(e) => vx_known(w, e), None => c.actions.len() == 0 }
    &&& forall|i: int| 0 <= i < c.casts.len() ==> vx_known(w, #[trigger] c.casts[i])
    &&& forall|i: int| 0 <= i < c.actions.len() ==> vx_act_ok(#[trigger] c.actions[i], c.actions.len() == 1, w)
}
pub open spec fn vx_hascast(s: Seq<VxBc>, r: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).reference == r }
pub open spec fn vx_act_cast(a: VxAct, r: VxRef, optional: bool) -> VxAct { VxAct { casts: a.casts.push(VxBc { reference: r.path, optional }), ..a } }
pub open spec fn vx_req_close(q: VxReq, c: VxReqC, w: VxW) -> Option<VxReq> { if vx_req_ok(c, w) { Some(VxReq { c, ph: VxReqPh::Closed }) } else { None } }
pub open spec fn vx_step_req(q: VxReq, t: VxTok, w: VxW) -> Option<VxReq> {
    match (q.ph, t) {
        (VxReqPh::Ref(r), VxTok::Word(x)) => Some(VxReq { ph: VxReqPh::Ref(vx_ref_word(r, x)), ..q }),
        (VxReqPh::Ref(r), VxTok::Dot) => if r.at is Word { Some(VxReq { ph: VxReqPh::Ref(vx_ref_dot(r)), ..q }) } else { None },
        (VxReqPh::Ref(r), VxTok::Open) => if r.at is Word { Some(VxReq { c: VxReqC { request: Some(r.path), ..q.c }, ph: VxReqPh::CastFirst }) } else { None },
        (VxReqPh::Ref(r), VxTok::Exclamation) => if r.at is Word { Some(VxReq { c: VxReqC { request: Some(r.path), ..q.c }, ph: VxReqPh::Err(vx_ref0()) }) } else { None },
        (VxReqPh::Ref(r), VxTok::Semi) => if r.at is Word { vx_req_close(q, VxReqC { request: Some(r.path), ..q.c }, w) } else { None },
        (VxReqPh::Err(r), VxTok::Word(x)) => Some(VxReq { ph: VxReqPh::Err(vx_ref_word(r, x)), ..q }),
        (VxReqPh::Err(r), VxTok::Dot) => if r.at is Word { Some(VxReq { ph: VxReqPh::Err(vx_ref_dot(r)), ..q }) } else { None },
        (VxReqPh::Err(r), VxTok::Open) => if r.at is Word { Some(VxReq { c: VxReqC { error: Some(r.path), ..q.c }, ph: VxReqPh::ActFirst }) } else { None },
        (VxReqPh::CastFirst, VxTok::Arrow) => Some(VxReq { ph: VxReqPh::Cast(vx_ref0()), ..q }),
        (VxReqPh::CastNext, VxTok::Arrow) => Some(VxReq { ph: VxReqPh::Cast(vx_ref0()), ..q }),
        (VxReqPh::Cast(r), VxTok::Word(x)) => Some(VxReq { ph: VxReqPh::Cast(vx_ref_word(r, x)), ..q }),
        (VxReqPh::Cast(r), VxTok::Dot) => if r.at is Word { Some(VxReq { ph: VxReqPh::Cast(vx_ref_dot(r)), ..q }) } else { None },
        (VxReqPh::Cast(r), VxTok::Semi) => if r.at is Word { Some(VxReq { c: VxReqC { casts: q.c.casts.push(r.path), ..q.c }, ph: VxReqPh::CastNext }) } else { None },
        (VxReqPh::CastNext, VxTok::Close) => vx_req_close(q, q.c, w),
        (VxReqPh::ActFirst, VxTok::OpenBracket) => Some(VxReq { ph: VxReqPh::In(vx_ref0()), ..q }),
        (VxReqPh::ActNext, VxTok::OpenBracket) => Some(VxReq { ph: VxReqPh::In(vx_ref0()), ..q }),
        (VxReqPh::In(r), VxTok::Word(x)) => Some(VxReq { ph: VxReqPh::In(vx_ref_word(r, x)), ..q }),
        (VxReqPh::In(r), VxTok::Dot) => if r.at is Word { Some(VxReq { ph: VxReqPh::In(vx_ref_dot(r)), ..q }) } else { None },
        (VxReqPh::In(r), VxTok::Arrow) => if r.at is Word { Some(VxReq { ph: VxReqPh::InResp(VxAct { conclusion: Some(r.path), response: None, casts: Seq::empty() }, vx_ref0()), ..q }) } else { None },
        (VxReqPh::In(r), VxTok::CloseBracket) => if r.at is Word { Some(VxReq { ph: VxReqPh::Out(VxAct { conclusion: None, response: Some(r.path), casts: Seq::empty() }), ..q }) } else { None },
        (VxReqPh::InResp(a, r), VxTok::Word(x)) => Some(VxReq { ph: VxReqPh::InResp(a, vx_ref_word(r, x)), ..q }),
        (VxReqPh::InResp(a, r), VxTok::Dot) => if r.at is Word { Some(VxReq { ph: VxReqPh::InResp(a, vx_ref_dot(r)), ..q }) } else { None },
        (VxReqPh::InResp(a, r), VxTok::CloseBracket) => if r.at is Word { Some(VxReq { ph: VxReqPh::Out(VxAct { response: Some(r.path), ..a }), ..q }) } else { None },
        (VxReqPh::Out(a), VxTok::Arrow) => Some(VxReq { ph: VxReqPh::ACast(a, vx_ref0()), ..q }),
        (VxReqPh::Out(a), VxTok::Semi) => Some(VxReq { c: VxReqC { actions: q.c.actions.push(a), ..q.c }, ph: VxReqPh::ActNext }),
        (VxReqPh::ACast(a, r), VxTok::Word(x)) => Some(VxReq { ph: VxReqPh::ACast(a, vx_ref_word(r, x)), ..q }),
        (VxReqPh::ACast(a, r), VxTok::Dot) => if r.at is Word { Some(VxReq { ph: VxReqPh::ACast(a, vx_ref_dot(r)), ..q }) } else { None },
        (VxReqPh::ACast(a, r), VxTok::Question) => if r.at is Word { Some(VxReq { ph: VxReqPh::AOpt(a, r), ..q }) } else { None },
        (VxReqPh::ACast(a, r), VxTok::Semi) => if r.at is Word && !vx_hascast(a.casts, r.path) { Some(VxReq { ph: VxReqPh::ANext(vx_act_cast(a, r, false)), ..q }) } else { None },
        (VxReqPh::AOpt(a, r), VxTok::Semi) => if !vx_hascast(a.casts, r.path) { Some(VxReq { ph: VxReqPh::ANext(vx_act_cast(a, r, true)), ..q }) } else { None },
        (VxReqPh::ANext(a), VxTok::Arrow) => Some(VxReq { ph: VxReqPh::ACast(a, vx_ref0()), ..q }),
        (VxReqPh::ANext(a), VxTok::OpenBracket) => Some(VxReq { c: VxReqC { actions: q.c.actions.push(a), ..q.c }, ph: VxReqPh::In(vx_ref0()) }),
        (VxReqPh::ANext(a), VxTok::Close) => vx_req_close(q, VxReqC { actions: q.c.actions.push(a), ..q.c }, w),
        (VxReqPh::ActNext, VxTok::Close) => vx_req_close(q, q.c, w),
        _ => None,
    } }
// ---- &config { Producer: target ..; Consumer: target ..; SelfKey: Reference; AssignedKey: Reference; }
pub enum VxItem { Producer, Consumer, SelfKey, AssignedKey }
pub enum VxConfPh { Open, Item, Colon(VxItem), Targets(VxItem, VxL), Key(VxItem, VxRef), Closed }
pub struct VxConf { pub c: VxConfC, pub ph: VxConfPh }
pub open spec fn vx_service(name: Seq<char>) -> Seq<char> { ("InternalServiceGroup"@) + ("."@) + name }
pub open spec fn vx_conf0() -> VxConf { VxConf { c: VxConfC { producer: Seq::empty(), consumer: Seq::empty(), self_key: None, response: vx_service("SelfKeyResponse"@), assigned_key: None }, ph: VxConfPh::Open } }
pub open spec fn vx_target(w: Seq<char>) -> Option<Target> { if w == "rust"@ { Some(Target::Rust) } else if w == "typescript"@ { Some(Target::TypeScript) } else { None } }
pub open spec fn vx_item(c: VxConfC, w: Seq<char>) -> Option<VxItem> {
    if w == "Producer"@ { if c.producer.len() == 0 { Some(VxItem::Producer) } else { None } }
    else if w == "Consumer"@ { if c.consumer.len() == 0 { Some(VxItem::Consumer) } else { None } }
    else if w == "AssignedKey"@ { if c.assigned_key is None { Some(VxItem::AssignedKey) } else { None } }
    else if w == "SelfKey"@ { if c.self_key is None { Some(VxItem::SelfKey) } else { None } }
    else { None } }
pub open spec fn vx_add_target(s: Seq<Target>, w: Seq<char>) -> Option<Seq<Target>> { if vx_target(w) is Some && !s.contains(vx_target(w)->0) { Some(s.push(vx_target(w)->0)) } else { None } }
pub open spec fn vx_str_field(name: Seq<char>, optional: bool) -> VxFd { VxFd { name, kind: PrimitiveTypes::ETypes::Estr, optional } }
/// the messages of the service: requests and responses of the hand-shake, of the keys and of the beacons
pub open spec fn vx_key_world(c: VxConfC, w: VxW) -> VxW {
    let w1 = if c.self_key is Some { w } else { vx_serve(w, "SelfKeyRequest"@, seq![vx_str_field("uuid"@, true)]) };
    vx_serve(w1, "SelfKeyResponse"@, seq![vx_str_field("uuid"@, false)]) }
pub open spec fn vx_conf_world(c: VxConfC, w: VxW) -> VxW {
    let w2 = if c.assigned_key is Some { vx_key_world(c, w) } else { vx_serve(vx_key_world(c, w), "AssignedKey"@, Seq::empty()) };
    vx_serve(vx_serve(vx_serve(vx_serve(w2,
        "HashRequest"@, seq![vx_str_field("protocol"@, false), vx_str_field("workflow"@, false)]),
        "HashResponse"@, seq![vx_str_field("error"@, true)]),
        "BeaconConfirmation"@, seq![vx_str_field("error"@, true)]),
        "ConnectConfirmationBeacon"@, Seq::empty()) }
pub open spec fn vx_conf_close(k: VxConf, w: VxW) -> Option<(VxConf, VxW)> {
    if k.c.producer.len() == 0 || k.c.consumer.len() == 0 { None }
    else if k.c.self_key is Some && !vx_known(w, k.c.self_key->0) { None }
    else if k.c.assigned_key is Some && !vx_known(vx_key_world(k.c, w), k.c.assigned_key->0) { None }
    else { Some((VxConf { c: VxConfC {
            self_key: if k.c.self_key is Some { k.c.self_key } else { Some(vx_service("SelfKeyRequest"@)) },
            assigned_key: if k.c.assigned_key is Some { k.c.assigned_key } else { Some(vx_service("AssignedKey"@)) }, ..k.c }, ph: VxConfPh::Closed }, vx_conf_world(k.c, w))) } }
pub open spec fn vx_step_conf(k: VxConf, t: VxTok, w: VxW) -> Option<(VxConf, VxW)> {
    match (k.ph, t) {
        (VxConfPh::Open, VxTok::Open) => Some((VxConf { ph: VxConfPh::Item, ..k }, w)),
        (VxConfPh::Item, VxTok::Word(x)) => match vx_item(k.c, x) { Some(i) => Some((VxConf { ph: VxConfPh::Colon(i), ..k }, w)), None => None },
        (VxConfPh::Colon(i), VxTok::Colon) => Some((VxConf { ph: if i is Producer || i is Consumer { VxConfPh::Targets(i, VxL::Start) } else { VxConfPh::Key(i, vx_ref0()) }, ..k }, w)),
        (VxConfPh::Targets(i, l), VxTok::Word(x)) =>
            if i is Producer { match vx_add_target(k.c.producer, x) { Some(s) => Some((VxConf { c: VxConfC { producer: s, ..k.c }, ph: VxConfPh::Targets(i, VxL::Word) }, w)), None => None } }
            else { match vx_add_target(k.c.consumer, x) { Some(s) => Some((VxConf { c: VxConfC { consumer: s, ..k.c }, ph: VxConfPh::Targets(i, VxL::Word) }, w)), None => None } },
        (VxConfPh::Targets(i, l), VxTok::Semi) => if l is Word { Some((VxConf { ph: VxConfPh::Item, ..k }, w)) } else { None },
        (VxConfPh::Key(i, r), VxTok::Word(x)) => Some((VxConf { ph: VxConfPh::Key(i, vx_ref_word(r, x)), ..k }, w)),
        (VxConfPh::Key(i, r), VxTok::Dot) => if r.at is Word { Some((VxConf { ph: VxConfPh::Key(i, vx_ref_dot(r)), ..k }, w)) } else { None },
        (VxConfPh::Key(i, r), VxTok::Semi) => if r.at is Word { Some((VxConf { c: if i is SelfKey { VxConfC { self_key: Some(r.path), ..k.c } } else { VxConfC { assigned_key: Some(r.path), ..k.c } }, ph: VxConfPh::Item }, w)) } else { None },
        (VxConfPh::Item, VxTok::Close) => vx_conf_close(k, w),
        _ => None,
    } }
// ---- the file
pub enum VxEnt { Conf(VxConf), Req(VxReq), Bcs(VxBcs), Evt(VxEvt) }
pub open spec fn vx_done(e: VxEnt) -> bool { match e { VxEnt::Conf(k) => k.ph is Closed, VxEnt::Req(q) => q.ph is Closed, VxEnt::Bcs(b) => b.ph is Closed, VxEnt::Evt(v) => v.ph is Closed } }
pub open spec fn vx_step_ent(e: VxEnt, t: VxTok, w: VxW) -> Option<(VxEnt, VxW)> {
    match e {
        VxEnt::Conf(k) => match vx_step_conf(k, t, w) { Some(x) => Some((VxEnt::Conf(x.0), x.1)), None => None },
        VxEnt::Req(q) => match vx_step_req(q, t, w) { Some(x) => Some((VxEnt::Req(x), w)), None => None },
        VxEnt::Bcs(b) => match vx_step_bcs(b, t, w) { Some(x) => Some((VxEnt::Bcs(x), w)), None => None },
        VxEnt::Evt(v) => match vx_step_evt(v, t, w) { Some(x) => Some((VxEnt::Evt(x), w)), None => None },
    } }
/// the word that opens an entity
pub open spec fn vx_namec(c: char) -> bool { vx_ualnum(c) || c == '_' }
pub open spec fn vx_req0(x: Seq<char>) -> VxReq { VxReq { c: VxReqC { request: None, error: None, actions: Seq::empty(), casts: Seq::empty() }, ph: VxReqPh::Ref(VxRef { path: x, at: VxL::Word }) } }
pub open spec fn vx_evt0(x: Seq<char>) -> VxEvt { VxEvt { c: VxEvtC { reference: None, casts: Seq::empty() }, ph: VxEvtPh::Ref(VxRef { path: x, at: VxL::Word }) } }
pub open spec fn vx_bcs0() -> VxBcs { VxBcs { list: Seq::empty(), ph: VxBcsPh::Open } }
pub open spec fn vx_isname(x: Seq<char>) -> bool { forall|i: int| 0 <= i < x.len() ==> vx_namec(#[trigger] x[i]) }
pub open spec fn vx_opens(x: Seq<char>) -> Option<VxEnt> {
    if x == "&config"@ { Some(VxEnt::Conf(vx_conf0())) }
    else if x == "@beacons"@ { Some(VxEnt::Bcs(vx_bcs0())) }
    else if x.len() > 0 && x[0] == '@' { Some(VxEnt::Evt(vx_evt0(x.skip(1)))) }
    else if vx_isname(x) { Some(VxEnt::Req(vx_req0(x))) }
    else { None } }
// char::is_alphanumeric says no to the two marks
pub axiom fn vx_marks() ensures !vx_ualnum('@'), !vx_ualnum('&');
/// a word opens at most one kind of entity
pub proof fn vx_names(x: Seq<char>) requires x.len() > 0
    ensures vx_isname(x) ==> x != "&config"@ && x != "@beacons"@ && x[0] != '@', x == "@beacons"@ ==> x[0] == '@', x == "&config"@ ==> x[0] != '@'
{ vx_marks(); reveal_strlit("&config"); reveal_strlit("@beacons"); if vx_isname(x) { assert(vx_namec(x[0])); } }
// ---- what is complete goes into the workflow: one configuration; no event, no request, no beacon twice
pub open spec fn vx_add(s: VxStore, e: VxEnt) -> Option<VxStore> {
    match e {
        VxEnt::Conf(k) => if s.config is None { Some(VxStore { config: Some(k.c), ..s }) } else { None },
        VxEnt::Evt(v) => if v.c.reference is Some && (forall|i: int| 0 <= i < s.events.len() ==> (#[trigger] s.events[i]).reference != v.c.reference) { Some(VxStore { events: s.events.push(v.c), ..s }) } else { None },
        VxEnt::Req(q) => if q.c.request is Some && (forall|i: int| 0 <= i < s.requests.len() ==> (#[trigger] s.requests[i]).request != q.c.request) { Some(VxStore { requests: s.requests.push(q.c), ..s }) } else { None },
        VxEnt::Bcs(b) => if vx_distinct_from(s.beacons, b.list) { Some(VxStore { beacons: s.beacons + b.list, ..s }) } else { None },
    } }
/// each of `l` differs from all before it, those of `s` included
pub open spec fn vx_distinct_from(s: Seq<VxBc>, l: Seq<VxBc>) -> bool { forall|i: int| 0 <= i < l.len() ==> !vx_hascast(s + l.take(i), (#[trigger] l[i]).reference) }
pub struct VxSt { pub store: VxStore, pub w: VxW, pub open: Option<VxEnt> }
pub open spec fn vx_begin(hash: Seq<char>, w: VxW) -> VxSt { VxSt { store: VxStore { events: Seq::empty(), requests: Seq::empty(), beacons: Seq::empty(), config: None, hash }, w, open: None } }
pub open spec fn vx_step(st: VxSt, t: VxTok) -> Option<VxSt> {
    match st.open {
        None => match t { VxTok::Word(x) => match vx_opens(x) { Some(e) => Some(VxSt { open: Some(e), ..st }), None => None }, _ => None },
        Some(e) => match vx_step_ent(e, t, st.w) {
            None => None,
            Some(x) => if vx_done(x.0) { match vx_add(st.store, x.0) { Some(s) => Some(VxSt { store: s, w: x.1, open: None }), None => None } } else { Some(VxSt { open: Some(x.0), w: x.1, ..st }) },
        },
    } }
pub open spec fn vx_run(st: VxSt, s: Seq<char>) -> Option<VxSt> decreases s.len() {
    match vx_next(s) {
        VxNext::Bad => None,
        VxNext::End => if st.open is None { Some(st) } else { None },
        VxNext::Tok(t, n) => match vx_step(st, t) { None => None, Some(x) => if 0 < n <= s.len() { vx_run(x, s.skip(n)) } else { None } },
    } }
/// no beacon is a request as well
pub open spec fn vx_apart(s: VxStore) -> bool { forall|i: int, j: int| 0 <= i < s.beacons.len() && 0 <= j < s.requests.len() ==> (#[trigger] s.requests[j]).request != Some((#[trigger] s.beacons[i]).reference) }
// @@SEQS@@
pub closed spec fn vx_strs(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn vx_strs_len(s: Seq<String>) ensures (#[trigger] vx_strs(s)).len() == s.len() {}
pub broadcast proof fn vx_strs_at(s: Seq<String>, i: int) requires 0 <= i < s.len() ensures #[trigger] vx_strs(s)[i] == s[i]@ {}
pub broadcast proof fn vx_strs_at2(s: Seq<String>, i: int) requires 0 <= i < s.len() ensures vx_strs(s)[i] == (#[trigger] s[i])@ {}
pub broadcast proof fn vx_strs_push(s: Seq<String>, x: String) ensures #[trigger] vx_strs(s.push(x)) == vx_strs(s).push(x@) { assert(vx_strs(s.push(x)) =~= vx_strs(s).push(x@)); }
pub broadcast proof fn vx_strs_empty(s: Seq<String>) requires s.len() == 0 ensures #[trigger] vx_strs(s) == Seq::<Seq<char>>::empty() { assert(vx_strs(s) =~= Seq::empty()); }
// ======================================================================================
// What the parser works with
// ======================================================================================
pub open spec fn vx_tok(e: ENext) -> Option<VxTok> {
    match e {
        ENext::Word(x) => Some(VxTok::Word(x.0@)), ENext::Open(_) => Some(VxTok::Open), ENext::Close(_) => Some(VxTok::Close), ENext::OpenBracket(_) => Some(VxTok::OpenBracket),
        ENext::CloseBracket(_) => Some(VxTok::CloseBracket), ENext::Arrow(_) => Some(VxTok::Arrow), ENext::Exclamation(_) => Some(VxTok::Exclamation), ENext::Question(_) => Some(VxTok::Question),
        ENext::Semicolon(_) => Some(VxTok::Semi), ENext::PathDelimiter(_) => Some(VxTok::Dot), ENext::ValueDelimiter(_) => Some(VxTok::Colon), ENext::End() => None } }
pub open spec fn vx_off(e: ENext) -> usize {
    match e { ENext::Word(x) => x.1, ENext::Open(o) => o, ENext::Close(o) => o, ENext::OpenBracket(o) => o, ENext::CloseBracket(o) => o, ENext::Arrow(o) => o, ENext::Exclamation(o) => o,
        ENext::Question(o) => o, ENext::Semicolon(o) => o, ENext::PathDelimiter(o) => o, ENext::ValueDelimiter(o) => o, ENext::End() => 0 } }
pub open spec fn vx_out(o: EntityOut, e: VxEnt) -> bool {
    match o { EntityOut::Config(k) => e is Conf && k.v() == e->Conf_0.c, EntityOut::Event(v) => e is Evt && v.v() == e->Evt_0.c, EntityOut::Request(q) => e is Req && q.v() == e->Req_0.c, EntityOut::Beacons(b) => e is Bcs && vx_bcs(b.beacons@) == e->Bcs_0.list } }
// Option<Box<dyn EntityParser>>::as_deref_mut
pub trait VxDerefMut { fn vx_as_deref_mut(&mut self) -> Option<&mut (dyn EntityParser + 'static)>; }
impl VxDerefMut for Option<Box<dyn EntityParser>> {
    #[verifier::external_body] fn vx_as_deref_mut(&mut self) -> (r: Option<&mut (dyn EntityParser + 'static)>)
        ensures r is Some == (*old(self)) is Some, (*final(self)) is Some == (*old(self)) is Some,
            r is Some ==> forall|e: VxEnt| #![trigger (*r->0).vx_is(e)] #![trigger (*old(self)->0).vx_is(e)] (*r->0).vx_is(e) == (*old(self)->0).vx_is(e),
            r is Some ==> forall|e: VxEnt| #![trigger (*final(self)->0).vx_is(e)] #![trigger (*final(r->0)).vx_is(e)] (*final(self)->0).vx_is(e) == (*final(r->0)).vx_is(e)
    { unimplemented!() } }
pub open spec fn vx_os(o: Option<String>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
pub use chars::*;
pub use beacon::{Beacons, Broadcast};
pub use config::Config;
pub use event::Event;
pub use request::{Action, Request};
pub use store::Store;
pub broadcast group vx_laws { vx_views_laws, vx_fds0, vx_fds1, vx_fds2, vx_strs_len, vx_strs_at, vx_strs_at2, vx_strs_push, vx_strs_empty }
