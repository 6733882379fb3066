
// ======================================================================================
// Outside world of the parser
// ======================================================================================
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
impl Clone for ENext { #[verifier::external_body] fn clone(&self) -> (r: ENext) ensures r == *self { unimplemented!() } }
/// the text of the file
pub uninterp spec fn vx_file(p: PathBuf) -> Seq<char>;
/// the hash of the file
pub uninterp spec fn vx_hash(p: PathBuf) -> Seq<char>;
pub mod hash { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub fn get(filename: &PathBuf) -> (r: Result<String, String>) ensures r is Ok ==> r->Ok_0@ == vx_hash(*filename) { unimplemented!() } }
// the end of a text after `a` bytes: they are the first `a` characters when these are ASCII
#[verifier::external_body]
pub fn vx_from(s: &String, a: usize) -> (r: &str)
    requires a <= s@.len(), forall|i: int| 0 <= i < a ==> vx_ascii(#[trigger] s@[i])
    ensures r@ == s@.skip(a as int)
{ &s[a..] }

// ======================================================================================
// Lexical structure of a protocol file
// ======================================================================================
pub enum VxTok { Word(Seq<char>, Option<char>), Open, Close, Semi, Rep, Opt, Dot }
/// what a text starts with: an error, the end, or a token and the characters it takes
pub enum VxNext { Bad, End, Tok(VxTok, int) }
pub open spec fn vx_wc(c: char) -> bool { vx_alnum(c) || c == '_' }
/// first position from `i` on that is not white space
pub open spec fn vx_skip(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && vx_ws(s[i]) { vx_skip(s, i + 1) } else { i } }
/// first position from `i` on that is not part of a word
pub open spec fn vx_wend(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && vx_wc(s[i]) { vx_wend(s, i + 1) } else { i } }
pub open spec fn vx_sign(c: char) -> Option<VxTok> {
    if c == ';' { Some(VxTok::Semi) } else if c == '{' { Some(VxTok::Open) } else if c == '}' { Some(VxTok::Close) } else if c == '?' { Some(VxTok::Opt) } else if c == '.' { Some(VxTok::Dot) } else { None } }
pub open spec fn vx_next(s: Seq<char>) -> VxNext {
    let n = vx_skip(s, 0);
    if n >= s.len() { VxNext::End }
    else if vx_sign(s[n]) is Some { VxNext::Tok(vx_sign(s[n])->0, n + 1) }
    else if s[n] == '[' { let m = vx_skip(s, n + 1); if m < s.len() && s[m] == ']' { VxNext::Tok(VxTok::Rep, m + 1) } else { VxNext::Bad } }
    else if vx_digit(s[n]) || !vx_wc(s[n]) { VxNext::Bad }
    else {
        let e = vx_wend(s, n);
        let w = s.subrange(n, e);
        if e >= s.len() { VxNext::Tok(VxTok::Word(w, None), e) }
        else if vx_ws(s[e]) { VxNext::Tok(VxTok::Word(w, None), e) }
        else if vx_sign(s[e]) is Some || s[e] == '[' { VxNext::Tok(VxTok::Word(w, Some(s[e])), e) }
        else { VxNext::Bad } } }
pub proof fn vx_skip_le(s: Seq<char>, i: int) requires 0 <= i <= s.len()
    ensures i <= vx_skip(s, i) <= s.len(), vx_skip(s, i) < s.len() ==> !vx_ws(s[vx_skip(s, i)]), forall|j: int| i <= j < vx_skip(s, i) ==> vx_ws(#[trigger] s[j]) decreases s.len() - i
{ if 0 <= i < s.len() && vx_ws(s[i]) { vx_skip_le(s, i + 1); } }
pub proof fn vx_wend_le(s: Seq<char>, i: int) requires 0 <= i <= s.len()
    ensures i <= vx_wend(s, i) <= s.len(), vx_wend(s, i) < s.len() ==> !vx_wc(s[vx_wend(s, i)]), forall|j: int| i <= j < vx_wend(s, i) ==> vx_wc(#[trigger] s[j]) decreases s.len() - i
{ if 0 <= i < s.len() && vx_wc(s[i]) { vx_wend_le(s, i + 1); } }
/// a token takes at least one character, all of them ASCII
pub proof fn vx_next_adv(s: Seq<char>)
    ensures match vx_next(s) { VxNext::Tok(_, a) => 0 < a <= s.len() && forall|i: int| 0 <= i < a ==> vx_ascii(#[trigger] s[i]), _ => true }
{
    vx_skip_le(s, 0); let n = vx_skip(s, 0);
    if n < s.len() { vx_skip_le(s, n + 1); vx_wend_le(s, n); }
}

// ======================================================================================
// What a sequence of tokens declares
// ======================================================================================
/// what may come next: anything in a body; the name after a keyword; `{`; what follows the type of a field; its name; the next part of a type; what follows the name of a field; `;`
pub enum VxPh { Body, Name(VxKey), Open, Typed, Rep, Dot, Named, Semi }
pub struct VxP { pub ph: VxPh, pub st: VxStore }
pub open spec fn vx_begin(hash: Seq<char>) -> VxP { VxP { ph: VxPh::Body, st: vx_start(hash) } }
pub open spec fn vx_closed(s: VxStore) -> bool { s.cg is None && s.cs is None && s.ce is None && s.cf is None }
pub open spec fn vx_done(p: VxP) -> bool { p.ph is Body && p.st.cg is None && p.st.cs is None && p.st.ce is None && p.st.cf is None }
/// a word where a type may be
pub open spec fn vx_type_word(st: VxStore, w: Seq<char>, next: Option<char>) -> Option<VxP> {
    if st.ce is Some {
        if next == Some(';') {
            if st.ce->0.cur is Some { None }
            else { Some(VxP { ph: VxPh::Semi, st: VxStore { ce: Some(VxEnum { vars: st.ce->0.vars.push(VxItem { name: w, prim: Some(PrimitiveTypes::ETypes::Estr), ..vx_newitem() }), ..st.ce->0 }), ..st } }) }
        } else { Some(VxP { ph: VxPh::Typed, st: VxStore { ce: Some(VxEnum { cur: Some(VxItem { tp: vx_cur(st.ce->0).tp.push(w), ..vx_cur(st.ce->0) }), ..st.ce->0 }), ..st } }) }
    } else if st.cs is Some { Some(VxP { ph: VxPh::Typed, st: vx_field_type(st, w) }) }
    else { None } }
/// a word where a name of a field or of a variant must be
pub open spec fn vx_name_word(st: VxStore, w: Seq<char>) -> Option<VxP> {
    if st.ce is Some {
        if st.ce->0.cur is Some && vx_typed(vx_defs(st), vx_gid(st), st.ce->0.cur->0.tp) {
            Some(VxP { ph: VxPh::Semi, st: VxStore { ce: Some(VxEnum { cur: None, vars: st.ce->0.vars.push(VxItem { name: w, ..vx_accept_i(vx_defs(st), vx_gid(st), st.ce->0.cur->0) }), ..st.ce->0 }), ..st } })
        } else { None }
    } else if st.cs is Some && st.cf is Some && vx_typed(vx_defs(st), vx_gid(st), st.cf->0.tp) {
        Some(VxP { ph: VxPh::Named, st: VxStore { cf: Some(vx_accept_f(vx_defs(st), vx_gid(st), VxField { name: w, ..st.cf->0 })), ..st } })
    } else { None } }
pub open spec fn vx_open_named(st: VxStore, k: VxKey, w: Seq<char>) -> Option<VxP> {
    if st.cs is Some || st.ce is Some { None }
    else { Some(VxP { ph: VxPh::Open, st: match k { VxKey::S => vx_open_struct(st, w), VxKey::E => vx_open_enum(st, w), VxKey::G => vx_open_group(st, w) } }) } }
pub open spec fn vx_step(p: VxP, t: VxTok) -> Option<VxP> {
    let st = p.st;
    match (p.ph, t) {
        (VxPh::Body, VxTok::Word(w, n)) => match vx_key(w) { Some(k) => Some(VxP { ph: VxPh::Name(k), st }), None => vx_type_word(st, w, n) },
        (VxPh::Body, VxTok::Close) => if st.cg is Some || st.cs is Some || st.ce is Some { Some(VxP { ph: VxPh::Body, st: vx_close(st) }) } else { None },
        (VxPh::Name(k), VxTok::Word(w, n)) => vx_open_named(st, k, w),
        (VxPh::Open, VxTok::Open) => Some(VxP { ph: VxPh::Body, st }),
        (VxPh::Typed, VxTok::Word(w, n)) => vx_name_word(st, w),
        (VxPh::Rep, VxTok::Word(w, n)) => vx_name_word(st, w),
        (VxPh::Typed, VxTok::Rep) => Some(VxP { ph: VxPh::Rep, st: if st.ce is Some { VxStore { ce: Some(VxEnum { cur: Some(VxItem { rep: true, ..st.ce->0.cur->0 }), ..st.ce->0 }), ..st } } else { VxStore { cf: Some(VxField { rep: true, ..st.cf->0 }), ..st } } }),
        (VxPh::Typed, VxTok::Dot) => Some(VxP { ph: VxPh::Dot, st }),
        (VxPh::Dot, VxTok::Word(w, n)) => vx_type_word(st, w, n),
        (VxPh::Named, VxTok::Opt) => Some(VxP { ph: VxPh::Semi, st: VxStore { cf: Some(VxField { opt: true, ..st.cf->0 }), ..st } }),
        (VxPh::Named, VxTok::Semi) => vx_semi(st),
        (VxPh::Semi, VxTok::Semi) => vx_semi(st),
        _ => None,
    } }
pub open spec fn vx_semi(st: VxStore) -> Option<VxP> {
    if st.ce is Some { Some(VxP { ph: VxPh::Body, st }) }
    else if st.cs is Some && st.cf is Some && !vx_hasname(st.cs->0.fields, st.cf->0.name) { Some(VxP { ph: VxPh::Body, st: vx_close_field(st) }) }
    else { None } }
/// the schema a text declares, read on from `p`
pub open spec fn vx_run(p: VxP, s: Seq<char>) -> Option<VxStore> decreases s.len() {
    match vx_next(s) {
        VxNext::Bad => None,
        VxNext::End => if vx_done(p) { Some(p.st) } else { None },
        VxNext::Tok(t, a) => if 0 < a <= s.len() { match vx_step(p, t) { Some(q) => vx_run(q, s.skip(a)), None => None } } else { None },
    } }
/// what holds between tokens
pub open spec fn vx_okp(p: VxP) -> bool {
    let s = p.st;
    &&& s.wf()
    &&& match p.ph {
        VxPh::Body | VxPh::Name(_) => s.cf is None && (s.ce is Some ==> s.ce->0.cur is None),
        VxPh::Open => s.cf is None && (s.ce is Some ==> s.ce->0.cur is None) && (s.cg is Some || s.cs is Some || s.ce is Some),
        VxPh::Typed | VxPh::Rep | VxPh::Dot => (s.ce is Some && s.ce->0.cur is Some) || (s.cs is Some && s.cf is Some),
        VxPh::Named => s.cs is Some && s.cf is Some,
        VxPh::Semi => (s.ce is Some && s.ce->0.cur is None) || (s.cs is Some && s.cf is Some),
    } }
/// what the parser may expect there
spec fn vx_may(ph: VxPh, e: EExpectation) -> bool {
    match ph {
        VxPh::Body => e is GroupDef || e is StructDef || e is EnumDef || e is EnumValue || e is FieldType || e is EntityClose,
        VxPh::Name(VxKey::G) => e is GroupName,
        VxPh::Name(VxKey::S) => e is StructName,
        VxPh::Name(VxKey::E) => e is EnumName,
        VxPh::Open => e is EntityOpen,
        VxPh::Typed => e is FieldName || e is FieldRepeatedMark || e is PathSpliter,
        VxPh::Rep => e is FieldName,
        VxPh::Dot => e is FieldType,
        VxPh::Named => e is Semicolon || e is FieldOptionalMark,
        VxPh::Semi => e is Semicolon,
    } }
spec fn vx_tokof(t: VxTok, n: int, e: ENext) -> bool {
    match e {
        ENext::Word(x) => t == VxTok::Word(x.0@, x.2) && n == x.1,
        ENext::OpenStruct(o) => t is Open && n == o,
        ENext::CloseStruct(o) => t is Close && n == o,
        ENext::Semicolon(o) => t is Semi && n == o,
        ENext::Repeated(o) => t is Rep && n == o,
        ENext::Optional(o) => t is Opt && n == o,
        ENext::PathSpliter(o) => t is Dot && n == o,
        ENext::End() => false,
    } }
impl Parser { pub closed spec fn vx_src(&self) -> PathBuf { self.src } }

/// what the tokenizer knows after `k` characters: `w` is the beginning of a word, `b` tells that there was a `[`
pub open spec fn vx_lexing(s: Seq<char>, k: int, w: Seq<char>, b: bool) -> bool {
    let n = vx_skip(s, 0);
    &&& 0 <= k <= s.len()
    &&& w.len() == 0 && !b ==> n == vx_skip(s, k)
    &&& b ==> w.len() == 0 && 0 <= n < k && s[n] == '[' && vx_skip(s, n + 1) == vx_skip(s, k)
    &&& w.len() > 0 ==> 0 <= n < k && w == s.subrange(n, k) && vx_wend(s, n) == vx_wend(s, k) && vx_wc(s[n]) && !vx_digit(s[n]) && vx_sign(s[n]) is None && s[n] != '['
}
pub proof fn vx_lex_step(s: Seq<char>, k: int, w: Seq<char>, b: bool)
    requires vx_lexing(s, k, w, b), k < s.len()
    ensures
        vx_skip(s, k) == if vx_ws(s[k]) { vx_skip(s, k + 1) } else { k },
        vx_wend(s, k) == if vx_wc(s[k]) { vx_wend(s, k + 1) } else { k },
        w.len() > 0 ==> w.push(s[k]) == s.subrange(vx_skip(s, 0), k + 1),
        w.len() == 0 ==> w.push(s[k]) == s.subrange(k, k + 1),
        k + 1 == s.len() ==> vx_skip(s, k + 1) == s.len() && vx_wend(s, k + 1) == s.len(),
{
    if w.len() > 0 { assert(w.push(s[k]) =~= s.subrange(vx_skip(s, 0), k + 1)); } else { assert(w.push(s[k]) =~= s.subrange(k, k + 1)); }
}
pub proof fn vx_lex_end(s: Seq<char>, w: Seq<char>, b: bool)
    requires vx_lexing(s, s.len() as int, w, b)
    ensures b ==> vx_next(s) is Bad, !b && w.len() == 0 ==> vx_next(s) is End, w.len() > 0 ==> vx_next(s) == VxNext::Tok(VxTok::Word(w, None), s.len() as int)
{ }

// ======================================================================================
// References: every type named in a schema is a complete definition that comes before its user
// ======================================================================================
pub open spec fn vx_sidat(st: VxStore, id: usize, i: int) -> bool { 0 <= i < st.structs.len() && st.structs[i].id == id }
pub open spec fn vx_eidat(st: VxStore, id: usize, i: int) -> bool { 0 <= i < st.enums.len() && st.enums[i].id == id }
/// a complete struct or enumeration of that identifier and name
#[verifier::opaque]
pub open spec fn vx_isdef(st: VxStore, id: usize, name: Seq<char>) -> bool {
    (exists|i: int| vx_sidat(st, id, i) && st.structs[i].name == name) || (exists|i: int| vx_eidat(st, id, i) && st.enums[i].name == name) }
pub open spec fn vx_fieldok(st: VxStore, owner: usize, f: VxField) -> bool {
    f.tp.len() > 0 && match f.rid { Some(r) => r < owner && vx_isdef(st, r, f.tp.last()) && f.rpath.len() + 1 == f.tp.len() && f.kind == f.tp.last(), None => f.tp.len() == 1 && f.kind == f.tp[0] && vx_prim(f.kind) is Some } }
pub open spec fn vx_itemok(st: VxStore, owner: usize, f: VxItem) -> bool {
    match f.rid { Some(r) => r < owner && f.tp.len() > 0 && vx_isdef(st, r, f.tp.last()) && f.rpath.len() + 1 == f.tp.len(), None => f.prim is Some && (f.tp.len() == 0 ==> f.prim == Some(PrimitiveTypes::ETypes::Estr)) && (f.tp.len() > 0 ==> f.tp.len() == 1 && f.prim == vx_prim(f.tp[0])) } }
pub open spec fn vx_structok(st: VxStore, s: VxStruct) -> bool { forall|k: int| 0 <= k < s.fields.len() ==> vx_fieldok(st, s.id, #[trigger] s.fields[k]) }
pub open spec fn vx_enumok(st: VxStore, s: VxEnum) -> bool { forall|k: int| 0 <= k < s.vars.len() ==> vx_itemok(st, s.id, #[trigger] s.vars[k]) }
pub open spec fn vx_refs(st: VxStore) -> bool {
    &&& forall|i: int| 0 <= i < st.structs.len() ==> vx_structok(st, #[trigger] st.structs[i])
    &&& forall|i: int| 0 <= i < st.enums.len() ==> vx_enumok(st, #[trigger] st.enums[i])
    &&& st.cs is Some ==> vx_structok(st, st.cs->0)
    &&& st.ce is Some ==> vx_enumok(st, st.ce->0)
}
/// ... also for the field or variant that is being read
#[verifier::opaque]
pub open spec fn vx_refsp(p: VxP) -> bool {
    &&& vx_refs(p.st)
    &&& match p.ph {
        VxPh::Typed | VxPh::Rep | VxPh::Dot => (p.st.cf is Some ==> p.st.cf->0.rid is None && p.st.cf->0.kind == p.st.cf->0.tp[0]) && (p.st.ce is Some && p.st.ce->0.cur is Some ==> p.st.ce->0.cur->0.rid is None && p.st.ce->0.cur->0.prim is None && p.st.ce->0.cur->0.rpath.len() == 0) && (p.st.cf is Some ==> p.st.cf->0.rpath.len() == 0),
        VxPh::Named => p.st.cs is Some && p.st.cf is Some && vx_fieldok(p.st, p.st.cs->0.id, p.st.cf->0),
        VxPh::Semi => p.st.cf is Some && p.st.cs is Some ==> vx_fieldok(p.st, p.st.cs->0.id, p.st.cf->0),
        _ => true,
    }
}
pub open spec fn vx_more(s: VxStore, t: VxStore) -> bool {
    (t.structs == s.structs || exists|x: VxStruct| t.structs == s.structs.push(x)) && (t.enums == s.enums || exists|x: VxEnum| t.enums == s.enums.push(x)) }
pub proof fn vx_isdef_more(s: VxStore, t: VxStore) requires vx_more(s, t)
    ensures forall|id: usize, name: Seq<char>| vx_isdef(s, id, name) ==> #[trigger] vx_isdef(t, id, name)
{
    reveal(vx_isdef);
    assert forall|id: usize, name: Seq<char>| vx_isdef(s, id, name) implies #[trigger] vx_isdef(t, id, name) by {
        if exists|i: int| vx_sidat(s, id, i) && s.structs[i].name == name { let i = choose|i: int| vx_sidat(s, id, i) && s.structs[i].name == name; assert(vx_sidat(t, id, i)); }
        else { let i = choose|i: int| vx_eidat(s, id, i) && s.enums[i].name == name; assert(vx_eidat(t, id, i)); }
    }
}
/// what a name resolves to is a complete definition of that name
pub proof fn vx_resolve_def(st: VxStore, from: usize, p: Seq<Seq<char>>)
    ensures match vx_resolve(vx_defs(st), from, p) { Some(r) => r.len() == p.len() && r.len() > 0 && vx_isdef(st, r.last(), p.last()), None => true } decreases p.len()
{
    let d = vx_defs(st);
    vx_resolve_len(d, from, p);
    if p.len() == 1 {
        reveal(vx_isdef);
        match vx_first(d.e, from, p[0]) {
            Some(id) => { let i = choose|i: int| vx_firstat(d.e, from, p[0], i); assert(vx_eidat(st, id, i) && st.enums[i].name == p[0]); },
            None => match vx_first(d.s, from, p[0]) { Some(id) => { let i = choose|i: int| vx_firstat(d.s, from, p[0], i); assert(vx_sidat(st, id, i) && st.structs[i].name == p[0]); }, None => {} },
        }
    } else if p.len() > 1 {
        match vx_first(d.g, from, p[0]) { Some(g) => { vx_resolve_def(st, g, p.skip(1)); let q = p.skip(1); let r = vx_resolve(d, g, q); if r is Some { assert((seq![g] + r->0).last() == r->0.last()); assert(q.last() == p.last()); } }, None => {} }
    }
}
pub proof fn vx_refers_def(st: VxStore, own: usize, p: Seq<Seq<char>>)
    ensures match vx_refers(vx_defs(st), own, p) { Some(r) => r.len() == p.len() && r.len() > 0 && vx_isdef(st, r.last(), p.last()), None => true }
{ vx_resolve_def(st, own, p); vx_resolve_def(st, 0, p); }
/// complete definitions have smaller identifiers than the one that is open
pub proof fn vx_isdef_floor(st: VxStore) requires st.wf() ensures forall|id: usize, name: Seq<char>| #[trigger] vx_isdef(st, id, name) ==> id <= st.floor()
{
    reveal(vx_isdef); reveal(VxStore::wf_ids);
    assert forall|id: usize, name: Seq<char>| #[trigger] vx_isdef(st, id, name) implies id <= st.floor() by {
        if exists|i: int| vx_sidat(st, id, i) && st.structs[i].name == name { let i = choose|i: int| vx_sidat(st, id, i) && st.structs[i].name == name; assert(st.structs[i].end() <= st.floor()); }
        else { let i = choose|i: int| vx_eidat(st, id, i) && st.enums[i].name == name; assert(st.enums[i].id <= st.floor()); }
    }
}
#[verifier::spinoff_prover]
pub proof fn vx_step_refs(p: VxP, t: VxTok)
    requires vx_okp(p), vx_refsp(p), vx_step(p, t) is Some, p.st.seq < usize::MAX
    ensures vx_refsp(vx_step(p, t)->0)
{
    reveal(vx_refsp);
    let s = p.st; let q = vx_step(p, t)->0; let r = q.st;
    vx_isdef_floor(s);
    if s.cf is Some { vx_refers_def(s, vx_gid(s), s.cf->0.tp); }
    if s.ce is Some && s.ce->0.cur is Some { vx_refers_def(s, vx_gid(s), s.ce->0.cur->0.tp); }
    assert(vx_more(s, r));
    vx_isdef_more(s, r);
    assert forall|i: int| 0 <= i < r.structs.len() implies vx_structok(r, #[trigger] r.structs[i]) by { if i < s.structs.len() { assert(vx_structok(s, s.structs[i])); } }
    assert forall|i: int| 0 <= i < r.enums.len() implies vx_enumok(r, #[trigger] r.enums[i]) by { if i < s.enums.len() { assert(vx_enumok(s, s.enums[i])); } }
}
pub proof fn vx_refs_begin(hash: Seq<char>) ensures vx_refsp(vx_begin(hash)) { reveal(vx_refsp); }
pub proof fn vx_refs_of(p: VxP) requires vx_refsp(p) ensures vx_refs(p.st) { reveal(vx_refsp); }
