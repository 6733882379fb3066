#![allow(unused_imports, unused_variables, unused_mut, unused_must_use, dead_code, non_snake_case, non_camel_case_types, unreachable_code, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
pub type P = Seq<Seq<char>>;
pub struct VxState { pub files: Map<P, Seq<u8>>, pub writes: int }
#[verifier::external_body]
pub tracked struct VxFs { x: int }
impl VxFs { pub uninterp spec fn view(&self) -> VxState; }

/// values the slice does not follow
pub struct VxAny {}
impl VxAny { #[verifier::external_body] pub fn vx_new() -> VxAny { unimplemented!() } }
#[verifier::external_body]
pub fn vx_any<T>() -> T { unimplemented!() }
#[verifier::external_body]
pub fn vx_flag() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_choice() -> usize { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_text() -> (r: String) ensures vx_parts(r@).len() >= 1 { unimplemented!() }
#[verifier::external_body]
pub fn vx_any_path() -> PathBuf { unimplemented!() }

/// a path is the sequence of its components
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub uninterp spec fn vx_parts(s: Seq<char>) -> P;
pub uninterp spec fn vx_utf8(s: Seq<char>) -> Seq<u8>;
impl View for PathBuf { type V = P; uninterp spec fn view(&self) -> P; }
pub trait VxComps { spec fn vx_comps(&self) -> P; }
impl VxComps for &str { open spec fn vx_comps(&self) -> P { vx_parts((*self)@) } }
impl VxComps for &String { open spec fn vx_comps(&self) -> P { vx_parts((*self)@) } }
impl VxComps for String { open spec fn vx_comps(&self) -> P { vx_parts((*self)@) } }
impl VxComps for PathBuf { open spec fn vx_comps(&self) -> P { (*self)@ } }
impl VxComps for &PathBuf { open spec fn vx_comps(&self) -> P { (*self)@ } }
impl VxComps for &&PathBuf { open spec fn vx_comps(&self) -> P { (*self)@ } }
#[verifier::external_body]
pub fn vx_path<S: VxComps>(s: S) -> (r: PathBuf) ensures r@ == s.vx_comps() { unimplemented!() }
impl PathBuf {
    #[verifier::external_body]
    pub fn vx_join<S: VxComps>(&self, s: S) -> (r: PathBuf) ensures r@ == self@ + s.vx_comps() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_push<S: VxComps>(&mut self, s: S) ensures final(self)@ == old(self)@ + s.vx_comps() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_with_file_name<S: VxComps>(&self, s: S) -> (r: PathBuf) ensures self@.len() > 0 ==> r@ == self@.drop_last() + s.vx_comps() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_with_extension<S: VxComps>(&self, s: S) -> (r: PathBuf) ensures self@.len() > 0 ==> r@.len() == self@.len() && r@.drop_last() == self@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_parent(&self) -> (r: Option<&PathBuf>) { unimplemented!() }
    /// what is not there is no file
    #[verifier::external_body]
    pub fn vx_exists(&self, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: bool) ensures final(vx_w)@ == old(vx_w)@, !r ==> !old(vx_w)@.files.contains_key(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_file(&self, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: bool) ensures final(vx_w)@ == old(vx_w)@, r == old(vx_w)@.files.contains_key(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_dir(&self, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: bool) ensures final(vx_w)@ == old(vx_w)@, r ==> !old(vx_w)@.files.contains_key(self@) { unimplemented!() }
}
pub trait VxM: Sized {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn vx_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn vx_same(&self) -> (r: &Self) ensures *r == *self { unimplemented!() }
}
impl<T> VxM for T {}
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_map_err<T, E>(r: Result<T, E>) -> (o: Result<T, String>) ensures o.is_ok() == r.is_ok(), r.is_ok() ==> o->Ok_0 == r->Ok_0 { unimplemented!() }
pub struct VxBytes { pub b: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn vx_any_bytes() -> VxBytes { unimplemented!() }
pub trait VxText { fn vx_bytes(&self) -> VxBytes; }
impl VxText for str { #[verifier::external_body] fn vx_bytes(&self) -> (r: VxBytes) ensures r.b@ == vx_utf8(self@) { unimplemented!() } }
impl VxText for String { #[verifier::external_body] fn vx_bytes(&self) -> (r: VxBytes) ensures r.b@ == vx_utf8(self@) { unimplemented!() } }

pub open spec fn vx_same_files(a: VxState, b: VxState) -> bool { a.files == b.files && a.writes == b.writes }

// std::fs
#[verifier::external_body]
pub fn vx_fs_create_dir(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_create_dir_all(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_read_to_string(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<String, VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_read(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<VxAny, VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_metadata(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<VxAny, VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@), r.is_err() ==> !old(vx_w)@.files.contains_key(p@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_read_dir(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<VxAny, VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_remove_dir(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_remove_dir_all(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>)
    ensures forall|q: P| #![trigger final(vx_w)@.files.contains_key(q)] #![trigger old(vx_w)@.files.contains_key(q)] !p@.is_prefix_of(q) ==> vx_at(final(vx_w)@, q) == vx_at(old(vx_w)@, q), final(vx_w)@.writes == old(vx_w)@.writes { unimplemented!() }
pub open spec fn vx_at(s: VxState, q: P) -> Option<Seq<u8>> { if s.files.contains_key(q) { Some(s.files[q]) } else { None } }
#[verifier::external_body]
pub fn vx_fs_remove_file(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>)
    ensures vx_only(old(vx_w)@, final(vx_w)@, p@), final(vx_w)@.writes == old(vx_w)@.writes, r.is_ok() ==> final(vx_w)@.files == old(vx_w)@.files.remove(p@), r.is_err() ==> final(vx_w)@.files == old(vx_w)@.files { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_write(p: PathBuf, c: VxBytes, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>)
    ensures vx_only(old(vx_w)@, final(vx_w)@, p@), r.is_ok() ==> final(vx_w)@.writes == old(vx_w)@.writes + 1 && final(vx_w)@.files.contains_key(p@) && final(vx_w)@.files[p@] == c.b@, final(vx_w)@.writes >= old(vx_w)@.writes { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_rename(p: PathBuf, o: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>)
    ensures forall|q: P| #![trigger final(vx_w)@.files.contains_key(q)] #![trigger old(vx_w)@.files.contains_key(q)] q != o@ && !p@.is_prefix_of(q) ==> vx_at(final(vx_w)@, q) == vx_at(old(vx_w)@, q), final(vx_w)@.writes == old(vx_w)@.writes, r.is_ok() && old(vx_w)@.files.contains_key(p@) && p@ != o@ ==> final(vx_w)@.files == old(vx_w)@.files.remove(p@).insert(o@, old(vx_w)@.files[p@]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_copy(p: PathBuf, o: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<VxAny, VxAny>)
    ensures vx_only(old(vx_w)@, final(vx_w)@, o@), final(vx_w)@.writes == old(vx_w)@.writes { unimplemented!() }
pub struct VxFile { pub p: Ghost<P>, pub pos: Ghost<int> }
pub open spec fn vx_over(c: Seq<u8>, at: int, b: Seq<u8>) -> Seq<u8> { c.subrange(0, at) + b + (if at + b.len() <= c.len() { c.skip(at + b.len() as int) } else { Seq::empty() }) }
impl VxFile {
    #[verifier::external_body]
    pub fn vx_write_all(&mut self, b: VxBytes, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>)
        ensures vx_only(old(vx_w)@, final(vx_w)@, old(self).p@),
            final(self).p == old(self).p,
            final(vx_w)@.writes >= old(vx_w)@.writes,
            r.is_ok() && old(vx_w)@.files.contains_key(old(self).p@) ==> final(vx_w)@.files.contains_key(old(self).p@) && final(vx_w)@.files[old(self).p@] == vx_over(old(vx_w)@.files[old(self).p@], old(self).pos@, b.b@) && final(self).pos@ == old(self).pos@ + b.b@.len() && final(vx_w)@.writes == old(vx_w)@.writes + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_flush(&mut self, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<(), VxAny>) ensures final(vx_w)@ == old(vx_w)@, *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_file_create(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<VxFile, VxAny>)
    ensures vx_only(old(vx_w)@, final(vx_w)@, p@), final(vx_w)@.writes == old(vx_w)@.writes,
        r.is_ok() ==> final(vx_w)@.files.contains_key(p@) && final(vx_w)@.files[p@] == Seq::<u8>::empty() && r->Ok_0.p@ == p@ && r->Ok_0.pos@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_file_open(p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<VxFile, VxAny>) ensures vx_same_files(old(vx_w)@, final(vx_w)@) { unimplemented!() }
pub struct VxOpen { pub w: bool, pub c: bool, pub t: bool, pub a: bool, pub n: bool }
pub fn vx_open_options(Tracked(vx_w): Tracked<&mut VxFs>) -> (r: VxOpen) ensures r == (VxOpen { w: false, c: false, t: false, a: false, n: false }), final(vx_w)@ == old(vx_w)@ { VxOpen { w: false, c: false, t: false, a: false, n: false } }
impl VxOpen {
    pub fn vx_write(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { w: b, ..self }) { VxOpen { w: b, ..self } }
    pub fn vx_create(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { c: b, ..self }) { VxOpen { c: b, ..self } }
    pub fn vx_truncate(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { t: b, ..self }) { VxOpen { t: b, ..self } }
    pub fn vx_append(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { a: b, ..self }) { VxOpen { a: b, ..self } }
    pub fn vx_create_new(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { n: b, ..self }) { VxOpen { n: b, ..self } }
    pub fn vx_read(self, b: bool) -> (r: VxOpen) ensures r == self { self }
    #[verifier::external_body]
    pub fn vx_open(self, p: PathBuf, Tracked(vx_w): Tracked<&mut VxFs>) -> (r: Result<VxFile, VxAny>)
        ensures vx_only(old(vx_w)@, final(vx_w)@, p@), final(vx_w)@.writes == old(vx_w)@.writes,
            self.n && old(vx_w)@.files.contains_key(p@) ==> r.is_err() && final(vx_w)@ == old(vx_w)@,
            !self.t ==> (old(vx_w)@.files.contains_key(p@) ==> vx_at(final(vx_w)@, p@) == vx_at(old(vx_w)@, p@)),
            r.is_ok() ==> final(vx_w)@.files.contains_key(p@) && final(vx_w)@.files[p@] == (if old(vx_w)@.files.contains_key(p@) && !self.t { old(vx_w)@.files[p@] } else { Seq::<u8>::empty() }) && r->Ok_0.p@ == p@ && r->Ok_0.pos@ == (if self.a { final(vx_w)@.files[p@].len() as int } else { 0 }) { unimplemented!() }
}

// ---- the contracts
/// no file changes; new ones may come
pub open spec fn vx_same(a: VxState, b: VxState) -> bool { forall|p: P| #![trigger a.files.contains_key(p)] #![trigger b.files.contains_key(p)] a.files.contains_key(p) ==> b.files.contains_key(p) && b.files[p] == a.files[p] }
/// nothing but one file changes
pub open spec fn vx_only(a: VxState, b: VxState, q: P) -> bool { forall|p: P| #![trigger b.files.contains_key(p)] #![trigger a.files.contains_key(p)] p != q ==> vx_at(b, p) == vx_at(a, p) }
pub open spec fn vx_within(base: P, p: P, dir: Seq<char>) -> bool { base.len() + 1 < p.len() && base.is_prefix_of(p) && p[base.len() as int] == dir }
pub open spec fn vx_is(base: P, p: P, name: Seq<char>) -> bool { p.len() == base.len() + 1 && base.is_prefix_of(p) && p[base.len() as int] == name }
pub open spec fn vx_is2(base: P, p: P, dir: Seq<char>, name: Seq<char>) -> bool { p.len() == base.len() + 2 && base.is_prefix_of(p) && p[base.len() as int] == dir && p[base.len() as int + 1] == name }
pub open spec fn vx_named(p: P, name: Seq<char>) -> bool { p.len() > 0 && p.last() == name }
/// what generation owns below the folder of a producer in Rust, and so on
#[verifier::opaque]
pub open spec fn vx_own_p_rs(base: P, p: P) -> bool {
    vx_within(base, p, "implementation"@) || vx_is(base, p, "mod.rs"@) || vx_is2(base, p, "responses"@, "mod.rs"@) || vx_is2(base, p, "events"@, "mod.rs"@) || vx_is2(base, p, "beacons"@, "mod.rs"@) || vx_named(p, "Cargo.toml"@)
}
#[verifier::opaque]
pub open spec fn vx_own_c_rs(base: P, p: P) -> bool {
    vx_within(base, p, "implementation"@) || vx_is(base, p, "mod.rs"@) || vx_is2(base, p, "events"@, "mod.rs"@) || vx_is2(base, p, "broadcasts"@, "mod.rs"@) || vx_named(p, "Cargo.toml"@)
}
#[verifier::opaque]
pub open spec fn vx_own_p_ts(base: P, p: P) -> bool { vx_within(base, p, "implementation"@) || vx_is(base, p, "index.ts"@) || vx_named(p, "package.json"@) }
#[verifier::opaque]
pub open spec fn vx_own_c_ts(base: P, p: P) -> bool {
    vx_within(base, p, "beacons"@) || vx_within(base, p, "interfaces"@) || vx_within(base, p, "requests"@) || vx_within(base, p, "protocol"@) || vx_is(base, p, "index.ts"@) || vx_is(base, p, "options.ts"@) || vx_named(p, "package.json"@)
}
pub open spec fn vx_kept_p_rs(a: VxState, b: VxState, base: P) -> bool { forall|p: P| #![trigger a.files.contains_key(p)] #![trigger b.files.contains_key(p)] a.files.contains_key(p) && !vx_own_p_rs(base, p) ==> b.files.contains_key(p) && b.files[p] == a.files[p] }
pub open spec fn vx_kept_c_rs(a: VxState, b: VxState, base: P) -> bool { forall|p: P| #![trigger a.files.contains_key(p)] #![trigger b.files.contains_key(p)] a.files.contains_key(p) && !vx_own_c_rs(base, p) ==> b.files.contains_key(p) && b.files[p] == a.files[p] }
pub open spec fn vx_kept_p_ts(a: VxState, b: VxState, base: P) -> bool { forall|p: P| #![trigger a.files.contains_key(p)] #![trigger b.files.contains_key(p)] a.files.contains_key(p) && !vx_own_p_ts(base, p) ==> b.files.contains_key(p) && b.files[p] == a.files[p] }
pub open spec fn vx_kept_c_ts(a: VxState, b: VxState, base: P) -> bool { forall|p: P| #![trigger a.files.contains_key(p)] #![trigger b.files.contains_key(p)] a.files.contains_key(p) && !vx_own_c_ts(base, p) ==> b.files.contains_key(p) && b.files[p] == a.files[p] }

#[verifier::opaque]
pub open spec fn vx_own_all(c: Option<PathBuf>, r: Option<PathBuf>, p: P) -> bool {
    (c.is_some() && (vx_own_c_rs(c.unwrap()@, p) || vx_own_c_rs(c.unwrap()@ + vx_parts("rust"@), p) || vx_own_c_ts(c.unwrap()@, p) || vx_own_c_ts(c.unwrap()@ + vx_parts("typescript"@), p)))
    || (r.is_some() && (vx_own_p_rs(r.unwrap()@, p) || vx_own_p_rs(r.unwrap()@ + vx_parts("rust"@), p) || vx_own_p_ts(r.unwrap()@, p) || vx_own_p_ts(r.unwrap()@ + vx_parts("typescript"@), p)))
}
pub open spec fn vx_kept_all(a: VxState, b: VxState, c: Option<PathBuf>, r: Option<PathBuf>) -> bool { forall|p: P| #![trigger a.files.contains_key(p)] #![trigger b.files.contains_key(p)] a.files.contains_key(p) && !vx_own_all(c, r, p) ==> b.files.contains_key(p) && b.files[p] == a.files[p] }
/// the user asked to overwrite
pub uninterp spec fn vx_overwrite() -> bool;
pub open spec fn vx_named_by(o: Option<PathBuf>, p: P) -> bool { o.is_some() && o.unwrap()@ == p }
