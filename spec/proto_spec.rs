// ======================================================================================
// What the data of the parser mean (ghost views)
// ======================================================================================
pub struct VxField { pub id: usize, pub parent: usize, pub name: Seq<char>, pub kind: Seq<char>, pub rid: Option<usize>, pub rpath: Seq<usize>, pub rep: bool, pub opt: bool, pub tp: Seq<Seq<char>> }
pub struct VxItem { pub name: Seq<char>, pub prim: Option<PrimitiveTypes::ETypes>, pub rid: Option<usize>, pub rpath: Seq<usize>, pub rep: bool, pub tp: Seq<Seq<char>> }
pub struct VxStruct { pub id: usize, pub parent: usize, pub name: Seq<char>, pub fields: Seq<VxField>, pub path: Seq<Seq<char>> }
pub struct VxEnum { pub id: usize, pub parent: usize, pub name: Seq<char>, pub vars: Seq<VxItem>, pub cur: Option<VxItem>, pub path: Seq<Seq<char>> }
pub struct VxGroup { pub id: usize, pub parent: usize, pub name: Seq<char>, pub structs: Seq<usize>, pub enums: Seq<usize>, pub groups: Seq<usize> }
pub struct VxStore { pub seq: usize, pub structs: Seq<VxStruct>, pub enums: Seq<VxEnum>, pub groups: Seq<VxGroup>,
    pub cs: Option<VxStruct>, pub cg: Option<VxGroup>, pub ce: Option<VxEnum>, pub cf: Option<VxField>, pub path: Seq<usize>, pub hash: Seq<char> }

pub open spec fn vx_names(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn vx_names_push(s: Seq<String>, x: String) ensures #[trigger] vx_names(s.push(x)) == vx_names(s).push(x@) { assert(vx_names(s.push(x)) =~= vx_names(s).push(x@)); }
pub broadcast proof fn vx_names_rev(s: Seq<String>) ensures #[trigger] vx_names(s.reverse()) == vx_names(s).reverse() { assert(vx_names(s.reverse()) =~= vx_names(s).reverse()); }
pub broadcast proof fn vx_names_empty(s: Seq<String>) requires s.len() == 0 ensures #[trigger] vx_names(s) == Seq::<Seq<char>>::empty() { assert(vx_names(s) =~= Seq::empty()); }

impl Field { pub closed spec fn v(&self) -> VxField { VxField { id: self.id, parent: self.parent, name: self.name@, kind: self.kind@, rid: self.ref_type_id, rpath: self.ref_type_path@, rep: self.repeated, opt: self.optional, tp: vx_names(self.type_path@) } } }
impl EnumItem { pub closed spec fn v(&self) -> VxItem { VxItem { name: self.name@, prim: self.types, rid: self.ref_type_id, rpath: self.ref_type_path@, rep: self.repeated, tp: vx_names(self.type_path@) } } }
impl Struct { pub closed spec fn v(&self) -> VxStruct { VxStruct { id: self.id, parent: self.parent, name: self.name@, fields: vx_fields(self.fields@), path: vx_names(self.path@) } } }
impl Enum { pub closed spec fn v(&self) -> VxEnum { VxEnum { id: self.id, parent: self.parent, name: self.name@, vars: vx_items(self.variants@), cur: match self.current { Some(i) => Some(i.v()), None => None }, path: vx_names(self.path@) } } }
impl Group { pub closed spec fn v(&self) -> VxGroup { VxGroup { id: self.id, parent: self.parent, name: self.name@, structs: self.structs@, enums: self.enums@, groups: self.groups@ } } }
impl Store { pub closed spec fn v(&self) -> VxStore { VxStore { seq: self.sequence, structs: vx_structs(self.structs@), enums: vx_enums(self.enums@), groups: vx_groups(self.groups@),
    cs: match self.c_struct { Some(x) => Some(x.v()), None => None }, cg: match self.c_group { Some(x) => Some(x.v()), None => None },
    ce: match self.c_enum { Some(x) => Some(x.v()), None => None }, cf: match self.c_field { Some(x) => Some(x.v()), None => None }, path: self.path@, hash: self.hash@ } } }
// @@SEQS@@

// ======================================================================================
// Names
// ======================================================================================
pub struct VxNode { pub id: usize, pub parent: usize, pub name: Seq<char> }
pub open spec fn vx_gnode(g: VxGroup) -> VxNode { VxNode { id: g.id, parent: g.parent, name: g.name } }
pub open spec fn vx_gnodes(s: Seq<VxGroup>) -> Seq<VxNode> { Seq::new(s.len(), |i: int| vx_gnode(s[i])) }
pub open spec fn vx_snodes(s: Seq<VxStruct>) -> Seq<VxNode> { Seq::new(s.len(), |i: int| VxNode { id: s[i].id, parent: s[i].parent, name: s[i].name }) }
pub open spec fn vx_enodes(s: Seq<VxEnum>) -> Seq<VxNode> { Seq::new(s.len(), |i: int| VxNode { id: s[i].id, parent: s[i].parent, name: s[i].name }) }
pub open spec fn vx_is(n: VxNode, parent: usize, name: Seq<char>) -> bool { n.name == name && n.parent == parent }
pub open spec fn vx_firstat(s: Seq<VxNode>, parent: usize, name: Seq<char>, i: int) -> bool {
    0 <= i < s.len() && vx_is(s[i], parent, name) && forall|j: int| 0 <= j < i ==> !vx_is(#[trigger] s[j], parent, name) }
/// the first entry of that name in that group
pub open spec fn vx_first(s: Seq<VxNode>, parent: usize, name: Seq<char>) -> Option<usize> {
    if exists|i: int| vx_firstat(s, parent, name, i) { Some(s[choose|i: int| vx_firstat(s, parent, name, i)].id) } else { None } }
pub proof fn vx_first_is(s: Seq<VxNode>, parent: usize, name: Seq<char>, i: int)
    requires vx_firstat(s, parent, name, i) ensures vx_first(s, parent, name) == Some(s[i].id)
{ let j = choose|i: int| vx_firstat(s, parent, name, i); if j < i { assert(!vx_is(s[j], parent, name)); } if i < j { assert(!vx_is(s[i], parent, name)); } }
pub proof fn vx_first_none(s: Seq<VxNode>, parent: usize, name: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> !vx_is(#[trigger] s[j], parent, name) ensures vx_first(s, parent, name) is None {}
// @@FIRSTS@@
/// the complete definitions, by name
pub struct VxDefs { pub e: Seq<VxNode>, pub s: Seq<VxNode>, pub g: Seq<VxNode> }
pub open spec fn vx_defs(st: VxStore) -> VxDefs { VxDefs { e: vx_enodes(st.enums), s: vx_snodes(st.structs), g: vx_gnodes(st.groups) } }
pub open spec fn vx_last(d: VxDefs, from: usize, name: Seq<char>) -> Option<usize> {
    match vx_first(d.e, from, name) { Some(i) => Some(i), None => vx_first(d.s, from, name) } }
/// what a dotted name means, read from one group: the identifiers along the path
pub open spec fn vx_resolve(d: VxDefs, from: usize, p: Seq<Seq<char>>) -> Option<Seq<usize>> decreases p.len() {
    if p.len() == 0 { None }
    else if p.len() == 1 { match vx_last(d, from, p[0]) { Some(i) => Some(seq![i]), None => None } }
    else { match vx_first(d.g, from, p[0]) { Some(g) => vx_pre(seq![g], vx_resolve(d, g, p.skip(1))), None => None } } }
pub open spec fn vx_pre(a: Seq<usize>, r: Option<Seq<usize>>) -> Option<Seq<usize>> { match r { Some(x) => Some(a + x), None => None } }
pub proof fn vx_pre_empty(r: Option<Seq<usize>>) ensures vx_pre(Seq::<usize>::empty(), r) == r { if r is Some { assert(Seq::<usize>::empty() + r->0 =~= r->0); } }
pub proof fn vx_pre_pre(a: Seq<usize>, g: usize, r: Option<Seq<usize>>) ensures vx_pre(a, vx_pre(seq![g], r)) == vx_pre(a.push(g), r)
{ if r is Some { assert(a + (seq![g] + r->0) =~= a.push(g) + r->0); } }
pub proof fn vx_resolve_len(d: VxDefs, from: usize, p: Seq<Seq<char>>)
    ensures vx_resolve(d, from, p) is Some ==> vx_resolve(d, from, p)->0.len() == p.len() decreases p.len()
{ if p.len() > 1 { match vx_first(d.g, from, p[0]) { Some(g) => { vx_resolve_len(d, g, p.skip(1)); }, None => {} } } }
pub proof fn vx_find_step(d: VxDefs, parent: usize, names: Seq<Seq<char>>, k: int, ids: Seq<usize>)
    requires 0 <= k < names.len()
    ensures
        names.take(k + 1) == names.take(k).push(names[k]),
        k + 1 == names.len() ==> names.take(k + 1) == names && vx_pre(ids, vx_resolve(d, parent, names.skip(k))) == match vx_last(d, parent, names[k]) { Some(i) => Some(ids.push(i)), None => None },
        k + 1 < names.len() ==> vx_pre(ids, vx_resolve(d, parent, names.skip(k))) == match vx_first(d.g, parent, names[k]) { Some(g) => vx_pre(ids.push(g), vx_resolve(d, g, names.skip(k + 1))), None => None },
{
    let rem = names.skip(k);
    assert(names.take(k + 1) =~= names.take(k).push(names[k]));
    assert(rem[0] == names[k]);
    if k + 1 == names.len() {
        assert(names.take(k + 1) =~= names);
        match vx_last(d, parent, names[k]) { Some(i) => { assert(ids + seq![i] =~= ids.push(i)); }, None => {} }
    } else {
        assert(rem.skip(1) =~= names.skip(k + 1));
        match vx_first(d.g, parent, names[k]) { Some(g) => { vx_pre_pre(ids, g, vx_resolve(d, g, rem.skip(1))); }, None => {} }
    }
}
/// own group first, then the root
pub open spec fn vx_refers(d: VxDefs, own: usize, p: Seq<Seq<char>>) -> Option<Seq<usize>> {
    match vx_resolve(d, own, p) { Some(r) => Some(r), None => vx_resolve(d, 0, p) } }

pub open spec fn vx_prim(s: Seq<char>) -> Option<PrimitiveTypes::ETypes> {
// @@PRIM@@
}
pub open spec fn vx_primname(k: PrimitiveTypes::ETypes) -> Seq<char> { match k {
// @@PRIMNAME@@
} }
pub enum VxKey { G, S, E }
pub open spec fn vx_key(s: Seq<char>) -> Option<VxKey> { if s == "group"@ { Some(VxKey::G) } else if s == "struct"@ { Some(VxKey::S) } else if s == "enum"@ { Some(VxKey::E) } else { None } }

// ======================================================================================
// What each step does
// ======================================================================================
pub open spec fn vx_gid(s: VxStore) -> usize { match s.cg { Some(g) => g.id, None => 0 } }
pub open spec fn vx_nodes(s: VxStore) -> Seq<VxNode> { match s.cg { Some(g) => vx_gnodes(s.groups).push(vx_gnode(g)), None => vx_gnodes(s.groups) } }
pub open spec fn vx_idat(n: Seq<VxNode>, id: usize, i: int) -> bool { 0 <= i < n.len() && n[i].id == id }
#[verifier::opaque]
pub open spec fn vx_in(n: Seq<VxNode>, id: usize) -> bool { exists|i: int| vx_idat(n, id, i) }
pub proof fn vx_in_is(n: Seq<VxNode>, id: usize, i: int) requires vx_idat(n, id, i) ensures vx_in(n, id) { reveal(vx_in); }
pub proof fn vx_in_at(n: Seq<VxNode>, id: usize) -> (i: int) requires vx_in(n, id) ensures vx_idat(n, id, i) { reveal(vx_in); choose|i: int| vx_idat(n, id, i) }
/// names of the groups from the root to group `id`
pub open spec fn vx_chain(n: Seq<VxNode>, id: usize) -> Seq<Seq<char>> decreases id {
    if id == 0 || !vx_in(n, id) { Seq::empty() }
    else { let g = n[choose|i: int| vx_idat(n, id, i)]; if g.parent < id { vx_chain(n, g.parent).push(g.name) } else { seq![g.name] } } }

/// the same groups
pub open spec fn vx_sameg(s: VxStore, t: VxStore) -> bool { vx_nodes(t) == vx_nodes(s) && t.path == s.path && (t.cg is Some) == (s.cg is Some) && vx_gid(t) == vx_gid(s) }
pub proof fn vx_tree_same(s: VxStore) requires s.wf_tree() ensures forall|t: VxStore| vx_sameg(s, t) ==> #[trigger] t.wf_tree() { reveal(VxStore::wf_tree); }
pub proof fn vx_tree_bind(s: VxStore, id: usize) requires s.wf_tree()
    ensures forall|t: VxStore| t.groups == s.groups && t.path == s.path && (t.cg == vx_bind_s(s.cg, id) || t.cg == vx_bind_e(s.cg, id) || t.cg == s.cg) ==> #[trigger] t.wf_tree() && vx_nodes(t) == vx_nodes(s)
{
    vx_tree_same(s);
    assert forall|t: VxStore| t.groups == s.groups && t.path == s.path && (t.cg == vx_bind_s(s.cg, id) || t.cg == vx_bind_e(s.cg, id) || t.cg == s.cg) implies #[trigger] t.wf_tree() && vx_nodes(t) == vx_nodes(s) by { assert(vx_nodes(t) =~= vx_nodes(s)); assert(vx_sameg(s, t)); }
}
pub proof fn vx_chain_at(s: VxStore)
    requires s.wf_tree()
    ensures ({ let n = vx_nodes(s);
        &&& forall|i: int| 0 <= i < n.len() ==> vx_chain(n, (#[trigger] n[i]).id) == vx_chain(n, n[i].parent).push(n[i].name) && n[i].parent < n[i].id
        &&& forall|i: int| 0 <= i < s.groups.len() ==> vx_chain(n, (#[trigger] s.groups[i]).id) == vx_chain(n, s.groups[i].parent).push(s.groups[i].name) && s.groups[i].parent < s.groups[i].id && s.groups[i].id != 0
        &&& forall|i: int| 0 <= i < s.groups.len() && (#[trigger] s.groups[i]).parent != 0 && (s.cg is None || s.groups[i].parent < s.cg->0.id) ==> vx_has(s, s.groups[i].parent)
        &&& s.cg is Some ==> vx_chain(n, s.cg->0.id) == vx_chain(n, s.cg->0.parent).push(s.cg->0.name) && s.cg->0.parent < s.cg->0.id && (s.cg->0.parent != 0 ==> vx_has(s, s.cg->0.parent))
        &&& vx_chain(n, 0) == Seq::<Seq<char>>::empty()
        &&& s.cg is Some ==> !vx_has(s, s.cg->0.id)
        &&& forall|id: usize| id != 0 && s.cg is None && !vx_has(s, id) ==> #[trigger] vx_chain(n, id) == Seq::<Seq<char>>::empty()
    })
{
    reveal(VxStore::wf_tree);
    let n = vx_nodes(s);
    assert forall|i: int| 0 <= i < n.len() implies vx_chain(n, (#[trigger] n[i]).id) == vx_chain(n, n[i].parent).push(n[i].name) && n[i].parent < n[i].id by {
        assert(vx_idat(n, n[i].id, i)); vx_in_is(n, n[i].id, i);
        let j = choose|j: int| vx_idat(n, n[i].id, j);
        if j != i { assert(n[i].id != n[j].id); }
    }
    assert forall|i: int| 0 <= i < s.groups.len() implies n[i] == vx_gnode(#[trigger] s.groups[i]) by {}
    assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).parent != 0 && (s.cg is None || n[i].parent < s.cg->0.id) implies vx_has(s, n[i].parent) by {
        let j = vx_in_at(n, n[i].parent);
        assert(j < s.groups.len());
        assert(s.groups[j].id == n[i].parent);
    }
    if s.cg is Some {
        let l = n.len() - 1;
        assert(n[l] == vx_gnode(s.cg->0));
        if vx_has(s, s.cg->0.id) { let i = choose|i: int| 0 <= i < s.groups.len() && (#[trigger] s.groups[i]).id == s.cg->0.id; assert(n[i].id != n[l].id); }
    }
    assert forall|id: usize| id != 0 && s.cg is None && !vx_has(s, id) implies #[trigger] vx_chain(n, id) == Seq::<Seq<char>>::empty() by {
        if vx_in(n, id) { let i = vx_in_at(n, id); assert(s.groups[i].id == id); }
    }
}
pub proof fn vx_path_open(s: VxStore) requires s.wf_tree() ensures s.cg is Some <==> s.path.len() > 0 { reveal(VxStore::wf_tree); }
/// there is a complete group with that identifier
pub open spec fn vx_has(s: VxStore, id: usize) -> bool { exists|i: int| 0 <= i < s.groups.len() && (#[trigger] s.groups[i]).id == id }
pub proof fn vx_rev_push(a: Seq<Seq<char>>, p: Seq<Seq<char>>, x: Seq<char>) ensures a.push(x) + p.reverse() == a + p.push(x).reverse()
{ assert(a.push(x) + p.reverse() =~= a + p.push(x).reverse()); }

pub open spec fn vx_bind_s(g: Option<VxGroup>, id: usize) -> Option<VxGroup> { match g { Some(g) => Some(VxGroup { structs: g.structs.push(id), ..g }), None => None } }
pub open spec fn vx_bind_e(g: Option<VxGroup>, id: usize) -> Option<VxGroup> { match g { Some(g) => Some(VxGroup { enums: g.enums.push(id), ..g }), None => None } }
pub open spec fn vx_open_struct(s: VxStore, name: Seq<char>) -> VxStore {
    let id = (s.seq + 1) as usize;
    VxStore { seq: id, cg: vx_bind_s(s.cg, id), cs: Some(VxStruct { id, parent: vx_gid(s), name, fields: Seq::empty(), path: vx_chain(vx_nodes(s), vx_gid(s)) }), ..s } }
pub open spec fn vx_open_enum(s: VxStore, name: Seq<char>) -> VxStore {
    let id = (s.seq + 1) as usize;
    VxStore { seq: id, cg: vx_bind_e(s.cg, id), ce: Some(VxEnum { id, parent: vx_gid(s), name, vars: Seq::empty(), cur: None, path: vx_chain(vx_nodes(s), vx_gid(s)) }), ..s } }
pub open spec fn vx_open_group(s: VxStore, name: Seq<char>) -> VxStore {
    let id = (s.seq + 1) as usize;
    VxStore { seq: id, groups: match s.cg { Some(g) => s.groups.push(VxGroup { groups: g.groups.push(id), ..g }), None => s.groups },
        cg: Some(VxGroup { id, parent: vx_gid(s), name, structs: Seq::empty(), enums: Seq::empty(), groups: Seq::empty() }), path: s.path.push(id), ..s } }
pub open spec fn vx_newfield(id: usize, kind: Seq<char>) -> VxField { VxField { id, parent: 0, name: Seq::empty(), kind, rid: None, rpath: Seq::empty(), rep: false, opt: false, tp: Seq::empty() } }
pub open spec fn vx_field_type(s: VxStore, w: Seq<char>) -> VxStore {
    match s.cf {
        Some(f) => VxStore { cf: Some(VxField { tp: f.tp.push(w), ..f }), ..s },
        None => VxStore { seq: (s.seq + 1) as usize, cf: Some(VxField { tp: seq![w], ..vx_newfield((s.seq + 1) as usize, w) }), ..s } } }
pub open spec fn vx_accept_f(s: VxDefs, own: usize, f: VxField) -> VxField {
    if f.tp.len() == 1 && vx_prim(f.tp[0]) is Some { VxField { kind: f.tp[0], ..f } }
    else { let r = vx_refers(s, own, f.tp)->0; VxField { rid: Some(r.last()), rpath: r.drop_last(), kind: f.tp.last(), ..f } } }
pub open spec fn vx_accept_i(s: VxDefs, own: usize, f: VxItem) -> VxItem {
    if f.tp.len() == 1 && vx_prim(f.tp[0]) is Some { VxItem { prim: vx_prim(f.tp[0]), ..f } }
    else { let r = vx_refers(s, own, f.tp)->0; VxItem { rid: Some(r.last()), rpath: r.drop_last(), ..f } } }
/// the type of the field is known
pub open spec fn vx_typed(s: VxDefs, own: usize, tp: Seq<Seq<char>>) -> bool { tp.len() > 0 && ((tp.len() == 1 && vx_prim(tp[0]) is Some) || vx_refers(s, own, tp) is Some) }
pub open spec fn vx_newitem() -> VxItem { VxItem { name: Seq::empty(), prim: None, rid: None, rpath: Seq::empty(), rep: false, tp: Seq::empty() } }
pub open spec fn vx_cur(e: VxEnum) -> VxItem { match e.cur { Some(i) => i, None => vx_newitem() } }
pub open spec fn vx_hasname(s: Seq<VxField>, name: Seq<char>) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).name == name }
pub open spec fn vx_close(s: VxStore) -> VxStore {
    if s.ce is Some { VxStore { enums: s.enums.push(s.ce->0), ce: None, ..s } }
    else if s.cs is Some { VxStore { structs: s.structs.push(s.cs->0), cs: None, ..s } }
    else { let all = s.groups.push(s.cg->0); let path = s.path.drop_last();
        if path.len() == 0 { VxStore { groups: all, cg: None, path, ..s } }
        else { let i = vx_pos(all, path.last()); VxStore { groups: all.remove(i), cg: Some(all[i]), path, ..s } } } }
pub open spec fn vx_posat(g: Seq<VxGroup>, id: usize, i: int) -> bool { 0 <= i < g.len() && g[i].id == id && forall|j: int| 0 <= j < i ==> (#[trigger] g[j]).id != id }
pub open spec fn vx_pos(g: Seq<VxGroup>, id: usize) -> int { choose|i: int| vx_posat(g, id, i) }
pub proof fn vx_pos_is(g: Seq<VxGroup>, id: usize, i: int) requires vx_posat(g, id, i) ensures vx_pos(g, id) == i
{ let j = vx_pos(g, id); if j < i { assert(g[j].id != id); } if i < j { assert(g[i].id != id); } }

// ======================================================================================
// The invariant of the store
// ======================================================================================
impl VxStruct {
    pub open spec fn end(self) -> int { self.id + self.fields.len() }
    pub open spec fn ok(self) -> bool {
        &&& self.id > 0
        &&& forall|k: int| 0 <= k < self.fields.len() ==> (#[trigger] self.fields[k]).id == self.id + 1 + k && self.fields[k].parent == self.id
        &&& forall|j: int, k: int| 0 <= j < k < self.fields.len() ==> (#[trigger] self.fields[j]).name != (#[trigger] self.fields[k]).name
    }
}
impl VxStore {
    /// everything that is complete has identifiers up to here
    pub open spec fn floor(self) -> int { if self.cs is Some { self.cs->0.id - 1 } else if self.ce is Some { self.ce->0.id - 1 } else { self.seq as int } }
    #[verifier::opaque]
    pub open spec fn wf_ids(self) -> bool {
        let n = vx_nodes(self);
        &&& forall|i: int| 0 <= i < self.structs.len() ==> (#[trigger] self.structs[i]).ok() && self.structs[i].end() <= self.floor()
        &&& forall|i: int| 0 <= i < self.enums.len() ==> 0 < (#[trigger] self.enums[i]).id <= self.floor() && self.enums[i].cur is None
        &&& forall|i: int| 0 <= i < n.len() ==> 0 < (#[trigger] n[i]).id <= self.floor()
        &&& forall|i: int, j: int| 0 <= i < j < self.structs.len() ==> (#[trigger] self.structs[i]).end() < (#[trigger] self.structs[j]).id
        &&& forall|i: int, j: int| 0 <= i < j < self.enums.len() ==> (#[trigger] self.enums[i]).id < (#[trigger] self.enums[j]).id
        &&& forall|i: int, j: int| 0 <= i < self.enums.len() && 0 <= j < self.structs.len() ==> !((#[trigger] self.structs[j]).id <= (#[trigger] self.enums[i]).id <= self.structs[j].end())
        &&& forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < self.structs.len() ==> !((#[trigger] self.structs[j]).id <= (#[trigger] n[i]).id <= self.structs[j].end())
        &&& forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < self.enums.len() ==> (#[trigger] self.enums[j]).id != (#[trigger] n[i]).id
    }
    pub open spec fn wf_open(self) -> bool {
        &&& !(self.cs is Some && self.ce is Some)
        &&& self.cs is Some ==> self.cs->0.ok() && self.seq == self.cs->0.end() + if self.cf is Some { 1int } else { 0 }
        &&& self.cf is Some ==> self.cs is Some && self.cf->0.id == self.seq && self.cf->0.tp.len() > 0
        &&& self.ce is Some ==> self.ce->0.id == self.seq && self.seq > 0 && (self.ce->0.cur is Some ==> self.ce->0.cur->0.tp.len() > 0)
    }
    #[verifier::opaque]
    pub open spec fn wf_tree(self) -> bool {
        let n = vx_nodes(self);
        &&& forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j ==> (#[trigger] n[i]).id != (#[trigger] n[j]).id
        &&& forall|i: int| 0 <= i < n.len() ==> 0 < (#[trigger] n[i]).id
        &&& forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i]).parent < n[i].id
        &&& forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).parent != 0 ==> vx_in(n, n[i].parent)
        &&& (self.cg is Some <==> self.path.len() > 0)
        &&& self.cg is Some ==> self.path.last() == self.cg->0.id
        &&& forall|k: int| 0 <= k < self.path.len() ==> vx_in(n, #[trigger] self.path[k])
        &&& forall|k: int, i: int| 0 <= k < self.path.len() && #[trigger] vx_idat(n, self.path[k], i) ==> n[i].parent == if k == 0 { 0 } else { self.path[k - 1] }
    }
    pub open spec fn wf(self) -> bool { self.wf_ids() && self.wf_open() && self.wf_tree() }
}
pub open spec fn vx_start(hash: Seq<char>) -> VxStore { VxStore { seq: 0, structs: Seq::empty(), enums: Seq::empty(), groups: Seq::empty(), cs: None, cg: None, ce: None, cf: None, path: Seq::empty(), hash } }
pub proof fn vx_wf_start(hash: Seq<char>) ensures vx_start(hash).wf() { reveal(VxStore::wf_ids); reveal(VxStore::wf_tree); }
pub open spec fn vx_bind_g(s: VxStore, id: usize) -> VxStore { match s.cg { Some(g) => VxStore { cg: Some(VxGroup { groups: g.groups.push(id), ..g }), groups: s.groups.push(VxGroup { groups: g.groups.push(id), ..g }), ..s }, None => s } }
pub open spec fn vx_close_field(s: VxStore) -> VxStore { VxStore { cs: Some(VxStruct { fields: s.cs->0.fields.push(VxField { parent: s.cs->0.id, ..s.cf->0 }), ..s.cs->0 }), cf: None, ..s } }
pub closed spec fn vx_ids(s: Seq<(String, usize)>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].1) }
pub closed spec fn vx_keys(s: Seq<(String, usize)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].0@) }

// ======================================================================================
// Every step keeps the invariant
// ======================================================================================
pub proof fn vx_wf_open_struct(s: VxStore, name: Seq<char>)
    requires s.wf(), s.cs is None, s.ce is None, s.seq < usize::MAX ensures vx_open_struct(s, name).wf()
{ reveal(VxStore::wf_ids); reveal(VxStore::wf_tree); let t = vx_open_struct(s, name); assert(vx_nodes(t) =~= vx_nodes(s)); }
pub proof fn vx_wf_open_enum(s: VxStore, name: Seq<char>)
    requires s.wf(), s.cs is None, s.ce is None, s.seq < usize::MAX ensures vx_open_enum(s, name).wf()
{ reveal(VxStore::wf_ids); reveal(VxStore::wf_tree); let t = vx_open_enum(s, name); assert(vx_nodes(t) =~= vx_nodes(s)); }
#[verifier::spinoff_prover]
pub proof fn vx_wf_open_group(s: VxStore, name: Seq<char>)
    requires s.wf(), s.cs is None, s.ce is None, s.seq < usize::MAX ensures vx_open_group(s, name).wf()
{ reveal(VxStore::wf_ids); reveal(VxStore::wf_tree);
    let t = vx_open_group(s, name);
    let n = vx_nodes(s); let m = vx_nodes(t);
    assert(m =~= n.push(VxNode { id: t.seq, parent: vx_gid(s), name }));
    if s.cg is Some { vx_in_is(m, vx_gid(s), n.len() - 1); }
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).parent != 0 implies vx_in(m, m[i].parent) by {
        if i < n.len() { let j = vx_in_at(n, n[i].parent); vx_in_is(m, m[i].parent, j); }
    }
    assert forall|k: int| 0 <= k < t.path.len() implies vx_in(m, #[trigger] t.path[k]) by {
        if k < s.path.len() { let i = vx_in_at(n, s.path[k]); vx_in_is(m, t.path[k], i); } else { vx_in_is(m, t.path[k], n.len() as int); }
    }
    assert forall|k: int, i: int| 0 <= k < t.path.len() && #[trigger] vx_idat(m, t.path[k], i) implies m[i].parent == if k == 0 { 0 } else { t.path[k - 1] } by {
        if k < s.path.len() { let j = vx_in_at(n, s.path[k]); assert(n[j].id != t.seq); assert(i < n.len()); assert(vx_idat(n, s.path[k], i)); } else { assert(i == n.len()); }
    }
}
pub proof fn vx_wf_field_type(s: VxStore, w: Seq<char>)
    requires s.wf(), s.cs is Some, s.seq < usize::MAX ensures vx_field_type(s, w).wf() { reveal(VxStore::wf_ids); reveal(VxStore::wf_tree); let t = vx_field_type(s, w); assert(vx_nodes(t) == vx_nodes(s)); assert(t.cf->0.tp.len() > 0); }
pub proof fn vx_wf_close_field(s: VxStore)
    requires s.wf(), s.cs is Some, s.cf is Some, !vx_hasname(s.cs->0.fields, s.cf->0.name) ensures vx_close_field(s).wf() { reveal(VxStore::wf_ids); reveal(VxStore::wf_tree); let t = vx_close_field(s); assert(vx_nodes(t) == vx_nodes(s)); assert(t.cs->0.ok()); }
pub proof fn vx_wf_close_group(s: VxStore)
    requires s.wf(), s.cs is None, s.ce is None, s.cg is Some
    ensures ({ let all = s.groups.push(s.cg->0); let path = s.path.drop_last();
        path.len() > 0 ==> exists|i: int| vx_posat(all, path.last(), i) })
{ reveal(VxStore::wf_ids); reveal(VxStore::wf_tree);
    let all = s.groups.push(s.cg->0); let path = s.path.drop_last(); let n = vx_nodes(s);
    assert(n =~= vx_gnodes(all));
    if path.len() > 0 {
        let k = path.len() - 1;
        assert(s.path[k] == path.last());
        let i = vx_in_at(n, s.path[k]);
        assert(all[i].id == path.last());
        assert forall|j: int| 0 <= j < i implies (#[trigger] all[j]).id != path.last() by { assert(n[j].id != n[i].id); }
        assert(vx_posat(all, path.last(), i));
    }
}
pub proof fn vx_wf_close(s: VxStore)
    requires s.wf(), s.cf is None, s.ce is Some ==> s.ce->0.cur is None, s.cg is Some || s.cs is Some || s.ce is Some ensures vx_close(s).wf()
{ reveal(VxStore::wf_ids); reveal(VxStore::wf_tree);
    let t = vx_close(s); let n = vx_nodes(s); let m = vx_nodes(t);
    if s.ce is Some || s.cs is Some { assert(m =~= n); }
    else {
        vx_wf_close_group(s);
        let all = s.groups.push(s.cg->0); let path = s.path.drop_last();
        assert(n =~= vx_gnodes(all));
        if path.len() == 0 { assert(m =~= n); }
        else {
            let i = choose|i: int| vx_posat(all, path.last(), i);
            vx_pos_is(all, path.last(), i);
            assert(m =~= n.remove(i).push(n[i]));
            assert forall|j: int| 0 <= j < m.len() implies m[j] == n[#[trigger] vx_moved(j, i, n.len() as int)] by {}
            vx_wf_moved(s, t, i);
        }
    }
}
pub open spec fn vx_moved(j: int, i: int, n: int) -> int { if j < i { j } else if j < n - 1 { j + 1 } else { i } }
pub open spec fn vx_back(j: int, i: int, n: int) -> int { if j < i { j } else if j == i { n - 1 } else { j - 1 } }
/// the order of the groups does not matter
pub proof fn vx_wf_moved(s: VxStore, t: VxStore, i: int)
    requires s.wf(), s.cs is None, s.ce is None, s.cf is None, s.path.len() > 1, 0 <= i < vx_nodes(s).len(),
        t.structs == s.structs, t.enums == s.enums, t.seq == s.seq, t.cs is None, t.ce is None, t.cf is None, t.cg is Some, t.path == s.path.drop_last(), t.cg->0.id == t.path.last(),
        vx_nodes(t) == vx_nodes(s).remove(i).push(vx_nodes(s)[i])
    ensures t.wf()
{ reveal(VxStore::wf_ids); reveal(VxStore::wf_tree);
    let n = vx_nodes(s); let m = vx_nodes(t); let l = n.len() as int;
    assert(m.len() == l);
    assert forall|j: int| 0 <= j < l implies m[j] == n[vx_moved(j, i, l)] by {}
    assert forall|a: int, b: int| 0 <= a < m.len() && 0 <= b < m.len() && a != b implies (#[trigger] m[a]).id != (#[trigger] m[b]).id by { assert(vx_moved(a, i, l) != vx_moved(b, i, l)); assert(n[vx_moved(a, i, l)].id != n[vx_moved(b, i, l)].id); }
    assert forall|a: int, b: int| 0 <= a < m.len() && 0 <= b < t.structs.len() implies !((#[trigger] t.structs[b]).id <= (#[trigger] m[a]).id <= t.structs[b].end()) by { assert(m[a] == n[vx_moved(a, i, l)]); }
    assert forall|a: int, b: int| 0 <= a < m.len() && 0 <= b < t.enums.len() implies (#[trigger] t.enums[b]).id != (#[trigger] m[a]).id by { assert(m[a] == n[vx_moved(a, i, l)]); }
    assert forall|a: int| 0 <= a < m.len() implies 0 < (#[trigger] m[a]).id <= t.floor() && m[a].parent < m[a].id by { assert(m[a] == n[vx_moved(a, i, l)]); }
    assert forall|a: int| 0 <= a < m.len() && (#[trigger] m[a]).parent != 0 implies vx_in(m, m[a].parent) by {
        let b = vx_moved(a, i, l); assert(m[a] == n[b]);
        let j = vx_in_at(n, n[b].parent); assert(vx_moved(vx_back(j, i, l), i, l) == j); vx_in_is(m, m[a].parent, vx_back(j, i, l));
    }
    assert forall|k: int| 0 <= k < t.path.len() implies vx_in(m, #[trigger] t.path[k]) by {
        assert(t.path[k] == s.path[k]); let j = vx_in_at(n, s.path[k]); assert(vx_moved(vx_back(j, i, l), i, l) == j); vx_in_is(m, t.path[k], vx_back(j, i, l));
    }
    assert forall|k: int, j: int| 0 <= k < t.path.len() && #[trigger] vx_idat(m, t.path[k], j) implies m[j].parent == if k == 0 { 0 } else { t.path[k - 1] } by {
        assert(t.path[k] == s.path[k]); assert(vx_idat(n, s.path[k], vx_moved(j, i, l)));
    }
}

/// a change of the open field or the open enumeration alone
pub proof fn vx_wf_open_only(s: VxStore)
    requires s.wf()
    ensures
        forall|f: VxField| s.cf is Some && f.id == s.cf->0.id && f.tp.len() > 0 ==> #[trigger] (VxStore { cf: Some(f), ..s }).wf(),
        forall|e: VxEnum| s.ce is Some && e.id == s.ce->0.id && (e.cur is Some ==> e.cur->0.tp.len() > 0) ==> #[trigger] (VxStore { ce: Some(e), ..s }).wf(),
{
    reveal(VxStore::wf_ids); reveal(VxStore::wf_tree);
    assert forall|f: VxField| s.cf is Some && f.id == s.cf->0.id && f.tp.len() > 0 implies #[trigger] (VxStore { cf: Some(f), ..s }).wf() by { assert(vx_nodes(VxStore { cf: Some(f), ..s }) == vx_nodes(s)); }
    assert forall|e: VxEnum| s.ce is Some && e.id == s.ce->0.id && (e.cur is Some ==> e.cur->0.tp.len() > 0) implies #[trigger] (VxStore { ce: Some(e), ..s }).wf() by { assert(vx_nodes(VxStore { ce: Some(e), ..s }) == vx_nodes(s)); }
}
pub broadcast proof fn vx_ids_push(s: Seq<(String, usize)>, x: (String, usize)) ensures #[trigger] vx_ids(s.push(x)) == vx_ids(s).push(x.1) { assert(vx_ids(s.push(x)) =~= vx_ids(s).push(x.1)); }
pub broadcast proof fn vx_keys_push(s: Seq<(String, usize)>, x: (String, usize)) ensures #[trigger] vx_keys(s.push(x)) == vx_keys(s).push(x.0@) { assert(vx_keys(s.push(x)) =~= vx_keys(s).push(x.0@)); }
pub broadcast proof fn vx_ids_empty(s: Seq<(String, usize)>) requires s.len() == 0 ensures #[trigger] vx_ids(s) == Seq::<usize>::empty(), vx_keys(s) == Seq::<Seq<char>>::empty() { assert(vx_ids(s) =~= Seq::empty()); assert(vx_keys(s) =~= Seq::empty()); }
