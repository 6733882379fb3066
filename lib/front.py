"""Contracts for the protocol front end of the CLI (types, groups, structs, fields, enums, store, parser)."""
import os, re
import vk

SP = os.path.join(vk.ROOT, "spec")
PRIMS = ["bool", "char", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "str"]
SEQS = [("vx_fields", "Field", "VxField"), ("vx_items", "EnumItem", "VxItem"), ("vx_structs", "Struct", "VxStruct"), ("vx_enums", "Enum", "VxEnum"), ("vx_groups", "Group", "VxGroup")]


def seqs(defs=SEQS, group="vx_views_laws", more=("vx_names_push", "vx_names_rev", "vx_names_empty", "vx_ids_push", "vx_keys_push", "vx_ids_empty")):
    o, names = [], list(more)
    for f, t, v in defs:
        o.append(f"""pub closed spec fn {f}(s: Seq<{t}>) -> Seq<{v}> {{ Seq::new(s.len(), |i: int| s[i].v()) }}
pub broadcast proof fn {f}_len(s: Seq<{t}>) ensures (#[trigger] {f}(s)).len() == s.len() {{}}
pub broadcast proof fn {f}_at(s: Seq<{t}>, i: int) requires 0 <= i < s.len() ensures #[trigger] {f}(s)[i] == s[i].v() {{}}
pub broadcast proof fn {f}_at2(s: Seq<{t}>, i: int) requires 0 <= i < s.len() ensures {f}(s)[i] == (#[trigger] s[i]).v() {{}}
pub broadcast proof fn {f}_push(s: Seq<{t}>, x: {t}) ensures #[trigger] {f}(s.push(x)) == {f}(s).push(x.v()) {{ assert({f}(s.push(x)) =~= {f}(s).push(x.v())); }}
pub broadcast proof fn {f}_remove(s: Seq<{t}>, i: int) requires 0 <= i < s.len() ensures #[trigger] {f}(s.remove(i)) == {f}(s).remove(i) {{ assert({f}(s.remove(i)) =~= {f}(s).remove(i)); }}
pub broadcast proof fn {f}_empty(s: Seq<{t}>) requires s.len() == 0 ensures #[trigger] {f}(s) == Seq::<{v}>::empty() {{ assert({f}(s) =~= Seq::empty()); }}""")
        names += [f + x for x in ("_len", "_at", "_at2", "_push", "_remove", "_empty")]
    o.append("pub broadcast group %s { %s }" % (group, ", ".join(names)))
    return "\n".join(o)


def firsts():
    o = []
    for (f, t, v), n in ((SEQS[2], "vx_snodes"), (SEQS[3], "vx_enodes"), (SEQS[4], "vx_gnodes")):
        hit = "((%s).v().name == name && (%s).v().parent == parent)"
        o.append(f"""pub broadcast proof fn {n}_first(s: Seq<{t}>, parent: usize, name: Seq<char>, p: int)
    requires 0 <= p < s.len()
    ensures #![trigger s[p], vx_first({n}({f}(s)), parent, name)]
        {hit % ("s[p]", "s[p]")} && (forall|j: int| 0 <= j < p ==> !{hit % ("#[trigger] s[j]", "s[j]")}) ==> vx_first({n}({f}(s)), parent, name) == Some(s[p].v().id)
{{ if {hit % ("s[p]", "s[p]")} && (forall|j: int| 0 <= j < p ==> !{hit % ("#[trigger] s[j]", "s[j]")}) {{ let q = {n}({f}(s)); assert forall|j: int| 0 <= j < p implies !vx_is(#[trigger] q[j], parent, name) by {{ assert(!{hit % ("s[j]", "s[j]")}); }} vx_first_is(q, parent, name, p); }} }}
pub broadcast proof fn {n}_none(s: Seq<{t}>, parent: usize, name: Seq<char>)
    ensures #![trigger vx_first({n}({f}(s)), parent, name)]
        (forall|j: int| 0 <= j < s.len() ==> !{hit % ("#[trigger] s[j]", "s[j]")}) ==> vx_first({n}({f}(s)), parent, name) is None
{{ if forall|j: int| 0 <= j < s.len() ==> !{hit % ("#[trigger] s[j]", "s[j]")} {{ let q = {n}({f}(s)); assert forall|j: int| 0 <= j < q.len() implies !vx_is(#[trigger] q[j], parent, name) by {{ assert(!{hit % ("s[j]", "s[j]")}); }} vx_first_none(q, parent, name); }} }}""")
    o.append("pub broadcast group vx_find_laws { %s }" % ", ".join(n + x for n in ("vx_snodes", "vx_enodes", "vx_gnodes") for x in ("_first", "_none")))
    return "\n".join(o)


def prelude():
    t = open(os.path.join(SP, "front_std.rs")).read() + open(os.path.join(SP, "proto_spec.rs")).read() + open(os.path.join(SP, "parser_spec.rs")).read()
    t = t.replace("// @@SEQS@@", seqs()).replace("// @@FIRSTS@@", firsts())
    t = t.replace("// @@PRIM@@", "    " + " else ".join('if s == "%s"@ { Some(PrimitiveTypes::ETypes::E%s) }' % (p, p) for p in PRIMS) + " else { None }")
    t = t.replace("// @@PRIMNAME@@", "\n".join('    PrimitiveTypes::ETypes::E%s => "%s"@,' % (p, p) for p in PRIMS))
    return t


BU = "broadcast use vx_views_laws;"
KW = {"group": "G", "struct": "S", "enum": "E"}


def upd(ty, fields):
    """final view is the old one with some fields replaced"""
    return "final(self).v() == (%s { %s, ..old(self).v() })" % (ty, fields)


FIELD_EQ = "ensures vxr == (${c0}.name@ == %s@ && ${c0}.parent == %s)"


def items():
    I = {}
    # ---- primitive types and keywords
    I["PrimitiveTypes::fn is_valid"] = {"ret": "r", "clauses": "ensures r == (vx_prim(str@) is Some)"}
    I["PrimitiveTypes::fn get_entity"] = {"ret": "r", "clauses": "ensures r == vx_prim(str@)",
        "start": "proof { " + " ".join('if str@ == "%s"@ { vx_str_eq(str, "%s"); }' % (p, p) for p in PRIMS) + " }"}
    I["PrimitiveTypes::fn get_entity_as_string"] = {"ret": "r", "clauses": "ensures r is Some, r->0@ == vx_primname(kind)"}
    I["Entities::fn is_valid"] = {"ret": "r", "clauses": "ensures r == (vx_key(str@) is Some)"}
    I["Entities::fn get_entity"] = {"ret": "r", "clauses": "ensures match r { Some(EEntities::EGroup) => vx_key(str@) == Some(VxKey::G), Some(EEntities::EStruct) => vx_key(str@) == Some(VxKey::S), Some(EEntities::EEnum) => vx_key(str@) == Some(VxKey::E), None => vx_key(str@) is None }",
        "start": "proof { " + " ".join('if str@ == "%s"@ { vx_str_eq(str, "%s"); }' % (p, p) for p in KW) + " }"}
    # ---- groups
    I["impl Group::fn new"] = {"ret": "r", "clauses": "ensures r.v() == (VxGroup { id, parent, name: name@, structs: Seq::empty(), enums: Seq::empty(), groups: Seq::empty() })"}
    for k in ("struct", "enum", "group"):
        I[f"impl Group::fn bind_{k}"] = {"clauses": "ensures " + upd("VxGroup", f"{k}s: old(self).v().{k}s.push(id)")}
    # ---- structs
    I["impl Struct::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures r.v() == (VxStruct { id, parent, name: name@, fields: Seq::empty(), path: vx_names(path@) })"}
    I["impl Struct::fn add_field"] = {"start": BU + " let ghost vx_f0 = field;", "clauses": "ensures !vx_hasname(old(self).v().fields, field.v().name),\n    " + upd("VxStruct", "fields: old(self).v().fields.push(VxField { parent: old(self).v().id, ..field.v() })"),
        "closures": [{"clauses": "ensures vxr == (${c0}.name@ == field.name@)"}]}
    # ---- fields
    F0 = "VxField { id: %s, parent: %s, name: %s, kind: %s, rid: None, rpath: Seq::empty(), rep: false, opt: %s, tp: %s }"
    I["impl Field::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures r.v() == (" + F0 % ("id", "parent", 'Seq::empty()', "kind@", "false", "Seq::empty()") + ")"}
    I["impl Field::fn create_not_assigned_primitive"] = {"ret": "r", "start": BU, "clauses": "ensures r.v() == (" + F0 % ("0", "0", "name@", "vx_primname(kind)", "optional", "seq![vx_primname(kind)]") + ")", "tail_wrap": "proof { assert(vx_tail.v().tp =~= seq![vx_tail.v().kind]); }"}
    I["impl Field::fn set_name"] = {"clauses": "ensures " + upd("VxField", "name: name@")}
    I["impl Field::fn set_type"] = {"clauses": "ensures " + upd("VxField", "kind: vx_primname(kind)")}
    I["impl Field::fn add_type_path"] = {"start": BU, "clauses": "ensures " + upd("VxField", "tp: old(self).v().tp.push(type_str@)")}
    I["impl Field::fn add_ref_type_path"] = {"clauses": "ensures " + upd("VxField", "rpath: old(self).v().rpath.push(ref_type_id)")}
    I["impl Field::fn set_as_repeated"] = {"clauses": "ensures " + upd("VxField", "rep: true")}
    I["impl Field::fn set_as_optional"] = {"clauses": "ensures " + upd("VxField", "opt: true")}
    I["impl Field::fn get_full_name"] = {"ret": "r", "clauses": "ensures vx_names(r@) == self.v().tp"}
    I["impl Field::fn get_path"] = {"ret": "r", "clauses": "requires self.v().tp.len() > 0\nensures vx_names(r@) == self.v().tp.drop_last()", "tail_wrap": "proof { assert(vx_names(vx_tail@) =~= self.v().tp.drop_last()); }"}
    acc = lambda f: {"clauses": "ensures vx_typed(vx_defs(store.v()), own_group_id, old(self).v().tp), final(self).v() == %s(vx_defs(store.v()), own_group_id, old(self).v())" % f,
        "start": BU, "closures": [{"ret": "vxr: usize", "clauses": "ensures vxr == vx_c0.1"}],
        "end": "proof { vx_resolve_len(vx_defs(store.v()), own_group_id, old(self).v().tp); vx_resolve_len(vx_defs(store.v()), 0, old(self).v().tp); if !(old(self).v().tp.len() == 1 && vx_prim(old(self).v().tp[0]) is Some) { assert(self.v().rpath =~= vx_refers(vx_defs(store.v()), own_group_id, old(self).v().tp)->0.drop_last()); } }"}
    I["impl Field::fn accept_type"] = acc("vx_accept_f")
    # ---- enumerations
    I["impl EnumItem::fn accept_type"] = acc("vx_accept_i")
    I["impl EnumItem::fn add_type_path"] = {"start": BU, "clauses": "ensures " + upd("VxItem", "tp: old(self).v().tp.push(type_str@)")}
    I["impl EnumItem::fn get_path"] = {"clauses": "requires self.v().tp.len() > 0"}
    I["impl EnumItem::fn get_full_name"] = {}
    I["impl Enum::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures r.v() == (VxEnum { id, parent, name: name@, vars: Seq::empty(), cur: None, path: vx_names(path@) })"}
    I["impl Enum::fn set_name"] = {"start": BU, "clauses": "ensures old(self).v().cur is Some, " + upd("VxEnum", "cur: None, vars: old(self).v().vars.push(VxItem { name: name@, ..old(self).v().cur->0 })")}
    I["impl Enum::fn set_type_ref"] = {"start": BU}
    I["impl Enum::fn set_as_repeated"] = {"start": BU, "clauses": "ensures old(self).v().cur is Some, " + upd("VxEnum", "cur: Some(VxItem { rep: true, ..old(self).v().cur->0 })")}
    I["impl Enum::fn set_simple"] = {"start": BU, "clauses": "ensures old(self).v().cur is None, " + upd("VxEnum", "vars: old(self).v().vars.push(VxItem { name: value@, prim: Some(PrimitiveTypes::ETypes::Estr), ..vx_newitem() })")}
    I["impl Enum::fn add_type_path"] = {"start": BU, "clauses": "ensures " + upd("VxEnum", "cur: Some(VxItem { tp: vx_cur(old(self).v()).tp.push(type_str@), ..vx_cur(old(self).v()) })")}
    I["impl Enum::fn get_current_option"] = {"ret": "r", "clauses": "ensures match r { Some(i) => self.v().cur == Some(i.v()), None => self.v().cur is None }"}
    I["impl Enum::fn accept_type"] = {"clauses": "ensures old(self).v().cur is Some, vx_typed(vx_defs(store.v()), own_group_id, old(self).v().cur->0.tp), " + upd("VxEnum", "cur: Some(vx_accept_i(vx_defs(store.v()), own_group_id, old(self).v().cur->0))")}
    # ---- the store
    I["impl Store::fn new"] = {"ret": "r", "start": BU, "clauses": "ensures r.v() == vx_start(hash@), r.v().wf()", "tail_wrap": "proof { vx_wf_start(vx_tail.v().hash); }"}
    I["impl Store::fn get_hash"] = {"ret": "r", "clauses": "ensures r@ == self.v().hash"}
    for k, t in (("struct", "VxStruct"), ("enum", "VxEnum"), ("group", "VxGroup")):
        I[f"impl Store::fn get_{k}"] = {"ret": "r", "start": BU, "clauses": f"ensures match r {{ Some(x) => x.v().id == id && exists|i: int| 0 <= i < self.v().{k}s.len() && #[trigger] self.v().{k}s[i] == x.v(), None => forall|i: int| 0 <= i < self.v().{k}s.len() ==> (#[trigger] self.v().{k}s[i]).id != id }}",
            "tail_wrap": f"""proof {{ let a = self.{k}s@; let b = self.v().{k}s; assert(b == vx_{k}s(a));
    if vx_tail is Some {{ let p = choose|p: int| 0 <= p < a.len() && (#[trigger] a[p]).v() == vx_tail->0.v() && a[p].id == id; assert(b[p] == a[p].v()); }}
    else {{ assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).id != id by {{ assert(b[i] == a[i].v()); }} }} }}""",
            "closures": [{"clauses": "ensures vxr == (${c0}.id == id)"}]}
    I["impl Store::fn get_path_by_parent"] = {"ret": "r", "start": BU + " proof { vx_chain_at(self.v()); }", "clauses": "requires self.v().wf_tree(), parent_id == 0 || parent_id == vx_gid(self.v()) || self.v().cg is None\nensures vx_names(r@) == vx_chain(vx_nodes(self.v()), parent_id)",
        "loops": [{"kind": "while", "clauses": """invariant
    self.v().wf_tree(), parent_id == 0 || parent_id == vx_gid(self.v()) || self.v().cg is None,
    ${PARENT} < parent_id,
    vx_chain(vx_nodes(self.v()), parent_id) == vx_chain(vx_nodes(self.v()), ${PARENT}) + vx_names(${PATH}@).reverse(),
    ${PARENT} == 0 || vx_has(self.v(), ${PARENT}),
ensures vx_chain(vx_nodes(self.v()), parent_id) == vx_names(${PATH}@).reverse(),
decreases ${PARENT}""", "start": BU + " let ghost vx_p0 = vx_names(${PATH}@); proof { vx_chain_at(self.v()); }",
            "end": "proof { vx_rev_push(vx_chain(vx_nodes(self.v()), ${PARENT}), vx_p0, vx_names(${PATH}@).last()); assert(vx_names(${PATH}@) == vx_p0.push(vx_names(${PATH}@).last())); }"}],
        "binds": {"PATH": "letmut$:Vec<String>@", "PARENT": "letmut$=parent_id;"}}
    S = lambda f: "final(self).v() == (VxStore { %s, ..old(self).v() })" % f
    O = "old(self).v()"
    W = "requires old(self).v().wf()"
    I["impl Store::fn open_struct"] = {"start": BU + " proof { vx_tree_bind(self.v(), (self.v().seq + 1) as usize); }", "clauses": W + f", {O}.seq < usize::MAX\nensures {O}.cs is None, {O}.ce is None, final(self).v() == vx_open_struct({O}, name@), final(self).v().wf()",
        "end": "proof { vx_wf_open_struct(old(self).v(), name@); }"}
    I["impl Store::fn open_enum"] = {"start": BU + " proof { vx_tree_bind(self.v(), (self.v().seq + 1) as usize); }", "clauses": W + f", {O}.seq < usize::MAX\nensures {O}.cs is None, {O}.ce is None, final(self).v() == vx_open_enum({O}, name@), final(self).v().wf()",
        "end": "proof { vx_wf_open_enum(old(self).v(), name@); }"}
    I["impl Store::fn open_group"] = {"start": BU, "clauses": W + f", {O}.seq < usize::MAX\nensures {O}.cs is None, {O}.ce is None, final(self).v() == vx_open_group({O}, name@), final(self).v().wf()",
        "end": "proof { vx_wf_open_group(old(self).v(), name@); }"}
    I["impl Store::fn set_field_type"] = {"start": BU, "clauses": W + f", {O}.seq < usize::MAX\nensures {O}.cs is Some, final(self).v() == vx_field_type({O}, type_str@), final(self).v().wf()",
        "end": "proof { assert(self.v().cf->0.tp =~= vx_field_type(old(self).v(), type_str@).cf->0.tp); vx_wf_field_type(old(self).v(), type_str@); }"}
    D = "vx_defs(self.v())"
    I["impl Store::fn find_by_path"] = {"attrs": "#[verifier::spinoff_prover]", "ret": "r", "start": BU + f" proof {{ let n = vx_names(path@); assert(n.skip(0) =~= n); assert(n.take(0) =~= Seq::<Seq<char>>::empty()); vx_pre_empty(vx_resolve({D}, from, n)); }}", "clauses": f"""requires path@.len() > 0
ensures match r {{ Some(v) => vx_resolve({D}, from, vx_names(path@)) == Some(vx_ids(v@)) && vx_keys(v@) == vx_names(path@), None => vx_resolve({D}, from, vx_names(path@)) is None }}""",
        "binds": {"RES": "letmut$:Vec<(String,usize)>@", "LAST": "let$=path.len()-1;", "PARENT": "letmut$:usize=from;"},
        "closures": [{"clauses": FIELD_EQ % ("type_str", "parent")}] * 3,
        "loops": [{"kind": "for", "iter": "vx_it", "clauses": f"""invariant
    path@.len() > 0, ${{LAST}} == path@.len() - 1, path@.len() <= usize::MAX,
    vx_it.seq().len() == path@.len(), forall|i: int| 0 <= i < path@.len() ==> #[trigger] vx_it.seq()[i] == (i as usize, &path@[i]),
    vx_keys(${{RES}}@) == vx_names(path@).take(vx_it.index@),
    vx_it.index@ < path@.len() ==> vx_resolve({D}, from, vx_names(path@)) == vx_pre(vx_ids(${{RES}}@), vx_resolve({D}, ${{PARENT}}, vx_names(path@).skip(vx_it.index@))),
    vx_it.index@ == path@.len() ==> vx_resolve({D}, from, vx_names(path@)) == Some(vx_ids(${{RES}}@)),""",
            "start": BU + f" broadcast use vx_find_laws; proof {{ vx_find_step({D}, ${{PARENT}}, vx_names(path@), vx_it.index@, vx_ids(${{RES}}@)); }}"}]}
    I["impl Store::fn find_by_str_path"] = {"ret": "r", "start": BU + " proof { vx_splits_some(path@, '.'); }",
        "clauses": f"ensures (r is Some) == (vx_resolve({D}, from, vx_splits(path@, '.')) is Some)",
        "binds": {"PARTS": "let$:Vec<String>=@"}, "closures": [{"ret": "vxr: String", "clauses": "ensures vxr@ == (*${c0})@"}],
        "anchors": [{"stmt": "self.find_by_path(@", "before": "proof { assert(vx_names(${PARTS}@) =~= vx_splits(path@, '.')); }"}]}
    I["impl Store::fn set_field_type_as_repeated"] = {"start": BU + " proof { vx_wf_open_only(self.v()); }", "clauses": W + f"\nensures final(self).v().wf(), if {O}.ce is Some {{ {O}.ce->0.cur is Some && " + S("ce: Some(VxEnum { cur: Some(VxItem { rep: true, ..old(self).v().ce->0.cur->0 }), ..old(self).v().ce->0 })") + f" }} else {{ {O}.cf is Some && " + S("cf: Some(VxField { rep: true, ..old(self).v().cf->0 })") + " }"}
    I["impl Store::fn set_field_type_as_optional"] = {"start": BU + " proof { vx_wf_open_only(self.v()); }", "clauses": W + f"\nensures final(self).v().wf(), {O}.cf is Some, " + S("cf: Some(VxField { opt: true, ..old(self).v().cf->0 })")}
    I["impl Store::fn set_field_name"] = {"start": BU + " proof { vx_wf_open_only(self.v()); }", "clauses": W + f"\nensures final(self).v().wf(), {O}.cs is Some, {O}.cf is Some, vx_typed(vx_defs({O}), vx_gid({O}), {O}.cf->0.tp), " + S(f"cf: Some(vx_accept_f(vx_defs({O}), vx_gid({O}), VxField {{ name: name_str@, ..{O}.cf->0 }}))")}
    I["impl Store::fn close_field"] = {"start": BU, "clauses": W + f"\nensures final(self).v().wf(), {O}.cs is Some, {O}.cf is Some, !vx_hasname({O}.cs->0.fields, {O}.cf->0.name), final(self).v() == vx_close_field({O})",
        "end": "proof { vx_wf_close_field(old(self).v()); }"}
    I["impl Store::fn set_enum_type"] = {"start": BU + " proof { vx_wf_open_only(self.v()); }", "clauses": W + f"\nensures final(self).v().wf(), {O}.ce is Some, " + S(f"ce: Some(VxEnum {{ cur: Some(VxItem {{ tp: vx_cur({O}.ce->0).tp.push(type_str@), ..vx_cur({O}.ce->0) }}), ..{O}.ce->0 }})")}
    I["impl Store::fn set_simple_enum_item"] = {"start": BU + " proof { vx_wf_open_only(self.v()); }", "clauses": W + f"\nensures final(self).v().wf(), {O}.ce is Some, {O}.ce->0.cur is None, " + S(f"ce: Some(VxEnum {{ vars: {O}.ce->0.vars.push(VxItem {{ name: word@, prim: Some(PrimitiveTypes::ETypes::Estr), ..vx_newitem() }}), ..{O}.ce->0 }})")}
    I["impl Store::fn set_enum_name"] = {"start": BU + " proof { vx_wf_open_only(self.v()); }", "clauses": W + f"\nensures final(self).v().wf(), {O}.ce is Some, {O}.ce->0.cur is Some, vx_typed(vx_defs({O}), vx_gid({O}), {O}.ce->0.cur->0.tp), " + S(f"ce: Some(VxEnum {{ cur: None, vars: {O}.ce->0.vars.push(VxItem {{ name: name@, ..vx_accept_i(vx_defs({O}), vx_gid({O}), {O}.ce->0.cur->0) }}), ..{O}.ce->0 }})")}
    I["impl Store::fn is_enum_opened"] = {"ret": "r", "clauses": f"ensures r == ({O}.ce is Some), final(self).v() == {O}"}
    I["impl Store::fn is_field_opened"] = {"ret": "r", "clauses": f"ensures r == ({O}.cf is Some), final(self).v() == {O}"}
    I["impl Store::fn is_opened"] = {"ret": "r", "clauses": "ensures r == (self.v().cg is Some || self.v().cs is Some || self.v().ce is Some || self.v().cf is Some)"}
    I["impl Store::fn open"] = {"clauses": f"ensures final(self).v() == {O}, {O}.cg is Some || {O}.cs is Some || {O}.ce is Some"}
    I["impl Store::fn close"] = {"start": BU + " proof { vx_path_open(self.v()); }", "clauses": W + f", {O}.cf is None, {O}.ce is Some ==> {O}.ce->0.cur is None\nensures {O}.cg is Some || {O}.cs is Some || {O}.ce is Some, final(self).v() == vx_close({O}), final(self).v().wf()",
        "closures": [{"clauses": "ensures vxr == (${c0}.id == self.path@[self.path@.len() - 1])"}],
        "anchors": [{"stmt": "if self.path.is_empty()@".replace(" ", ""), "before": "proof { assert(self.path@ =~= old(self).v().path.drop_last()); vx_wf_close_group(old(self).v()); }"}],
        "end": "proof { vx_wf_close(old(self).v()); }"}
    I["impl Store::fn order"] = {"ret": "r", "clauses": f"ensures r is Ok, final(self).v() == {O}", "closures": [{"clauses": "ensures true"}], "loops": [{"clauses": "invariant self.v() == old(self).v(),"}]}
    I["impl Store::fn get_group_id"] = {"ret": "r", "clauses": f"ensures r == vx_gid({O}), final(self).v() == {O}"}
    for k in ("struct", "enum"):
        I[f"impl Store::fn bind_{k}_with_group"] = {"start": BU, "clauses": f"ensures " + S(f"cg: vx_bind_{k[0]}({O}.cg, id)")}
    I["impl Store::fn bind_group_with_group"] = {"start": BU, "clauses": f"ensures final(self).v() == vx_bind_g({O}, id)"}
    # ---- the parser
    I["enum EExpectation"] = {"attrs": "#[derive(Structural, Eq)]"}
    I["enum ENext"] = {"drop_derives": ["Clone"]}
    I["fn is_in"] = {"ret": "r", "clauses": "ensures r == src@.contains(*target)", "closures": [{"clauses": "ensures vxr == (*${c0} == *target)"}]}
    I["impl Parser::fn get_content"] = {"ret": "r", "clauses": "ensures r is Ok ==> r->Ok_0@ == vx_file(target)"}
    I["impl Parser::fn new"] = {"ret": "r", "clauses": "ensures r.vx_src() == src"}
    I["impl Parser::fn next"] = {"ret": "r", "attrs": "#[verifier::spinoff_prover]", "clauses": "ensures final(self).vx_src() == old(self).vx_src(), match r { Ok(ENext::End()) => vx_next(content@) is End, Ok(e) => match vx_next(content@) { VxNext::Tok(t, n) => vx_tokof(t, n, e), _ => false }, Err(_) => vx_next(content@) is Bad }",
        "start": "proof { vx_mem_string(&content); }",
        "binds": {"STR": "letmut$:String=@", "PASS": "letmut$:usize=@", "BR": "letmut$:bool=@", "BC": "let$:Vec<char>=vec![chars::SEMICOLON@", "SC": "let$:Vec<char>=vec![chars::OPEN_SQ@", "AC": "let$:Vec<char>=vec![chars::UNDER@"},
        "closures": [{"clauses": "auto"}] * 3,
        "loops": [{"kind": "for", "iter": "vx_it", "desugar": True, "clauses": """invariant
    self.vx_src() == old(self).vx_src(), vx_it.obeys_prophetic_iter_laws(), vx_it.remaining() == content@.skip(vx_k), 0 <= vx_k <= content@.len(), content@.len() <= isize::MAX,
    ${BC}@ == seq![';', '{', '}', '?', '.'], ${SC}@ == seq!['[', ']'], ${AC}@ == seq!['_'],
    ${PASS} == vx_k, vx_lexing(content@, vx_k, ${STR}@, ${BR}),
ensures vx_k == content@.len(),
decreases content@.len() - vx_k""",
            "start": "proof { vx_lex_step(content@, vx_k, ${STR}@, ${BR}); assert(${BC}@[0] == ';' && ${BC}@[1] == '{' && ${BC}@[2] == '}' && ${BC}@[3] == '?' && ${BC}@[4] == '.'); assert(${SC}@[0] == '[' && ${SC}@[1] == ']'); assert(${AC}@[0] == '_'); }",
            "after": "proof { vx_lex_end(content@, ${STR}@, ${BR}); }"}]}
    R0 = "vx_run(vx_begin(vx_hash(old(self).vx_src())), vx_file(old(self).vx_src()))"
    I["impl Parser::fn parse"] = {"free": True, "ret": "r", "attrs": "#[verifier::spinoff_prover]", "slices": {"from": "vx_from"}, "clauses": f"ensures final(self).vx_src() == old(self).vx_src(), match r {{ Ok(st) => {R0} == Some(st.v()) && st.v().wf() && vx_closed(st.v()) && vx_refs(st.v()), Err(_) => true }}",
        "binds": {"CONTENT": "letmut$:String=@", "ERRS": "letmut$:Vec<String>=@", "EXP": "letmut$:Vec<EExpectation>=@", "STORE": "letmut$:Store=@"},
        "loops": [{"kind": "loop", "before": "let ghost mut vx_p = vx_begin(vx_hash(old(self).vx_src())); proof { vx_mem_string(&${CONTENT}); vx_refs_begin(vx_hash(old(self).vx_src())); }", "clauses": f"""invariant
    self.vx_src() == old(self).vx_src(),
    vx_okp(vx_p), vx_refsp(vx_p), vx_p.st == ${{STORE}}.v(), ${{ERRS}}@.len() == 0,
    forall|e: EExpectation| ${{EXP}}@.contains(e) ==> vx_may(vx_p.ph, e),
    vx_p.ph is Body ==> ${{EXP}}@.contains(EExpectation::StructDef),
    vx_run(vx_p, ${{CONTENT}}@) == {R0},
    ${{STORE}}.v().seq + ${{CONTENT}}@.len() <= isize::MAX,
ensures self.vx_src() == old(self).vx_src(), ${{ERRS}}@.len() == 0 ==> ({R0} == Some(${{STORE}}.v()) && ${{STORE}}.v().wf() && vx_closed(${{STORE}}.v()) && vx_refs(${{STORE}}.v())),
decreases ${{CONTENT}}@.len()""".replace("invariant\n", "invariant_except_break\n"),
            "start": "let ghost vx_t0 = ${CONTENT}@; proof { vx_next_adv(vx_t0); vx_mem_string(&${CONTENT}); vx_refs_of(vx_p); }",
            "end": "proof { vx_step_refs(vx_p, vx_next(vx_t0)->Tok_0); vx_p = vx_step(vx_p, vx_next(vx_t0)->Tok_0)->0; }"}]}
    return I


# not used by the parser of the protocol
UNUSED = ["impl Struct::fn set_fields"] + ["impl Store::fn " + x for x in ("add_service_struct", "get_child_groups", "get_struct_by_str_path", "get_struct_path", "get_enum_path")]


def hash_too(I, key, inv="", pre="ensures "):
    """H01: the hash on its own, so that a failure of this clause tells about the hash"""
    I[key] = dict(I[key])
    I[key]["clauses"] += ",\n match r { Ok(st) => st.v().hash == vx_hash(old(self).vx_src()), Err(_) => true } /*H01*/"
    I[key]["loops"] = [dict(x) for x in I[key]["loops"]]
    c = I[key]["loops"][0]["clauses"]
    assert c.count(inv[0]) == 1 and c.count("\nensures self.vx_src()") == 1
    I[key]["loops"][0]["clauses"] = c.replace(inv[0], inv[1] + " /*H01*/\n" + inv[0]).replace("\nensures self.vx_src()", "\nensures\n" + inv[1] + " /*H01*/\n self.vx_src()")


def rules(cli, drop=(), lemmas="", hash=False):
    I = items()
    if hash:
        I["impl Store::fn new"] = dict(I["impl Store::fn new"], clauses=I["impl Store::fn new"]["clauses"] + ",\n r.v().hash == hash@ /*H01*/")
        hash_too(I, "impl Parser::fn parse", ("    vx_okp(vx_p), vx_refsp(vx_p)", "    ${STORE}.v().hash == vx_hash(old(self).vx_src()),"))
    P = cli + "/src/protocol/"
    return {
        "header": prelude() + lemmas, "footer": "\n} // verus!\n",
        "loops_need_rules": False, "drop_uses": ["super::", "helpers::", "entities::", "enums::", "fields::", "groups::", "store::", "structs::", "types::", "std::"], "drop_derives": ["Debug"], "mod_prelude": "use vstd::prelude::*; use super::*;",
        "drop": UNUSED + list(drop),
        "methods": {"clone": "vx_clone", "cloned": "vx_cloned", "to_vec": "vx_to_vec", "reverse": "vx_reverse", "join": "vx_join", "to_string": "vx_to_string", "split": "vx_split", "collect": "vx_collect"},
        "paths": {"String::from": "vx_string_from"},
        "chains": {"iter.find": "vx_iter_find", "iter.any": "vx_iter_any", "iter.position": "vx_iter_position", "iter.enumerate": "vx_iter_enumerate", "iter.map": "vx_iter_map"},
        "macros": {"stop": "vx_stopm", "format": "vx_formatm"},
        "sources": [{"path": cli + "/src/helpers/chars.rs", "pre": "pub mod chars {", "post": "}"}] + [{"path": P + f} for f in ["types.rs", "entities.rs", "groups.rs", "structs.rs", "fields.rs", "enums.rs", "store.rs", "parser.rs"]],
        "stub": ["impl Parser::fn get_content"],
        "items": I}
