"""Contracts for the Rust codec that clibri generates from a protocol (.prot) schema.

`rules(proto, src)` returns the weave rules: the executable text of the generated file is copied
verbatim and the contracts written here are inserted into it.
"""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

PR = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64"]
W = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "f32": 4, "f64": 8, "bool": 1}
# specification value type
VT = {"f32": "u32", "f64": "u64", "str": "Seq<char>"}
ALLP = PR + ["bool"]


def vt(p):
    return VT.get(p, p)


def rust(p):
    return "String" if p == "str" else p


# ---------------------------------------------------------------------------- prelude fragments
def frag_le():
    o = []
    for p in PR:
        v = vt(p)
        if W[p] > 1:
            o.append(f"pub uninterp spec fn vx_be_{p}(v: {v}) -> Seq<u8>;")
            o.append(f"pub uninterp spec fn vx_unbe_{p}(b: Seq<u8>) -> {v};")
        be = f"vx_be_{p}" if W[p] > 1 else f"vx_le_{p}"
        o.append(f"""impl VxLe for {p} {{
    open spec fn vx_le(v: {v}) -> Seq<u8> {{ vx_le_{p}(v) }}
    open spec fn vx_be(v: {v}) -> Seq<u8> {{ {be}(v) }}
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: Vec<u8>) {{ self.to_le_bytes().to_vec() }}
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: Vec<u8>) {{ self.to_be_bytes().to_vec() }}
}}""")
    return "\n".join(o)


def frag_get():
    o = []
    for p in PR:
        for sfx, un in (("_le" if W[p] > 1 else "", f"vx_un_{p}"),) + ((("", f"vx_unbe_{p}"),) if W[p] > 1 else ()):
            o.append(f"""    #[verifier::external_body]
    pub fn get_{p}{sfx}(&mut self) -> (r: {p}) requires old(self).vx_has({W[p]})
        ensures r.dv() == {un}(old(self).vx_at({W[p]})), final(self).vx_buf() == old(self).vx_buf(),
            final(self).vx_pos() == old(self).vx_pos() + {W[p]} {{ unimplemented!() }}""")
    return "\n".join(o)


def frag_fw():
    o = []
    for p in ALLP:
        v, w = vt(p), W[p]
        o.append(f"""pub open spec fn vx_f_{p}() -> spec_fn({v}) -> Seq<u8> {{ |v: {v}| vx_le_{p}(v) }}
pub open spec fn vx_arr_{p}(b: Seq<u8>) -> Option<Seq<{v}>> {{
    if b.len() % {w} == 0 {{ Some(Seq::new((b.len() / {w}) as nat, |i: int| vx_un_{p}(b.subrange({w} * i, {w} * i + {w})))) }} else {{ None }}
}}""")
    return "\n".join(o)


def prelude():
    t = open(os.path.join(ROOT, "spec", "codec_prelude.rs")).read()
    t = t.replace("// @@LE@@", frag_le()).replace("// @@GET@@", frag_get()).replace("// @@FW@@", frag_fw())
    lem = open(os.path.join(ROOT, "spec", "codec_lemmas.rs")).read()
    t += "\n" + lem.replace("// @@PRIM_LEMMAS@@", frag_prim_lemmas()).replace("// @@PRIM_RT@@", frag_prim_rt())
    return t


def frag_prim_lemmas():
    o = []
    for p in ALLP:
        v, w = vt(p), W[p]
        base = {"i16": "u16", "i32": "u32", "i64": "u64", "f32": "u32", "f64": "u64"}.get(p)
        if p in ("u16", "u32", "u64"):
            n = W[p]
            body = "assert(" + " | ".join(f"(((v >> {8 * k}) & 0xff) as u8 as {p}) << {8 * k}" if k else f"((v & 0xff) as u8 as {p})" for k in range(n)) + " == v) by (bit_vector);"
        elif base:
            body = f"broadcast use vx_rt_{base};"
        else:
            body = ""
        o.append(f"""pub broadcast proof fn vx_rt_{p}(v: {v})
    ensures (#[trigger] vx_le_{p}(v)).len() == {w}, vx_un_{p}(vx_le_{p}(v)) == v
{{ {body} }}
pub proof fn vx_cat_{p}(s: Seq<{v}>)
    ensures vx_cat(s, vx_f_{p}()).len() == {w} * s.len(), vx_arr_{p}(vx_cat(s, vx_f_{p}())) == Some(s)
    decreases s.len()
{{
    broadcast use vx_rt_{p};
    let b = vx_cat(s, vx_f_{p}());
    if s.len() > 0 {{
        vx_cat_{p}(s.drop_last());
        let c = vx_cat(s.drop_last(), vx_f_{p}());
        assert(b == c + vx_le_{p}(s.last()));
        let r = vx_arr_{p}(b)->0;
        assert(b.len() / {w} == s.len()) by (nonlinear_arith) requires b.len() == {w} * s.len();
        assert forall|i: int| 0 <= i < s.len() implies r[i] == s[i] by {{
            if i == s.len() - 1 {{
                assert(b.subrange({w} * i, {w} * i + {w}) =~= vx_le_{p}(s.last()));
            }} else {{
                assert(b.subrange({w} * i, {w} * i + {w}) =~= c.subrange({w} * i, {w} * i + {w}));
                assert(vx_arr_{p}(c)->0[i] == s.drop_last()[i]);
            }}
        }}
        assert(r =~= s);
    }} else {{
        assert(vx_arr_{p}(b)->0 =~= s);
    }}
}}""")
    o.append("pub broadcast group vx_rt_prims { " + ", ".join(f"vx_rt_{p}" for p in ALLP) + " }")
    return "\n".join(o)


def frag_prim_rt():
    o = []
    for p in ALLP:
        v, w = vt(p), W[p]
        o.append(f"""impl VxRtE for {p} {{
    open spec fn rt_pre(v: {v}) -> bool {{ true }}
    proof fn rt(v: {v}) {{ broadcast use vx_rt_prims; assert(vx_le_{p}(v).subrange(0, {w}) =~= vx_le_{p}(v)); }}
}}
impl VxRtE for Vec<{p}> {{
    open spec fn rt_pre(v: Seq<{v}>) -> bool {{ true }}
    proof fn rt(v: Seq<{v}>) {{ vx_cat_{p}(v); }}
}}""")
    return "\n".join(o)


# ---------------------------------------------------------------------------- static sections
GBS_CL = """ensures
    match vx_src(source, id) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err },
    vx_frame(source),"""
GFS_START = "broadcast use {vx_broadcasts}; let ghost vx_b = vx_src(source, id);"


def static_items():
    I = {}
    for n, w in W.items():
        I[f"sizes::const {n.upper()}_LEN"] = {
            "ensures": f"{n.upper()}_LEN == {w}",
            "hint": "broadcast use vstd::layout::layout_of_primitives; proof { crate::vx_size_float(); }"}
    # ---- sources and decoding traits
    def dec_trait(name, parse):
        I[f"trait {name}"] = {
            "supertraits": "VxDv", "bounds": {"T": "VxDv"},
            "members": f"spec fn {parse}(b: Seq<u8>) -> Option<T::V>;"}
        I[f"trait {name}::fn get_from_storage"] = {
            "ret": "r",
            "clauses": f"""ensures
    match vx_src(source, id) {{ Some(b) => vx_okv(r, Self::{parse}(b)), None => r is Err }},
    vx_frame(source)"""}
        I[f"trait {name}::fn get_buf_from_source"] = {"ret": "r", "clauses": GBS_CL, "start": "broadcast use {vx_broadcasts};"}
        I[f"trait {name}::fn decode"] = {"ret": "r", "clauses": f"ensures vx_okv(r, Self::{parse}(buf@))",
                                         "start": "broadcast use {vx_broadcasts};"}
    dec_trait("Decode<T>".replace("<T>", ""), "de_parse")
    dec_trait("DecodeEnum", "dn_parse")
    I["trait StructDecode"] = {
        "supertraits": "VxDv",
        "members": "spec fn sd_id() -> u32;\nspec fn sd_parse(m: Map<u16, Seq<u8>>) -> Option<Self::V>;"}
    I["trait StructDecode::fn get_id"] = {"ret": "r", "clauses": "ensures r == Self::sd_id()"}
    I["trait StructDecode::fn defaults"] = {}
    I["trait StructDecode::fn extract_from_storage"] = {
        "ret": "r",
        "clauses": "ensures match r { Ok(_) => Self::sd_parse(storage.dv()) == Some(final(self).dv()), Err(_) => Self::sd_parse(storage.dv()) is None }"}
    I["trait StructDecode::fn extract"] = {"ret": "r", "clauses": "ensures vx_okv(r, vx_sdec2(buf@, |m: Map<u16, Seq<u8>>| Self::sd_parse(m)))"}
    I["trait EnumDecode"] = {
        "supertraits": "VxDv",
        "members": "spec fn ed_id() -> u32;\nspec fn ed_parse(b: Seq<u8>) -> Option<Self::V>;"}
    I["trait EnumDecode::fn get_id"] = {"ret": "r", "clauses": "ensures r == Self::ed_id()"}
    I["trait EnumDecode::fn extract"] = {"ret": "r", "clauses": "ensures vx_okv(r, Self::ed_parse(buf@))"}

    gfs = "get_from_storage"
    def de_impl(tr, ty, spec, val, extra=None):
        k = f"impl {tr} for {ty}"
        I[k] = {"members": f"open spec fn {spec}"}
        I[f"{k}::fn {gfs}"] = dict({"ret": "r", "start": GFS_START, "attrs": "#[verifier::loop_isolation(false)]"}, **(extra or {}))

    for p in ALLP:
        de_impl(f"Decode<{p}>", p, f"de_parse(b: Seq<u8>) -> Option<{vt(p)}> {{ if b.len() < {W[p]} {{ None }} else {{ Some(vx_un_{p}(b.subrange(0, {W[p]}))) }} }}", None)
        w = W[p]
        de_impl(f"Decode<Vec<{p}>>", f"Vec<{p}>", f"de_parse(b: Seq<u8>) -> Option<Seq<{vt(p)}>> {{ vx_arr_{p}(b) }}", None, {
            "binds": {"RES": ["let$:Vec<@>=@;", "letmut$:Vec<@>=@;", "letmut$=Vec@;", "letmut$=vec!@;"],
                      "CUR": ["letmut$:Cursor<@>=@;", "letmut$=Cursor@;"]},
            "loops": [{"clauses": f"""invariant
        vx_b is Some, ${{CUR}}.vx_buf() == vx_b->0, 0 <= ${{CUR}}.vx_pos() <= vx_b->0.len(), ${{CUR}}.vx_pos() == {w} * ${{RES}}@.len(),
        forall|i: int| 0 <= i < ${{RES}}@.len() ==> (#[trigger] ${{RES}}@[i]).dv() == vx_un_{p}(vx_b->0.subrange({w} * i, {w} * i + {w})),
    decreases vx_b->0.len() - ${{CUR}}.vx_pos(),""",
                       "after": f"proof {{ assert(${{RES}}.dv() =~= vx_arr_{p}(vx_b->0)->0); }}"}]})
    de_impl("Decode<String>", "String", "de_parse(b: Seq<u8>) -> Option<Seq<char>> { Some(vx_lossy(b)) }", None)
    de_impl("Decode<T>", "T", "de_parse(b: Seq<u8>) -> Option<T::V> { vx_sdec::<T>(b) }", None)
    de_impl("DecodeEnum<T>", "T", "dn_parse(b: Seq<u8>) -> Option<T::V> { T::ed_parse(b) }", None)
    de_impl("Decode<Option<T>>", "Option<T>",
            "de_parse(b: Seq<u8>) -> Option<Option<T::V>> { if b.len() == 0 { Some(None) } else { match T::de_parse(b) { Some(v) => Some(Some(v)), None => None } } }", None)

    def items_loop(hl, pf):
        return {
            "binds": {"RES": ["let$:Vec<@>=@;", "letmut$:Vec<@>=@;", "letmut$=Vec@;"],
                      "BUF": ["letmut$=vec![0;@];", "letmut$=vec!@;", "letmut$:Vec<u8>=@;", "letmut$=@.clone();"]},
            "loops": [{"clauses": f"""invariant
        vx_b is Some, vx_prep(${{RES}}.dv(), vx_items(${{BUF}}@, {hl}, {pf})) == vx_items(vx_b->0, {hl}, {pf}),
    decreases ${{BUF}}@.len(),""",
                       "before": f"proof {{ assert(${{RES}}.dv() =~= Seq::empty()); vx_prep_empty(vx_items(vx_b->0, {hl}, {pf})); assert(${{BUF}}@ =~= vx_b->0); }}",
                       "start": f"let ghost vx_res0 = ${{RES}}.dv(); let ghost vx_buf0 = ${{BUF}}@; proof {{ vx_items_step(vx_buf0, {hl}, {pf}); }}",
                       "end": f"""proof {{
    assert(${{BUF}}@ =~= vx_buf0.skip(({hl} + vx_unlen({hl}, vx_buf0.subrange(0, {hl}))) as int));
    assert(${{RES}}.dv() =~= vx_res0.push(${{RES}}@.last().dv()));
    vx_prep_push(vx_res0, ${{RES}}@.last().dv(), vx_items(${{BUF}}@, {hl}, {pf}));
}}""",
                       "after": f"proof {{ assert(vx_items(${{BUF}}@, {hl}, {pf}) == Some(Seq::empty())); assert(${{RES}}.dv() + Seq::empty() =~= ${{RES}}.dv()); }}"}]}
    de_impl("DecodeEnum<Vec<T>>", "Vec<T>", "dn_parse(b: Seq<u8>) -> Option<Seq<T::V>> { vx_items(b, 8, vx_p_enum::<T>()) }", None, items_loop(8, "vx_p_enum::<T>()"))
    de_impl("Decode<Vec<T>>", "Vec<T>", "de_parse(b: Seq<u8>) -> Option<Seq<T::V>> { vx_items(b, 8, vx_p_struct::<T>()) }", None, items_loop(8, "vx_p_struct::<T>()"))
    de_impl("Decode<Vec<String>>", "Vec<String>", "de_parse(b: Seq<u8>) -> Option<Seq<Seq<char>>> { vx_items(b, 4, vx_p_str()) }", None, items_loop(4, "vx_p_str()"))

    # ---- encoding
    I["fn get_value_buffer"] = {"ret": "r", "clauses": "ensures r is Ok, r->Ok_0@ == vx_gvb(id, size, value@)",
                                "start": "broadcast use {vx_broadcasts};",
                                "end": "proof { assert(${BUF}@ =~= vx_gvb(id, size, vx_val)); }",
                                "binds": {"BUF": ["letmut$:Vec<u8>=@;", "letmut$=@;"]}}
    I["fn get_value_buffer"]["start"] += " let ghost vx_val = value@;"
    I["fn get_empty_buffer_val"] = {"ret": "r", "clauses": "ensures r is Ok, r->Ok_0@ == vx_vb(id, false, Seq::empty())",
                                    "start": "broadcast use {vx_broadcasts};"}

    def enc_trait(name, px):
        I[f"trait {name}"] = {"supertraits": "VxDv", "members": f"""spec fn {px}_ok(v: Self::V) -> bool;
spec fn {px}_fits(v: Self::V) -> bool;
spec fn {px}_wide(v: Self::V) -> bool;
spec fn {px}_payload(v: Self::V) -> Seq<u8>;"""}
        I[f"trait {name}::fn get_buf_to_store"] = {"ret": "r", "clauses": f"""ensures
    r is Ok ==> final(self).dv() == old(self).dv(),
    r is Ok <==> Self::{px}_ok(old(self).dv()),
    r is Ok && Self::{px}_fits(old(self).dv()) ==> r->Ok_0@ == vx_vb(id, Self::{px}_wide(old(self).dv()), Self::{px}_payload(old(self).dv())),"""}
        I[f"trait {name}::fn encode"] = {"ret": "r", "clauses": f"""ensures
    r is Ok ==> final(self).dv() == old(self).dv(),
    r is Ok <==> Self::{px}_ok(old(self).dv()),
    r is Ok && Self::{px}_fits(old(self).dv()) ==> r->Ok_0@ == Self::{px}_payload(old(self).dv()),"""}
    enc_trait("Encode", "en")
    enc_trait("EncodeEnum", "ne")
    for name, px in (("StructEncode", "se"), ("EnumEncode", "ee")):
        I[f"trait {name}"] = {"supertraits": "VxDv", "members": f"""spec fn {px}_id() -> u32;
spec fn {px}_sig() -> u16;
spec fn {px}_ok(v: Self::V) -> bool;
spec fn {px}_fits(v: Self::V) -> bool;
spec fn {px}_bytes(v: Self::V) -> Seq<u8>;"""}
        I[f"trait {name}::fn get_id"] = {"ret": "r", "clauses": f"ensures r == Self::{px}_id()"}
        I[f"trait {name}::fn get_signature"] = {"ret": "r", "clauses": f"ensures r == Self::{px}_sig()"}
        I[f"trait {name}::fn abduct"] = {"ret": "r", "clauses": f"""ensures
    r is Ok ==> final(self).dv() == old(self).dv(),
    r is Ok <==> Self::{px}_ok(old(self).dv()),
    r is Ok && Self::{px}_fits(old(self).dv()) ==> r->Ok_0@ == Self::{px}_bytes(old(self).dv()),"""}
    gb = "get_buf_to_store"

    def en_impl(tr, ty, px, V, ok, fits, wide, payload, extra=None):
        k = f"impl {tr} for {ty}"
        I[k] = {"members": f"""open spec fn {px}_ok(v: {V}) -> bool {{ {ok} }}
open spec fn {px}_fits(v: {V}) -> bool {{ {fits} }}
open spec fn {px}_wide(v: {V}) -> bool {{ {wide} }}
open spec fn {px}_payload(v: {V}) -> Seq<u8> {{ {payload} }}"""}
        r = {"start": "broadcast use {vx_broadcasts}; let ghost vx_v = old(self).dv();", "attrs": "#[verifier::loop_isolation(false)]"}
        e = dict(extra or {})
        if "start" in e:
            r["start"] += "\n" + e.pop("start")
        r.update(e)
        I[f"{k}::fn {gb}"] = r

    def it_loop(f, after):
        return {"binds": {"OUT": ["letmut$:Vec<u8>=vec![];", "letmut$:Vec<u8>=@;", "letmut$=Vec@;", "letmut$=vec!@;"]},
                "loops": [{"kind": "for", "iter": "vx_it", "clauses": f"""invariant
        vx_it.seq() == vx_s, ${{OUT}}@ == vx_cat(vx_v.take(vx_it.index@), {f}),""",
                           "end": f"""proof {{
    assert(vx_v.take(vx_it.index@ + 1).drop_last() =~= vx_v.take(vx_it.index@));
    assert(vx_v.take(vx_it.index@ + 1).last() == vx_v[vx_it.index@ as int]);
    assert(${{OUT}}@ =~= vx_cat(vx_v.take(vx_it.index@ + 1), {f}));
}}""", "after": f"proof {{ assert(vx_v.take(vx_v.len() as int) =~= vx_v); {after} }}"}]}
    for p in PR:
        en_impl("Encode", p, "en", vt(p), "true", "true", "false", f"vx_le_{p}(v)")
    en_impl("Encode", "bool", "en", "bool", "true", "true", "false", "vx_le_bool(v)",
            {"start": "proof { vx_eq_mut_bool(); }"})
    for p in ALLP:
        en_impl("Encode", f"Vec<{p}>", "en", f"Seq<{vt(p)}>", "true", "true", "true", f"vx_cat(v, vx_f_{p}())",
                dict(it_loop(f"vx_f_{p}()", f"vx_cat_{p}(vx_v);"),
                     start=f"proof {{ vx_alloc_{p}(&*self); vx_cat_{p}(vx_v); }} let ghost vx_s = self@;"))
    for x in PR + ["bool"]:
        k = f"impl Encode for Vec<{x}>::fn {gb}"
        l = I[k]["loops"][0]
        l["clauses"] = l["clauses"].replace("vx_it.seq() == vx_s", "vx_it.seq().len() == vx_s.len(), forall|i: int| 0 <= i < vx_s.len() ==> *(#[trigger] vx_it.seq()[i]) == vx_s[i]")
    en_impl("Encode", "String", "en", "Seq<char>", "true", "true", "true", "vstd::utf8::encode_utf8(v)")
    l = it_loop("vx_f_str()", "")
    l["loops"][0]["clauses"] = """invariant
        vx_it.seq().len() == vx_s.len(), forall|i: int| 0 <= i < vx_s.len() ==> *(#[trigger] vx_it.seq()[i]) == vx_s[i],
        Self::en_fits(vx_v) ==> ${OUT}@ == vx_cat(vx_v.take(vx_it.index@), vx_f_str()),"""
    l["loops"][0]["end"] = l["loops"][0]["end"].replace("assert(${OUT}@ =~=", "assert(Self::en_fits(vx_v) ==> ${OUT}@ =~=")
    en_impl("Encode", "Vec<String>", "en", "Seq<Seq<char>>", "true",
            "forall|i: int| 0 <= i < v.len() ==> vstd::utf8::encode_utf8(#[trigger] v[i]).len() <= u32::MAX", "true",
            "vx_cat(v, vx_f_str())", dict(l, start="let ghost vx_s = self@;"))
    en_impl("Encode", "T", "en", "T::V", "T::se_ok(v)", "T::se_fits(v)", "true", "T::se_bytes(v)")
    en_impl("EncodeEnum", "T", "ne", "T::V", "T::ee_ok(v)", "T::ee_fits(v)", "true", "T::ee_bytes(v)")

    def mut_loop(px, f):
        return {"binds": {"OUT": ["letmut$:Vec<u8>=vec![];", "letmut$:Vec<u8>=@;", "letmut$=Vec@;", "letmut$=vec!@;"]},
                "loops": [{"kind": "for", "iter": "vx_it", "clauses": f"""invariant
        vx_it.seq().len() == vx_s.len(),
        forall|i: int| 0 <= i < vx_s.len() ==> *(#[trigger] vx_it.seq()[i]) == vx_s[i],
        forall|i: int| 0 <= i < vx_it.index@ ==> (*final(#[trigger] vx_it.seq()[i])).dv() == vx_v[i],
        forall|i: int| 0 <= i < vx_it.index@ ==> T::{px}_ok(#[trigger] vx_v[i]),
        (forall|i: int| 0 <= i < vx_s.len() ==> T::{px}_fits(#[trigger] vx_v[i])) ==> ${{OUT}}@ == vx_cat(vx_v.take(vx_it.index@), {f}),""",
                           "start": f"proof {{ assert(vx_v[vx_it.index@ as int] == vx_s[vx_it.index@ as int].dv()); }}",
                           "end": f"""proof {{
    assert(vx_v[vx_it.index@ as int] == vx_s[vx_it.index@ as int].dv());
    assert(vx_v.take(vx_it.index@ + 1).drop_last() =~= vx_v.take(vx_it.index@));
    assert(vx_v.take(vx_it.index@ + 1).last() == vx_v[vx_it.index@ as int]);
    assert((forall|i: int| 0 <= i < vx_s.len() ==> T::{px}_fits(#[trigger] vx_v[i])) ==> ${{OUT}}@ =~= vx_cat(vx_v.take(vx_it.index@ + 1), {f}));
}}""", "after": "proof { assert(vx_v.take(vx_v.len() as int) =~= vx_v); assert(self.dv() =~= vx_v); }"}]}
    for tr, px, q, f in (("Encode", "en", "se", "vx_f_struct::<T>()"), ("EncodeEnum", "ne", "ee", "vx_f_enum::<T>()")):
        en_impl(tr, "Vec<T>", px, "Seq<T::V>",
                f"forall|i: int| 0 <= i < v.len() ==> T::{q}_ok(#[trigger] v[i])",
                f"forall|i: int| 0 <= i < v.len() ==> T::{q}_fits(#[trigger] v[i])", "true", f"vx_cat(v, {f})",
                dict(mut_loop(q, f), start="let ghost vx_s = self@;"))
    en_impl("Encode", "Option<T>", "en", "Option<T::V>",
            "match v { Some(x) => T::en_ok(x), None => true }", "match v { Some(x) => T::en_fits(x), None => true }",
            "match v { Some(x) => T::en_wide(x), None => false }", "match v { Some(x) => T::en_payload(x), None => Seq::empty() }")

    # ---- storage
    I["struct Storage"] = {"after": """impl VxDv for Storage { type V = Map<u16, Seq<u8>>; open spec fn dv(&self) -> Map<u16, Seq<u8>> { self.vx_map() } }
impl Storage { pub closed spec fn vx_map(&self) -> Map<u16, Seq<u8>> { vx_hm(self.map) } }"""}
    I["impl Storage::fn from"] = {"ret": "r", "clauses": "ensures r.dv() == vx_hm(map)"}
    I["impl Storage::fn new"] = {
        "ret": "r", "clauses": "ensures match r { Ok(s) => vx_store(buf@) == Some(s.dv()), Err(_) => vx_store(buf@) is None }",
        "attrs": "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]",
        "start": "broadcast use {vx_broadcasts, vstd::std_specs::hash::group_hash_axioms};",
        "binds": {"POS": ["letmut$:usize=0;", "letmut$=0@;"], "MAP": ["letmut$:HashMap<@>=@;", "letmut$=HashMap@;"]},
        "loops": [{"before": "proof { assert(vx_hm(${MAP}) =~= Map::empty()); assert(buf@.skip(0) =~= buf@); }",
                   "kinds": {"loop": {"clauses": """invariant_except_break
        ${POS} < buf@.len(),
    invariant
        ${POS} <= buf@.len(),
        vx_store_acc(buf@.skip(${POS} as int), vx_hm(${MAP})) == vx_store(buf@),
    ensures ${POS} == buf@.len(),
    decreases buf@.len() - ${POS},"""}},
                   "clauses": """invariant
        ${POS} <= buf@.len(),
        vx_store_acc(buf@.skip(${POS} as int), vx_hm(${MAP})) == vx_store(buf@),
    decreases buf@.len() - ${POS},""",
                   "start": "proof { vx_store_step(buf@, ${POS} as int, vx_hm(${MAP})); }",
                   "after": "proof { assert(buf@.skip(buf@.len() as int).len() == 0); }"}]}
    I["impl Storage::fn id"] = {"ret": "r", "clauses": """requires pos <= buf@.len(),
ensures match r { Ok(x) => buf@.len() >= pos + 2 && x.0 == vx_un_u16(buf@.skip(pos as int).subrange(0, 2)) && x.1 == pos + 2, Err(_) => buf@.len() < pos + 2 }""",
                                "start": "broadcast use {vx_broadcasts};",
                                "end": "proof { assert(buf@.subrange(pos as int, pos + 2) =~= buf@.skip(pos as int).subrange(0, 2)); }"}
    I["impl Storage::fn body"] = {"ret": "r", "clauses": """requires pos <= buf@.len(),
ensures match r { Ok(x) => vx_body(buf@.skip(pos as int)) == Some((x.0@, x.1 - pos)) && pos < x.1 <= buf@.len(), Err(_) => vx_body(buf@.skip(pos as int)) is None }""",
                                  "start": "broadcast use {vx_broadcasts}; proof { vx_body_at(buf@, pos as int); }"}
    I["impl Storage::fn next"] = {"ret": "r", "clauses": """requires pos <= buf@.len(),
ensures match r { Ok(x) => vx_field(buf@.skip(pos as int)) == Some((x.0, x.1@, x.2 - pos)) && pos < x.2 <= buf@.len(), Err(_) => vx_field(buf@.skip(pos as int)) is None }""",
                                  "start": "broadcast use {vx_broadcasts}; proof { if buf@.len() >= pos + 2 { assert(buf@.skip(pos as int).skip(2) =~= buf@.skip(pos as int + 2)); } }"}
    I["impl Storage::fn get"] = {"ret": "r", "clauses": """ensures
    match r { Some(b) => old(self).dv().contains_key(id) && b@ == old(self).dv()[id], None => !old(self).dv().contains_key(id) },
    final(self).dv() == old(self).dv()""", "start": "broadcast use {vx_broadcasts, vstd::std_specs::hash::group_hash_axioms};"}

    # ---- packets
    I["const MSG_HEADER_LEN"] = {"ensures": "MSG_HEADER_LEN == 26"}
    ident = {"ret": "r", "clauses": "ensures r is Ok, r->Ok_0@ == buffer@"}
    I["trait PackingMiddlewareInterface"] = {}
    for f in ("decode", "encode"):
        I[f"trait PackingMiddlewareInterface::fn {f}"] = dict(ident)
        I[f"impl PackingMiddlewareInterface for PackingMiddleware::fn {f}"] = {}
    I["struct PackageHeader"] = {"after": """impl PackageHeader { pub open spec fn vx_h(&self) -> VxHdr { VxHdr { id: self.id, sig: self.signature, seq: self.sequence, ts: self.ts, len: self.len } }
    pub open spec fn vx_wf(&self) -> bool { self.len_usize == self.len } }"""}
    I["fn has_buffer_header"] = {"ret": "r", "clauses": "ensures r == (buf@.len() >= 26)"}
    I["fn get_header_from_buffer"] = {"ret": "r", "clauses": "ensures match r { Ok(h) => buf@.len() >= 26 && h.vx_h() == vx_hdr(buf@) && h.vx_wf(), Err(_) => buf@.len() < 26 }",
                                      "start": "broadcast use {vx_broadcasts};"}
    I["fn has_buffer_body"] = {"ret": "r", "clauses": "requires header.vx_wf(),\nensures r == (buf@.len() >= 26 + header.len)"}
    I["fn get_body_from_buffer"] = {"ret": "r", "clauses": """requires header.vx_wf(),
ensures match r {
    Ok(x) => buf@.len() >= 26 + header.len && x.0@ == buf@.subrange(26, 26 + header.len) && x.1@ == buf@.skip(26 + header.len),
    Err(_) => buf@.len() < 26 + header.len }""", "start": "broadcast use {vx_broadcasts};",
                                    "anchors": [{"stmt": "match PackingMiddleware::decode@".replace(" ", ""), "before": "proof { assert(${REST}@ =~= buf@.skip(26 + header.len)); }", "optional": True}],
                                    "binds": {"REST": ["letmut$=vec![0;buf.len()@", "letmut$=buf[@", "let$=buf[@"]}}
    I["fn pack_buffer"] = {"ret": "r", "clauses": """ensures
    r is Ok ==> vx_is_packet(r->Ok_0@, msg_id, signature, sequence, msg_buf@),
    vx_clock_ok() ==> r is Ok,""", "start": "broadcast use {vx_broadcasts};"}
    I["fn pack"] = {"ret": "r", "clauses": """ensures
    r is Ok && T::se_fits(msg.dv()) ==> vx_is_packet(r->Ok_0@, T::se_id(), T::se_sig(), sequence, T::se_bytes(msg.dv())),
    r is Ok ==> T::se_ok(msg.dv()),
    vx_clock_ok() && T::se_ok(msg.dv()) ==> r is Ok,"""}
    for name, px in (("PackingStruct", "se"), ("PackingEnum", "ee")):
        I[f"trait {name}"] = {}
        I[f"trait {name}::fn pack"] = {"ret": "r", "clauses": f"""ensures
    r is Ok ==> final(self).dv() == old(self).dv(),
    r is Ok && Self::{px}_fits(old(self).dv()) ==> vx_is_packet(r->Ok_0@, Self::{px}_id(), Self::{px}_sig(), sequence, Self::{px}_bytes(old(self).dv())),
    r is Ok ==> Self::{px}_ok(old(self).dv()),
    vx_clock_ok() && Self::{px}_ok(old(self).dv()) ==> r is Ok,"""}

    # ---- stream buffer
    I["struct IncomeMessage"] = {"after": """impl<T: Clone + VxDv> VxDv for IncomeMessage<T> { type V = VxMsgOf<T::V>;
    open spec fn dv(&self) -> VxMsgOf<T::V> { VxMsgOf { hdr: self.header.vx_h(), msg: self.msg.dv() } } }
impl<T: Clone + VxDv> Clone for IncomeMessage<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.dv() == self.dv() { unimplemented!() }
}"""}
    I["trait DecodeBuffer"] = {"bounds": {"T": "VxDv"}, "members": "spec fn db_parse(id: u32, b: Seq<u8>) -> Option<T::V>;\nspec fn db_sig() -> u16;"}
    I["trait DecodeBuffer::fn get_msg"] = {"ret": "r", "clauses": "ensures vx_okv(r, Self::db_parse(id, buf@))"}
    I["trait DecodeBuffer::fn get_signature"] = {"ret": "r", "clauses": "ensures r == Self::db_sig()"}
    I["struct Buffer"] = {"after": """impl<T: Clone + VxDv> Buffer<T> {
    pub closed spec fn vx_pend(&self) -> Seq<u8> { self.buffer@ }
    pub closed spec fn vx_q(&self) -> Seq<VxMsgOf<T::V>> { self.queue.dv() }
}"""}
    I["impl Buffer<T>"] = {"bounds": {"T": "VxDv"}, "members": """
pub open spec fn vx_p() -> spec_fn(u32, Seq<u8>) -> Option<T::V> { |id: u32, b: Seq<u8>| <Self as DecodeBuffer<T>>::db_parse(id, b) }
pub open spec fn vx_runs(b: Seq<u8>) -> VxRun<T::V> { vx_run(b, <Self as DecodeBuffer<T>>::db_sig(), Self::vx_p()) }"""}
    I["impl Buffer<T>::fn get_message"] = {"ret": "r", "clauses": """ensures
    match r { Ok(m) => header.signature == <Self as DecodeBuffer<T>>::db_sig() && <Self as DecodeBuffer<T>>::db_parse(header.id, buf@) == Some(m.dv()),
              Err(_) => header.signature != <Self as DecodeBuffer<T>>::db_sig() || <Self as DecodeBuffer<T>>::db_parse(header.id, buf@) is None }"""}
    I["impl Buffer<T>::fn new"] = {"ret": "r", "clauses": "ensures r.vx_pend() == Seq::<u8>::empty(), r.vx_q() == Seq::<VxMsgOf<T::V>>::empty()",
                                   "tail_wrap": "proof { assert(vx_tail.queue.dv() =~= Seq::empty()); }"}
    I["impl Buffer<T>::fn chunk"] = {
        "ret": "r", "attrs": "#[verifier::loop_isolation(false)]",
        "clauses": """ensures ({
    let vx_r = Self::vx_runs(old(self).vx_pend() + buf@);
    final(self).vx_pend() == vx_r.rest && final(self).vx_q() == old(self).vx_q() + vx_r.out && (r is Ok <==> !vx_r.err)
})""",
        "start": "broadcast use {vx_broadcasts}; let ghost vx_b0 = self.buffer@ + buf@; let ghost vx_q0 = self.queue.dv(); proof { assert(old(self).vx_pend() == self.buffer@ && old(self).vx_q() == vx_q0); }",
        "loops": [{"before": "proof { assert(self.buffer@ =~= vx_b0); vx_preq_empty(vx_q0, Self::vx_runs(vx_b0)); }",
                   "clauses": """invariant
        old(self).vx_pend() + buf@ == vx_b0, old(self).vx_q() == vx_q0,
        vx_preq(self.queue.dv(), Self::vx_runs(self.buffer@)) == vx_preq(vx_q0, Self::vx_runs(vx_b0)),
    decreases self.buffer@.len(),""",
                   "start": "let ghost vx_q1 = self.queue.dv(); let ghost vx_b1 = self.buffer@; proof { vx_run_step(vx_b1, <Self as DecodeBuffer<T>>::db_sig(), Self::vx_p()); vx_preq_fin(vx_q1, Self::vx_runs(vx_b1)); vx_preq_fin(vx_q0, Self::vx_runs(vx_b0)); }",
                   "end": "proof { assert(self.queue.dv() =~= vx_q1.push(self.queue@.last().dv())); vx_preq_push(vx_q1, self.queue@.last().dv(), Self::vx_runs(self.buffer@)); }"}]}
    I["impl Buffer<T>::fn next"] = {"ret": "r", "clauses": """ensures
    final(self).vx_pend() == old(self).vx_pend(),
    match r { None => old(self).vx_q().len() == 0 && final(self).vx_q() == old(self).vx_q(),
              Some(m) => old(self).vx_q().len() > 0 && m.dv() == old(self).vx_q()[0] && final(self).vx_q() == old(self).vx_q().skip(1) }""",
                                    "tail_wrap": "proof { assert(self.queue.dv() =~= old(self).queue.dv().skip(1)); }",
                                    "start": "broadcast use {vx_broadcasts};"}
    I["impl Buffer<T>::fn len"] = {"ret": "r", "clauses": "ensures r == self.vx_pend().len()"}
    I["impl Buffer<T>::fn pending"] = {"ret": "r", "clauses": "ensures r == self.vx_q().len()"}
    return I


# ---------------------------------------------------------------------------- generated part
class Gen:
    def __init__(self, proto):
        self.P = proto

    def vname(self, eid):
        return ("VxE_%d" if self.P.is_enum(eid) else "VxS_%d") % eid

    def rpath(self, e):
        return "::".join(self.P.full(e))

    def prefix(self, e):
        return "".join(p + "::" for p in self.P.path(e.parent))

    def base_v(self, f):
        v = vt(f.prim) if f.prim else self.vname(f.ref)
        return f"Seq<{v}>" if f.rep else v

    def base_t(self, f):
        """absolute Rust type"""
        t = rust(f.prim) if f.prim else "crate::" + self.rpath(self.P.entity(f.ref))
        return f"Vec<{t}>" if f.rep else t

    def is_enum(self, f):
        return f.ref is not None and self.P.is_enum(f.ref)

    def spec_types(self):
        o = []
        for s in self.P.structs:
            o.append(f"pub ghost struct VxS_{s.id} {{ " + " ".join(f"pub {f.name}: {('Option<%s>' % self.base_v(f)) if f.opt else self.base_v(f)}," for f in s.fields) + " }")
        for e in self.P.enums:
            o.append(f"pub ghost enum VxE_{e.id} {{ " + " ".join(f"{v.name}({self.base_v(v)})," for v in e.variants) + " Defaults }")
        o.append("pub ghost enum VxMsg { " + " ".join(f"M{e.id}({self.vname(e.id)})," for e in self.P.structs + self.P.enums) + " VxNone }")
        return "\n".join(o)

    def field_enc(self, f, what, v):
        """what: ok fits wide payload"""
        t = self.base_t(f)
        px, tr = ("ne", "EncodeEnum") if self.is_enum(f) else ("en", "Encode")
        if f.opt:
            if px == "en":
                return f"<Option<{t}> as {tr}>::{px}_{what}({v})"
            none = {"ok": "true", "fits": "true", "wide": "false", "payload": "Seq::<u8>::empty()"}[what]
            return f"(match {v} {{ Some(x) => <{t} as {tr}>::{px}_{what}(x), None => {none} }})"
        return f"<{t} as {tr}>::{px}_{what}({v})"

    def field_dec(self, f, m):
        t = self.base_t(f)
        px, tr = ("dn", "DecodeEnum") if self.is_enum(f) else ("de", "Decode")
        if f.opt and px == "dn":
            core = f"(if b.len() == 0 {{ Some(None) }} else {{ match <{t} as {tr}<{t}>>::{px}_parse(b) {{ Some(x) => Some(Some(x)), None => None }} }})"
        elif f.opt:
            core = f"<Option<{t}> as {tr}<Option<{t}>>>::{px}_parse(b)"
        else:
            core = f"<{t} as {tr}<{t}>>::{px}_parse(b)"
        return f"(if {m}.contains_key({f.id}) {{ let b = {m}[{f.id}]; {core} }} else {{ None }})"

    def items(self):
        I = {}
        P = self.P
        self.frees = ""
        for s in P.structs:
            px = self.prefix(s)
            V = f"VxS_{s.id}"
            ents = " ".join(f"{f.name}: self.{f.name}.dv()," for f in s.fields)
            I[f"{px}struct {s.name}"] = {"after": f"""impl VxDv for {s.name} {{ type V = {V}; open spec fn dv(&self) -> {V} {{ {V} {{ {ents} }} }} }}
impl Clone for {s.name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.dv() == self.dv() {{ unimplemented!() }} }}"""}
            ok = " && ".join([self.field_enc(f, "ok", f"v.{f.name}") for f in s.fields]) or "true"
            fits = " && ".join([self.field_enc(f, "fits", f"v.{f.name}") for f in s.fields]) or "true"
            by = "".join(f"\n        + vx_vb(Some({f.id}), {self.field_enc(f, 'wide', 'v.' + f.name)}, {self.field_enc(f, 'payload', 'v.' + f.name)})" for f in s.fields)
            I[f"{px}impl StructEncode for {s.name}"] = {"members": f"""open spec fn se_id() -> u32 {{ {s.id} }}
open spec fn se_sig() -> u16 {{ 0 }}
open spec fn se_ok(v: {V}) -> bool {{ vx_ok_{s.id}(v) }}
open spec fn se_fits(v: {V}) -> bool {{ vx_fits_{s.id}(v) }}
open spec fn se_bytes(v: {V}) -> Seq<u8> {{ vx_bytes_{s.id}(v) }}"""}
            self.frees += f"""#[verifier::opaque] pub open spec fn vx_ok_{s.id}(v: {V}) -> bool {{ {ok} }}
#[verifier::opaque] pub open spec fn vx_fits_{s.id}(v: {V}) -> bool {{ {fits} }}
#[verifier::opaque] pub open spec fn vx_bytes_{s.id}(v: {V}) -> Seq<u8> {{ Seq::<u8>::empty(){by} }}
"""
            for f in ("get_id", "get_signature"):
                I[f"{px}impl StructEncode for {s.name}::fn {f}"] = {}
            I[f"{px}impl StructEncode for {s.name}::fn abduct"] = {"start": f"broadcast use vx_clone_dv; proof {{ reveal(vx_ok_{s.id}); reveal(vx_fits_{s.id}); reveal(vx_bytes_{s.id}); }}"}
            pre = "".join(f"    let p{f.id} = {self.field_dec(f, 'm')};\n" for f in s.fields)
            cond = " && ".join(f"p{f.id} is Some" for f in s.fields) or "true"
            val = " ".join(f"{f.name}: p{f.id}->0," for f in s.fields)
            I[f"{px}impl StructDecode for {s.name}"] = {"members": f"""open spec fn sd_id() -> u32 {{ {s.id} }}
open spec fn sd_parse(m: Map<u16, Seq<u8>>) -> Option<{V}> {{ vx_sdp_{s.id}(m) }}"""}
            self.frees += f"""#[verifier::opaque] pub open spec fn vx_sdp_{s.id}(m: Map<u16, Seq<u8>>) -> Option<{V}> {{
{pre}    if {cond} {{ Some({V} {{ {val} }}) }} else {{ None }}
}}
"""
            I[f"{px}impl StructDecode for {s.name}::fn extract_from_storage"] = {"start": f"proof {{ reveal(vx_sdp_{s.id}); }}"}
            for f in ("get_id", "defaults"):
                I[f"{px}impl StructDecode for {s.name}::fn {f}"] = {}
            I[f"{px}impl PackingStruct for {s.name}"] = {}
        for e in P.enums:
            px = self.prefix(e)
            V = f"VxE_{e.id}"
            arms = " ".join(f"{e.name}::{v.name}(x) => {V}::{v.name}(x.dv())," for v in e.variants)
            I[f"{px}enum {e.name}"] = {"after": f"""impl VxDv for {e.name} {{ type V = {V}; open spec fn dv(&self) -> {V} {{ match self {{ {arms} {e.name}::Defaults => {V}::Defaults }} }} }}
impl Clone for {e.name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.dv() == self.dv() {{ unimplemented!() }} }}"""}
            def tr(v):
                return ("EncodeEnum", "ne") if self.is_enum(v) else ("Encode", "en")
            okv = " ".join(f"{V}::{v.name}(x) => <{self.base_t(v)} as {tr(v)[0]}>::{tr(v)[1]}_ok(x)," for v in e.variants)
            fiv = " ".join(f"{V}::{v.name}(x) => <{self.base_t(v)} as {tr(v)[0]}>::{tr(v)[1]}_fits(x)," for v in e.variants)
            byv = " ".join(f"{V}::{v.name}(x) => Seq::<u8>::empty() + vx_le_u16({i}) + <{self.base_t(v)} as {tr(v)[0]}>::{tr(v)[1]}_payload(x)," for i, v in enumerate(e.variants))
            I[f"{px}impl EnumEncode for {e.name}"] = {"members": f"""open spec fn ee_id() -> u32 {{ {e.id} }}
open spec fn ee_sig() -> u16 {{ 0 }}
open spec fn ee_ok(v: {V}) -> bool {{ vx_ok_{e.id}(v) }}
open spec fn ee_fits(v: {V}) -> bool {{ vx_fits_{e.id}(v) }}
open spec fn ee_bytes(v: {V}) -> Seq<u8> {{ vx_bytes_{e.id}(v) }}"""}
            self.frees += f"""#[verifier::opaque] pub open spec fn vx_ok_{e.id}(v: {V}) -> bool {{ match v {{ {okv} {V}::Defaults => false }} }}
#[verifier::opaque] pub open spec fn vx_fits_{e.id}(v: {V}) -> bool {{ match v {{ {fiv} {V}::Defaults => true }} }}
#[verifier::opaque] pub open spec fn vx_bytes_{e.id}(v: {V}) -> Seq<u8> {{ match v {{ {byv} {V}::Defaults => Seq::empty() }} }}
"""
            for f in ("get_id", "get_signature"):
                I[f"{px}impl EnumEncode for {e.name}::fn {f}"] = {}
            I[f"{px}impl EnumEncode for {e.name}::fn abduct"] = {"start": f"proof {{ reveal(vx_ok_{e.id}); reveal(vx_fits_{e.id}); reveal(vx_bytes_{e.id}); }}"}
            dec = " else ".join(
                f"if i == {i} {{ match <{self.base_t(v)} as {'DecodeEnum' if self.is_enum(v) else 'Decode'}<{self.base_t(v)}>>::{'dn' if self.is_enum(v) else 'de'}_parse(x) {{ Some(y) => Some({V}::{v.name}(y)), None => None }} }}"
                for i, v in enumerate(e.variants))
            dec = (dec + " else { None }") if dec else "None"
            I[f"{px}impl EnumDecode for {e.name}"] = {"members": f"""open spec fn ed_id() -> u32 {{ {e.id} }}
open spec fn ed_parse(b: Seq<u8>) -> Option<{V}> {{ vx_edp_{e.id}(b) }}"""}
            self.frees += f"""#[verifier::opaque] pub open spec fn vx_edp_{e.id}(b: Seq<u8>) -> Option<{V}> {{
    if b.len() < 2 {{ None }} else {{ let i = vx_un_u16(b.subrange(0, 2)); let x = b.skip(2); {dec} }}
}}
"""
            I[f"{px}impl EnumDecode for {e.name}::fn get_id"] = {}
            I[f"{px}impl EnumDecode for {e.name}::fn extract"] = {
                "start": f"broadcast use {{vx_broadcasts}}; proof {{ reveal(vx_edp_{e.id}); }}",
                "binds": {"BODY": ["letmut$=vec![0;@", "let$=@.to_vec();"]},
                "anchors": [{"stmt": "match@{0=>@", "before": "proof { assert(${BODY}@ =~= buf@.skip(2)); }", "optional": True}]}
            I[f"{px}impl PackingEnum for {e.name}"] = {}
        # messages
        def avail(parent, px, node_path):
            arms = []
            for e in P.enums + P.structs:
                if e.parent == parent:
                    arms.append(f"AvailableMessages::{e.name}(m) => VxMsg::M{e.id}(m.dv()),")
            subs = [g for g in P.groups if g.parent == parent]
            for g in subs:
                if self.has_msgs(g.id):
                    arms.append(f"AvailableMessages::{g.name}(m) => m.dv(),")
            if not arms:
                arms = ["_ => VxMsg::VxNone,"]
            I[f"{px}enum AvailableMessages"] = {"after": f"""impl VxDv for AvailableMessages {{ type V = VxMsg; open spec fn dv(&self) -> VxMsg {{ match self {{ {' '.join(arms)} }} }} }}
impl Clone for AvailableMessages {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.dv() == self.dv() {{ unimplemented!() }} }}""", "optional": True}
            for g in subs:
                avail(g.id, px + g.name + "::", node_path + [g.name])
        avail(0, "", [])
        disp = []
        for e in P.structs:
            disp.append(f"if id == {e.id} {{ match vx_sdec::<{self.rpath(e)}>(b) {{ Some(x) => Some(VxMsg::M{e.id}(x)), None => None }} }}")
        for e in P.enums:
            disp.append(f"if id == {e.id} {{ match {self.rpath(e)}::ed_parse(b) {{ Some(x) => Some(VxMsg::M{e.id}(x)), None => None }} }}")
        I["impl DecodeBuffer<AvailableMessages> for Buffer<AvailableMessages>"] = {"members": f"""open spec fn db_parse(id: u32, b: Seq<u8>) -> Option<VxMsg> {{ vx_disp(id, b) }}
open spec fn db_sig() -> u16 {{ 0 }}"""}
        self.frees += f"""#[verifier::opaque] pub open spec fn vx_disp(id: u32, b: Seq<u8>) -> Option<VxMsg> {{ {' else '.join(disp)} else {{ None }} }}
"""
        I["impl DecodeBuffer<AvailableMessages> for Buffer<AvailableMessages>::fn get_msg"] = {"start": "broadcast use {vx_broadcasts}; proof { reveal(vx_disp); }"}
        I["impl DecodeBuffer<AvailableMessages> for Buffer<AvailableMessages>::fn get_signature"] = {}
        I["fn hash"] = {}
        return I

    def has_msgs(self, gid):
        if any(e.parent == gid for e in self.P.enums + self.P.structs):
            return True
        return any(self.has_msgs(g.id) for g in self.P.groups if g.parent == gid)


BROAD = "vx_lossy_valid, vx_mem_slice, vx_mem_vec, vx_rt_prims, vx_hm_insert, vx_cloned_u8"


def rules(proto, src, lemmas=True):
    g = Gen(proto)
    I = static_items()
    I.update(g.items())
    # one solver process per function: a failing function does not slow the others down
    for k, r in I.items():
        n = k.split("fn ")[-1]
        if not k.startswith("trait ") and (k.startswith("fn ") or "::fn " in k) and n not in ("get_id", "get_signature", "defaults", "hash", "len", "pending", "encode", "decode", "has_buffer_header") and isinstance(r, dict):
            r["attrs"] = "#[verifier::spinoff_prover]" + (" " + r["attrs"] if "attrs" in r else "")
    R = {
        "header": prelude() + "\n" + g.spec_types() + "\n",
        "footer": "\n" + g.frees + ("\n" + roundtrip(g) if lemmas else "") + "\n} // verus!\nfn main() {}\n",
        "sources": [{"path": src}],
        "items": I,
        "drop_uses": ["usestd::io::Cursor", "usebytes::", "usestd::time::"],
        "drop_derives": ["Debug", "Clone", "PartialEq"],
        "drop_attrs": ["*"],
        "methods": {"to_le_bytes": "vx_to_le_bytes", "to_be_bytes": "vx_to_be_bytes", "drain": "vx_drain", "extend_from_slice": "vx_extend"},
        "paths": {"String::from_utf8_lossy": "vx_from_utf8_lossy"},
        "macros": {"vec;": "vx_vec", "format": "vx_format"},
        "mod_prelude": "use vstd::prelude::*;",
        "loops_need_rules": True,
    }
    return R


def roundtrip(g):
    """per schema: decode(encode(v)) == v for every message, and map semantics of every struct"""
    o = []
    P = g.P

    def pre(f, v):
        t = g.base_t(f)
        if g.is_enum(f):
            if getattr(f, "opt", False):
                return f"(match {v} {{ Some(x) => <{t} as VxRtN>::nrt_pre(x) && <{t} as EncodeEnum>::ne_payload(x).len() > 0, None => true }})"
            return f"<{t} as VxRtN>::nrt_pre({v})"
        if getattr(f, "opt", False):
            return f"<Option<{t}> as VxRtE>::rt_pre({v})"
        return f"<{t} as VxRtE>::rt_pre({v})"

    def call(f, v):
        t = g.base_t(f)
        if g.is_enum(f):
            if getattr(f, "opt", False):
                return f"if {v} is Some {{ <{t} as VxRtN>::nrt({v}->0); }}"
            return f"<{t} as VxRtN>::nrt({v});"
        if getattr(f, "opt", False):
            return f"<Option<{t}> as VxRtE>::rt({v});"
        return f"<{t} as VxRtE>::rt({v});"

    for s in P.structs:
        path = g.rpath(s)
        o.append(f"pub mod vx_m_{s.id} {{ use super::*; use vstd::prelude::*; verus! {{")
        prel = " && ".join(pre(f, f"v.{f.name}") for f in s.fields) or "true"
        n = len(s.fields)
        args = ", ".join(f"w{k}: bool, x{k}: Seq<u8>" for k in range(n))
        tot = "Seq::<u8>::empty()" + "".join(f" + vx_vb(Some({f.id}), w{k}, x{k})" for k, f in enumerate(s.fields))
        V = f"VxS_{s.id}"
        lens = []
        cur, mp, cargs, creq, ccall = "Seq::<u8>::empty()", "Map::<u16, Seq<u8>>::empty()", [], [], []
        o.append(f"pub proof fn vx_pfx_{s.id}_0() ensures vx_store({cur}) == Some({mp}) {{ }}")
        for k, f in enumerate(s.fields):
            prev, pmp, pcall = cur, mp, ", ".join(ccall)
            cur = f"{cur} + vx_vb(Some({f.id}), w{k}, x{k})"
            mp = f"{mp}.insert({f.id}, x{k})"
            cargs.append(f"w{k}: bool, x{k}: Seq<u8>")
            creq.append(f"vx_sized(w{k}, x{k})")
            ccall.append(f"w{k}, x{k}")
            lens.append(f"vx_vb_len(Some({f.id}), w{k}, x{k});")
            o.append(f"""pub proof fn vx_pfx_{s.id}_{k+1}({", ".join(cargs)})
    requires {", ".join(creq)}
    ensures vx_store({cur}) == Some({mp})
{{ vx_pfx_{s.id}_{k}({pcall}); vx_store_app({prev}, {f.id}, w{k}, x{k}); }}""")
            pw, pp, pd = (f"{g.field_enc(f, 'wide', 'v.' + f.name)}", f"{g.field_enc(f, 'payload', 'v.' + f.name)}", g.field_dec(f, 'm'))
            o.append(f"""#[verifier::opaque] pub open spec fn vx_w_{s.id}_{k}(v: {V}) -> bool {{ {pw} }}
#[verifier::opaque] pub open spec fn vx_p_{s.id}_{k}(v: {V}) -> Seq<u8> {{ {pp} }}
#[verifier::opaque] pub open spec fn vx_d_{s.id}_{k}(m: Map<u16, Seq<u8>>) -> Option<{('Option<%s>' % g.base_v(f)) if f.opt else g.base_v(f)}> {{ {pd} }}
pub proof fn vx_field_{s.id}_{k}(v: {V})
    requires {g.field_enc(f, 'ok', 'v.' + f.name)}, {g.field_enc(f, 'fits', 'v.' + f.name)}, {pre(f, 'v.' + f.name)}, vx_p_{s.id}_{k}(v).len() <= isize::MAX,
    ensures vx_sized(vx_w_{s.id}_{k}(v), vx_p_{s.id}_{k}(v)),
        forall|m: Map<u16, Seq<u8>>| m.contains_key({f.id}) && m[{f.id}] == vx_p_{s.id}_{k}(v) ==> #[trigger] vx_d_{s.id}_{k}(m) == Some(v.{f.name}),
{{ reveal(vx_w_{s.id}_{k}); reveal(vx_p_{s.id}_{k}); reveal(vx_d_{s.id}_{k}); {call(f, 'v.' + f.name)} }}
pub proof fn vx_pre_{s.id}_{k}(v: {V})
    requires {path}::se_ok(v), {path}::se_fits(v), {path}::srt_pre(v),
    ensures {g.field_enc(f, 'ok', 'v.' + f.name)}, {g.field_enc(f, 'fits', 'v.' + f.name)}, {pre(f, 'v.' + f.name)},
{{ reveal(vx_ok_{s.id}); reveal(vx_fits_{s.id}); reveal(vx_rtp_{s.id}); }}""")
        wx = ", ".join(f"vx_w_{s.id}_{k}(v), vx_p_{s.id}_{k}(v)" for k in range(n))
        tot = "Seq::<u8>::empty()" + "".join(f" + vx_vb(Some({f.id}), vx_w_{s.id}_{k}(v), vx_p_{s.id}_{k}(v))" for k, f in enumerate(s.fields))
        cond = " && ".join(f"vx_d_{s.id}_{k}(m) is Some" for k in range(n)) or "true"
        val = " ".join(f"{f.name}: vx_d_{s.id}_{k}(m)->0," for k, f in enumerate(s.fields))
        rv = " ".join(f"reveal(vx_w_{s.id}_{k}); reveal(vx_p_{s.id}_{k});" for k in range(n))
        rd = " ".join(f"reveal(vx_d_{s.id}_{k});" for k in range(n))
        if n:
            o.append(f"""pub proof fn vx_len_struct_{s.id}({", ".join(cargs)})
    ensures {" && ".join(f"x{k}.len() <= ({cur}).len()" for k in range(n))}
{{ {" ".join(lens)} }}""")
        o.append(f"""pub proof fn vx_enc_{s.id}(v: {V}) ensures {path}::se_bytes(v) == {tot} {{ reveal(vx_bytes_{s.id}); {rv} }}
pub proof fn vx_dec_{s.id}(m: Map<u16, Seq<u8>>) ensures {path}::sd_parse(m) == (if {cond} {{ Some({V} {{ {val} }}) }} else {{ None::<{V}> }}) {{ reveal(vx_sdp_{s.id}); {rd} }}""")
        # the assembly: everything but the values of the fields is abstract here
        hid = ""
        b = []
        for k, f in enumerate(s.fields):
            o.append(f"""pub proof fn vx_fld_{s.id}_{k}(v: {V})
    requires vx_ok_{s.id}(v), vx_fits_{s.id}(v), vx_rtp_{s.id}(v), vx_p_{s.id}_{k}(v).len() <= isize::MAX
    ensures vx_sized(vx_w_{s.id}_{k}(v), vx_p_{s.id}_{k}(v)),
        forall|m: Map<u16, Seq<u8>>| m.contains_key({f.id}) && m[{f.id}] == vx_p_{s.id}_{k}(v) ==> #[trigger] vx_d_{s.id}_{k}(m) == Some(v.{f.name}),
{{ vx_pre_{s.id}_{k}(v); vx_field_{s.id}_{k}(v); }}""")
            b.append(f"vx_fld_{s.id}_{k}(v);")
        conj = lambda f: (" && ".join(f(k) for k in range(n)) or "true")
        mv = mp
        for k in range(n):
            mv = mv.replace(f", x{k})", f", vx_p_{s.id}_{k}(v))")
        o.append(f"""pub proof fn vx_sum_{s.id}(v: {V})
    ensures {conj(lambda k: f"vx_p_{s.id}_{k}(v).len() <= vx_bytes_{s.id}(v).len()")}
{{ {hid} vx_enc_{s.id}(v); {f"vx_len_struct_{s.id}({wx});" if n else ""} }}
pub proof fn vx_st_{s.id}(v: {V})
    requires {conj(lambda k: f"vx_sized(vx_w_{s.id}_{k}(v), vx_p_{s.id}_{k}(v))")}
    ensures vx_store(vx_bytes_{s.id}(v)) == Some({mv})
{{ {hid} vx_enc_{s.id}(v); vx_pfx_{s.id}_{n}({wx}); }}
pub proof fn vx_asm_{s.id}(v: {V})
    requires {", ".join(f"forall|m: Map<u16, Seq<u8>>| m.contains_key({f.id}) && m[{f.id}] == vx_p_{s.id}_{k}(v) ==> #[trigger] vx_d_{s.id}_{k}(m) == Some(v.{f.name})" for k, f in enumerate(s.fields)) or "true"}
    ensures vx_sdp_{s.id}({mv}) == Some(v)
{{ {hid} vx_dec_{s.id}({mv}); }}""")
        b = [f"assert(vx_ok_{s.id}(v) && vx_fits_{s.id}(v) && vx_rtp_{s.id}(v)); vx_sum_{s.id}(v);"] + b + [f"vx_st_{s.id}(v); vx_asm_{s.id}(v);"]
        o.append(f"""#[verifier::opaque] pub open spec fn vx_rtp_{s.id}(v: {V}) -> bool {{ {prel} }}
impl VxRtS for {path} {{
    open spec fn srt_pre(v: VxS_{s.id}) -> bool {{ vx_rtp_{s.id}(v) }}
    proof fn srt(v: VxS_{s.id}) {{
        {hid}
        {chr(10).join(b)}
    }}
}}
pub proof fn vx_map_struct_{s.id}(m: Map<u16, Seq<u8>>)
    ensures
        forall|k: u16, x: Seq<u8>| {" && ".join(f"k != {f.id}" for f in s.fields) or "true"} ==> {path}::sd_parse(#[trigger] m.insert(k, x)) == {path}::sd_parse(m),
        {path}::sd_parse(m) is Some ==> {" && ".join(f"m.contains_key({f.id})" for f in s.fields) or "true"},
{{ reveal(vx_sdp_{s.id}); }}
}} }}
pub use vx_m_{s.id}::*;""")
    for e in P.enums:
        path = g.rpath(e)
        V = f"VxE_{e.id}"
        prel = " ".join(f"{V}::{v.name}(x) => {pre(v, 'x')}," for v in e.variants)
        calls = " ".join(f"{V}::{v.name}(x) => {{ vx_var_{e.id}_{i}(x); }}" for i, v in enumerate(e.variants))
        o.append(f"pub mod vx_m_{e.id} {{ use super::*; use vstd::prelude::*; verus! {{")
        for i, v in enumerate(e.variants):
            tr, px = ("EncodeEnum", "ne") if g.is_enum(v) else ("Encode", "en")
            ty = f"<{g.base_t(v)} as {tr}>"
            o.append(f"""pub proof fn vx_var_{e.id}_{i}(x: {g.base_v(v)})
    requires {ty}::{px}_ok(x), {ty}::{px}_fits(x), {pre(v, 'x')}, {path}::ee_bytes({V}::{v.name}(x)).len() <= isize::MAX
    ensures {path}::ed_parse({path}::ee_bytes({V}::{v.name}(x))) == Some({V}::{v.name}(x)), {path}::ee_bytes({V}::{v.name}(x)).len() >= 2
{{
    broadcast use vx_rt_prims;
    reveal(vx_bytes_{e.id}); reveal(vx_edp_{e.id});
    let b = {path}::ee_bytes({V}::{v.name}(x));
    let y = {ty}::{px}_payload(x);
    assert(b == Seq::<u8>::empty() + vx_le_u16({i}) + y);
    assert(b.len() == 2 + y.len());
    {call(v, 'x')}
    assert(b.subrange(0, 2) =~= vx_le_u16({i})); assert(b.skip(2) =~= y);
}}""")
        o.append(f"""#[verifier::opaque] pub open spec fn vx_rtp_{e.id}(v: {V}) -> bool {{ match v {{ {prel} {V}::Defaults => true }} }}
impl VxRtU for {path} {{
    open spec fn urt_pre(v: {V}) -> bool {{ vx_rtp_{e.id}(v) }}
    proof fn urt(v: {V}) {{
        reveal(vx_ok_{e.id}); reveal(vx_fits_{e.id}); reveal(vx_rtp_{e.id});
        match v {{ {calls} {V}::Defaults => {{ }} }}
    }}
}}
}} }}
pub use vx_m_{e.id}::*;""")
    o.append("pub mod vx_m_stream { use super::*; use vstd::prelude::*; verus! {")
    # a packed message comes back out of any stream it is written to
    for e in P.structs + P.enums:
        st = e.kind == "struct"
        path = g.rpath(e)
        px, rp, V, tr = ("se", "srt", f"VxS_{e.id}", "StructEncode") if st else ("ee", "urt", f"VxE_{e.id}", "EnumEncode")
        o.append(f"""pub proof fn vx_msg_{e.id}(v: {V})
    requires {path}::{px}_ok(v), {path}::{px}_fits(v), {path}::{rp}_pre(v), {path}::{px}_bytes(v).len() <= isize::MAX,
    ensures vx_disp({e.id}, {path}::{px}_bytes(v)) == Some(VxMsg::M{e.id}(v))
{{ {path}::{rp}(v); vx_dispof_{e.id}({path}::{px}_bytes(v)); }}
pub proof fn vx_dispof_{e.id}(b: Seq<u8>)
    ensures vx_disp({e.id}, b) == (match {(path + "::ed_parse") if not st else f"vx_sdec::<{path}>"}(b) {{ Some(v) => Some(VxMsg::M{e.id}(v)), None => None }})
{{ reveal(vx_disp); }}
pub proof fn vx_stream_{e.id}(v: {V}, b: Seq<u8>, seq: u32, rest: Seq<u8>)
    requires {path}::{px}_ok(v), {path}::{px}_fits(v), {path}::{rp}_pre(v), {path}::{px}_bytes(v).len() <= isize::MAX,
        vx_is_packet(b, <{path} as {tr}>::{px}_id(), <{path} as {tr}>::{px}_sig(), seq, {path}::{px}_bytes(v)),
    ensures ({{
        let r = Buffer::<AvailableMessages>::vx_runs(b + rest);
        let t = Buffer::<AvailableMessages>::vx_runs(rest);
        r.rest == t.rest && r.err == t.err && r.out.len() == t.out.len() + 1 && r.out.skip(1) == t.out
        && r.out[0].msg == VxMsg::M{e.id}(v) && r.out[0].hdr.id == {e.id} && r.out[0].hdr.seq == seq
    }})
{{
    vx_msg_{e.id}(v);
    let p = Buffer::<AvailableMessages>::vx_p();
    vx_run_packet(b, {e.id}, 0, seq, {path}::{px}_bytes(v), VxMsg::M{e.id}(v), rest, p);
}}""")
    ids = [e.id for e in P.structs + P.enums]
    o.append(f"""pub proof fn vx_unknown_id(id: u32, b: Seq<u8>)
    requires {" && ".join(f"id != {i}" for i in ids)}
    ensures <Buffer<AvailableMessages> as DecodeBuffer<AvailableMessages>>::db_parse(id, b) is None
{{ reveal(vx_disp); }}
// feeding two chunks is feeding their concatenation
pub proof fn vx_chunks(a: Seq<u8>, b: Seq<u8>)
    ensures ({{
        let r = Buffer::<AvailableMessages>::vx_runs(a);
        !r.err ==> Buffer::<AvailableMessages>::vx_runs(a + b) == vx_preq(r.out, Buffer::<AvailableMessages>::vx_runs(r.rest + b))
    }})
{{ vx_run_split(a, b, 0, Buffer::<AvailableMessages>::vx_p()); }}""")
    o.append("} }")
    return "\n".join(o)
