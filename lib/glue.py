"""Glue between the code generated for one schema and the dynamic values of tools/codec_harness."""
import codec

TY = {"str": "Ty::T"}
for _p, _w in codec.W.items():
    TY[_p] = f"Ty::P({_w}, {2 if _p == 'bool' else 1 if _p[0] == 'f' else 0})"


def glue(P):
    ents = P.structs + P.enums
    idx = {e.id: k for k, e in enumerate(ents)}

    def path(e):
        return "gen::" + "::".join(P.full(e))

    def ty(f):
        return TY[f.prim] if f.prim else f"Ty::R({idx[f.ref]})"

    o = ["use super::*;", "use super::gen;", "use super::gen::{StructEncode, StructDecode, EnumEncode, EnumDecode, PackingStruct, PackingEnum, Buffer};"]
    rows = []
    for e in ents:
        p = path(e)
        st = e.kind == "struct"
        if st:
            to = "Dv::S(vec![" + ", ".join(f"self.{f.name}.to()" for f in e.fields) + "])"
            of = f"if let Dv::S(x) = d {{ {p} {{ " + " ".join(f"{f.name}: ToDv::of(&x[{k}])," for k, f in enumerate(e.fields)) + " } } else { unreachable!() }"
            fl = [(f, f.id) for f in e.fields]
            tr, pk = "StructEncode", "PackingStruct"
        else:
            to = "match self { " + " ".join(f"{p}::{v.name}(x) => Dv::E({k}, Box::new(x.to()))," for k, v in enumerate(e.variants)) + f" {p}::Defaults => Dv::D }}"
            of = "match d { " + " ".join(f"Dv::E({k}, x) => {p}::{v.name}(ToDv::of(x))," for k, v in enumerate(e.variants)) + f" _ => {p}::Defaults }}"
            fl = [(v, 0) for v in e.variants]
            tr, pk = "EnumEncode", "PackingEnum"
        o.append(f"impl ToDv for {p} {{ fn to(&self) -> Dv {{ {to} }} fn of(d: &Dv) -> Self {{ {of} }} }}")
        fs = ", ".join(f'Fld {{ id: {i}, name: "{f.name}", ty: {ty(f)}, rep: {str(f.rep).lower()}, opt: {str(getattr(f, "opt", False)).lower()} }}' for f, i in fl)
        rows.append(f"""Ent {{ id: {e.id}, name: "{'.'.join(P.full(e))}", is_enum: {str(not st).lower()}, fields: vec![{fs}],
    encode: |d| {{ let mut v = <{p} as ToDv>::of(d); let b = {tr}::abduct(&mut v)?; Ok((b, v.to())) }},
    decode: |b| {{ <{p} as {'StructDecode' if st else 'EnumDecode'}>::extract(b).map(|v| v.to()) }},
    pack: |d, s| {{ let mut v = <{p} as ToDv>::of(d); {pk}::pack(&mut v, s, None) }},
    ident: |d| {{ let v = <{p} as ToDv>::of(d); ({tr}::get_id(&v), {tr}::get_signature(&v)) }} }}""")
    o.append("pub fn schema() -> Ref { Ref { ents: vec![" + ",\n".join(rows) + "] } }")

    def arms(parent, mod, ex):
        r = []
        for e in ents:
            if e.parent == parent:
                r.append(f"{mod}AvailableMessages::{e.name}(m) => ({idx[e.id]}, m.to()),")
        for g in P.groups:
            if g.parent == parent and has(g.id):
                sub = f"{mod}{g.name}::"
                r.append(f"{mod}AvailableMessages::{g.name}(g) => match g {{ {' '.join(arms(g.id, sub, ex))} }},")
        return r

    def has(gid):
        return any(e.parent == gid for e in ents) or any(has(g.id) for g in P.groups if g.parent == gid)

    o.append("fn conv(m: gen::AvailableMessages) -> (usize, Dv) { match m { " + " ".join(arms(0, "gen::", "")) + " } }")
    o.append("""fn one(m: gen::IncomeMessage<gen::AvailableMessages>) -> Msg {
    let h = m.header.clone();
    let (ent, val) = conv(m.msg);
    Msg { ent, val, id: h.id, sig: h.signature, seq: h.sequence, ts: h.ts, len: h.len }
}
pub fn feed(chunks: &[Vec<u8>]) -> ((Vec<bool>, usize), Vec<Msg>) {
    let mut b: Buffer<gen::AvailableMessages> = Buffer::new();
    let errs = chunks.iter().map(|c| b.chunk(c, None).is_err()).collect();
    let mut out = vec![];
    let mut n = b.pending();
    while let Some(m) = b.next() { out.push(one(m)); n -= 1; assert_eq!(n, b.pending(), "pending count"); }
    ((errs, b.len()), out)
}
pub fn feed_interleaved(chunks: &[Vec<u8>]) -> Vec<Msg> {
    let mut b: Buffer<gen::AvailableMessages> = Buffer::new();
    let mut out = vec![];
    for (k, c) in chunks.iter().enumerate() {
        let _ = b.chunk(c, Some("x".to_string()));
        if k % 3 == 0 { if let Some(m) = b.next() { out.push(one(m)); } }
        if k % 7 == 0 { while let Some(m) = b.next() { out.push(one(m)); } }
    }
    while let Some(m) = b.next() { out.push(one(m)); }
    out
}""")
    return "\n".join(o) + "\n"
