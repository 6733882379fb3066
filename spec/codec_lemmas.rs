// ======================================================================================
// Lemmas (all proved)
// ======================================================================================
// @@PRIM_LEMMAS@@
pub open spec fn vx_mv(m: Map<u16, Vec<u8>>) -> Map<u16, Seq<u8>> { m.map_values(|v: Vec<u8>| v@) }
pub open spec fn vx_hm(m: HashMap<u16, Vec<u8>>) -> Map<u16, Seq<u8>> { vx_mv(m@) }
pub broadcast proof fn vx_hm_insert(m: Map<u16, Vec<u8>>, k: u16, v: Vec<u8>)
    ensures #[trigger] vx_mv(m.insert(k, v)) == vx_mv(m).insert(k, v@)
{ assert(vx_mv(m.insert(k, v)) =~= vx_mv(m).insert(k, v@)); }
pub broadcast proof fn vx_packet_intro(id: u32, sig: u16, seq: u32, ts: u64, body: Seq<u8>)
    ensures vx_is_packet(#[trigger] (Seq::<u8>::empty() + vx_le_u32(id) + vx_le_u16(sig) + vx_le_u32(seq) + vx_le_u64(ts) + vx_le_u64(body.len() as u64) + body), id, sig, seq, body)
{
    broadcast use vx_rt_prims;
    let b = vx_packet(id, sig, seq, ts, body);
    assert(b.subrange(10, 18) =~= vx_le_u64(ts));
}
pub broadcast proof fn vx_gvb_one(id: Option<u16>, size: ESize, b: Seq<u8>)
    ensures b.len() == 1 ==> #[trigger] vx_gvb(id, size, b) == vx_gvb(id, size, seq![b[0]])
{ if b.len() == 1 { assert(b =~= seq![b[0]]); } }
pub broadcast group vx_broadcasts { vx_gvb_one, vx_lossy_valid, vx_mem_slice, vx_mem_vec, vx_cloned_u8, vx_rt_prims, vx_hm_insert, vx_packet_intro }

pub proof fn vx_prep_empty<V>(r: Option<Seq<V>>) ensures vx_prep(Seq::<V>::empty(), r) == r
{ if r is Some { assert(Seq::<V>::empty() + r->0 =~= r->0); } }
pub proof fn vx_prep_push<V>(d: Seq<V>, v: V, r: Option<Seq<V>>)
    ensures vx_prep(d.push(v), r) == vx_prep(d, match r { Some(x) => Some(seq![v] + x), None => None })
{ if r is Some { assert(d.push(v) + r->0 =~= d + (seq![v] + r->0)); } }
pub proof fn vx_items_step<V>(b: Seq<u8>, hl: int, p: spec_fn(Seq<u8>) -> Option<V>)
    ensures b.len() > 0 && hl > 0 && (b.len() < hl || b.len() < hl + vx_unlen(hl, b.subrange(0, hl))) ==> vx_items(b, hl, p) is None
{ }
pub proof fn vx_store_step(b: Seq<u8>, pos: int, m: Map<u16, Seq<u8>>)
    requires 0 <= pos <= b.len()
    ensures pos < b.len() ==> match vx_field(b.skip(pos)) {
        None => vx_store_acc(b.skip(pos), m) is None,
        Some((id, x, n)) => n > 0 && pos + n <= b.len() && vx_store_acc(b.skip(pos), m) == vx_store_acc(b.skip(pos + n), m.insert(id, x)) }
{
    let s = b.skip(pos);
    if pos < b.len() && vx_field(s) is Some {
        let (id, x, n) = vx_field(s)->0;
        assert(s.skip(n) =~= b.skip(pos + n));
    }
}
pub proof fn vx_body_at(b: Seq<u8>, pos: int)
    requires 0 <= pos <= b.len()
    ensures
        forall|x: int, y: int| 0 <= x <= y && pos + y <= b.len() ==> #[trigger] b.skip(pos).subrange(x, y) == b.subrange(pos + x, pos + y),
        pos < b.len() ==> b.skip(pos)[0] == b[pos],
{
    assert forall|x: int, y: int| 0 <= x <= y && pos + y <= b.len() implies #[trigger] b.skip(pos).subrange(x, y) == b.subrange(pos + x, pos + y) by {
        assert(b.skip(pos).subrange(x, y) =~= b.subrange(pos + x, pos + y));
    }
}
pub open spec fn vx_sdec2<V>(b: Seq<u8>, p: spec_fn(Map<u16, Seq<u8>>) -> Option<V>) -> Option<V> {
    match vx_store(b) { None => None, Some(m) => p(m) }
}
pub open spec fn vx_preq<V>(q: Seq<VxMsgOf<V>>, r: VxRun<V>) -> VxRun<V> { VxRun { rest: r.rest, out: q + r.out, err: r.err } }
pub proof fn vx_preq_empty<V>(q: Seq<VxMsgOf<V>>, r: VxRun<V>) ensures true { }
pub proof fn vx_preq_fin<V>(q: Seq<VxMsgOf<V>>, r: VxRun<V>) ensures r.out.len() == 0 ==> vx_preq(q, r).out == q
{ if r.out.len() == 0 { assert(q + r.out =~= q); } }
pub proof fn vx_preq_push<V>(q: Seq<VxMsgOf<V>>, m: VxMsgOf<V>, r: VxRun<V>)
    ensures vx_preq(q.push(m), r) == vx_preq(q, VxRun { rest: r.rest, out: seq![m] + r.out, err: r.err })
{ assert(q.push(m) + r.out =~= q + (seq![m] + r.out)); }
pub proof fn vx_run_step<V>(b: Seq<u8>, sig: u16, p: spec_fn(u32, Seq<u8>) -> Option<V>)
    ensures ({
        let h = vx_hdr(b);
        let rest = b.skip(26 + h.len as int);
        let m = p(h.id, b.subrange(26, 26 + h.len as int));
        let r = vx_run(b, sig, p);
        if b.len() < 26 || b.len() < 26 + h.len { r == (VxRun::<V> { rest: b, out: Seq::empty(), err: false }) }
        else if h.sig != sig || m is None { r == (VxRun::<V> { rest, out: Seq::empty(), err: true }) }
        else { r == (VxRun::<V> { rest: vx_run(rest, sig, p).rest, out: seq![VxMsgOf { hdr: h, msg: m->0 }] + vx_run(rest, sig, p).out, err: vx_run(rest, sig, p).err }) }
    })
{ }

// ---- a sequence of fields and the map it denotes
pub proof fn vx_body_prefix(a: Seq<u8>, b: Seq<u8>)
    ensures vx_body(a) is Some ==> vx_body(a + b) == vx_body(a)
{
    if vx_body(a) is Some {
        let w = vx_rankw(a[0]);
        let c = a + b;
        assert(c[0] == a[0]);
        assert(c.subrange(1, 1 + w) =~= a.subrange(1, 1 + w));
        let n = vx_ranklen(a[0], a.subrange(1, 1 + w));
        assert(c.subrange(1 + w, 1 + w + n as int) =~= a.subrange(1 + w, 1 + w + n as int));
    }
}
pub proof fn vx_field_prefix(a: Seq<u8>, b: Seq<u8>)
    ensures vx_field(a) is Some ==> vx_field(a + b) == vx_field(a)
{
    if vx_field(a) is Some {
        vx_body_prefix(a.skip(2), b);
        assert((a + b).skip(2) =~= a.skip(2) + b);
        assert((a + b).subrange(0, 2) =~= a.subrange(0, 2));
    }
}
pub proof fn vx_store_cat(a: Seq<u8>, b: Seq<u8>, m: Map<u16, Seq<u8>>)
    ensures vx_store_acc(a, m) is Some ==> vx_store_acc(a + b, m) == vx_store_acc(b, vx_store_acc(a, m)->0)
    decreases a.len()
{
    if vx_store_acc(a, m) is Some {
        if a.len() == 0 {
            assert(a + b =~= b);
        } else {
            vx_field_prefix(a, b);
            let (id, x, n) = vx_field(a)->0;
            assert((a + b).skip(n) =~= a.skip(n) + b);
            vx_store_cat(a.skip(n), b, m.insert(id, x));
        }
    }
}
pub open spec fn vx_sized(wide: bool, p: Seq<u8>) -> bool { p.len() <= u64::MAX && (!wide ==> p.len() < 256) }
pub proof fn vx_field_of(id: u16, wide: bool, p: Seq<u8>)
    requires vx_sized(wide, p)
    ensures ({ let s = vx_vb(Some(id), wide, p); vx_field(s) == Some((id, p, s.len() as int)) && s.len() > 0 })
{
    broadcast use vx_rt_prims;
    let s = vx_vb(Some(id), wide, p);
    let t = s.skip(2);
    let sz = vx_size(wide, p.len());
    assert(s.subrange(0, 2) =~= vx_le_u16(id));
    assert(t =~= vx_size_bytes(sz) + p);
    if wide {
        assert(t[0] == 64u8);
        assert(t.subrange(1, 9) =~= vx_le_u64(p.len() as u64));
        assert(t.subrange(9, 9 + p.len() as int) =~= p);
    } else {
        assert(t[0] == 8u8);
        assert(t.subrange(1, 2) =~= vx_le_u8(p.len() as u8));
        assert(t.subrange(2, 2 + p.len() as int) =~= p);
    }
}
pub proof fn vx_store_app(a: Seq<u8>, id: u16, wide: bool, p: Seq<u8>)
    requires vx_store(a) is Some, vx_sized(wide, p)
    ensures vx_store(a + vx_vb(Some(id), wide, p)) == Some(vx_store(a)->0.insert(id, p)),
        (a + vx_vb(Some(id), wide, p)).len() >= a.len() + p.len()
{
    let s = vx_vb(Some(id), wide, p);
    vx_field_of(id, wide, p);
    vx_store_cat(a, s, Map::empty());
    let m = vx_store(a)->0;
    assert(s.skip(s.len() as int).len() == 0);
    assert(vx_store_acc(s.skip(s.len() as int), m.insert(id, p)) == Some(m.insert(id, p)));
}
pub proof fn vx_vb_len(id: Option<u16>, wide: bool, p: Seq<u8>) ensures vx_vb(id, wide, p).len() >= p.len()
{ broadcast use vx_rt_prims; }
// the order of fields with different ids is irrelevant
pub proof fn vx_store_order(a: Seq<u8>, i: u16, wi: bool, x: Seq<u8>, j: u16, wj: bool, y: Seq<u8>, b: Seq<u8>)
    requires vx_store(a) is Some, vx_sized(wi, x), vx_sized(wj, y), i != j
    ensures vx_store(a + vx_vb(Some(i), wi, x) + vx_vb(Some(j), wj, y) + b) == vx_store(a + vx_vb(Some(j), wj, y) + vx_vb(Some(i), wi, x) + b)
{
    let (f, g) = (vx_vb(Some(i), wi, x), vx_vb(Some(j), wj, y));
    vx_store_app(a, i, wi, x);
    vx_store_app(a + f, j, wj, y);
    vx_store_app(a, j, wj, y);
    vx_store_app(a + g, i, wi, x);
    vx_store_cat(a + f + g, b, Map::empty());
    vx_store_cat(a + g + f, b, Map::empty());
    let m = vx_store(a)->0;
    assert(m.insert(i, x).insert(j, y) =~= m.insert(j, y).insert(i, x));
}
// a repeated id: the last occurrence wins
pub proof fn vx_store_last(a: Seq<u8>, i: u16, w1: bool, x: Seq<u8>, w2: bool, y: Seq<u8>, b: Seq<u8>)
    requires vx_store(a) is Some, vx_sized(w1, x), vx_sized(w2, y)
    ensures vx_store(a + vx_vb(Some(i), w1, x) + vx_vb(Some(i), w2, y) + b) == vx_store(a + vx_vb(Some(i), w2, y) + b)
{
    let (f, g) = (vx_vb(Some(i), w1, x), vx_vb(Some(i), w2, y));
    vx_store_app(a, i, w1, x);
    vx_store_app(a + f, i, w2, y);
    vx_store_app(a, i, w2, y);
    vx_store_cat(a + f + g, b, Map::empty());
    vx_store_cat(a + g, b, Map::empty());
    let m = vx_store(a)->0;
    assert(m.insert(i, x).insert(i, y) =~= m.insert(i, y));
}

// ---- arrays of items
pub proof fn vx_items_app<V>(a: Seq<u8>, x: V, e: Seq<u8>, hl: int, p: spec_fn(Seq<u8>) -> Option<V>)
    requires hl == 4 || hl == 8, e.len() <= (if hl == 4 { u32::MAX as nat } else { u64::MAX as nat }), p(e) == Some(x), vx_items(a, hl, p) is Some
    ensures vx_items(a + (vx_lenw(hl, e.len()) + e), hl, p) == Some(vx_items(a, hl, p)->0.push(x))
    decreases a.len()
{
    broadcast use vx_rt_prims;
    let t = vx_lenw(hl, e.len()) + e;
    let c = a + t;
    if a.len() == 0 {
        assert(c =~= t);
        assert(t.subrange(0, hl) =~= vx_lenw(hl, e.len()));
        assert(t.subrange(hl, hl + e.len() as int) =~= e);
        assert(t.skip(hl + e.len() as int) =~= Seq::empty());
        assert(vx_items(t.skip(hl + e.len() as int), hl, p) == Some(Seq::<V>::empty()));
        assert(seq![x] + Seq::<V>::empty() =~= Seq::<V>::empty().push(x));
    } else {
        let n = vx_unlen(hl, a.subrange(0, hl)) as int;
        assert(c.subrange(0, hl) =~= a.subrange(0, hl));
        assert(c.subrange(hl, hl + n) =~= a.subrange(hl, hl + n));
        assert(c.skip(hl + n) =~= a.skip(hl + n) + t);
        vx_items_app(a.skip(hl + n), x, e, hl, p);
        let v = p(a.subrange(hl, hl + n))->0;
        let r = vx_items(a.skip(hl + n), hl, p)->0;
        assert(seq![v] + r.push(x) =~= (seq![v] + r).push(x));
    }
}
pub proof fn vx_items_rt<V>(s: Seq<V>, hl: int, f: spec_fn(V) -> Seq<u8>, e: spec_fn(V) -> Seq<u8>, p: spec_fn(Seq<u8>) -> Option<V>)
    requires hl == 4 || hl == 8,
        forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == vx_lenw(hl, e(s[i]).len()) + e(s[i]),
        forall|i: int| 0 <= i < s.len() ==> e(#[trigger] s[i]).len() <= (if hl == 4 { u32::MAX as nat } else { u64::MAX as nat }),
        forall|i: int| 0 <= i < s.len() ==> p(e(#[trigger] s[i])) == Some(s[i]),
    ensures vx_items(vx_cat(s, f), hl, p) == Some(s)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s =~= Seq::empty());
    } else {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) == vx_lenw(hl, e(d[i]).len()) + e(d[i]) && e(d[i]).len() <= (if hl == 4 { u32::MAX as nat } else { u64::MAX as nat }) && p(e(d[i])) == Some(d[i]) by { assert(d[i] == s[i]); }
        vx_items_rt(d, hl, f, e, p);
        let x = s[s.len() - 1];
        assert(s.last() == x);
        vx_items_app(vx_cat(d, f), x, e(x), hl, p);
        assert(d.push(x) =~= s);
    }
}
pub proof fn vx_cat_part<V>(s: Seq<V>, f: spec_fn(V) -> Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures f(s[i]).len() <= vx_cat(s, f).len()
    decreases s.len()
{ if i < s.len() - 1 { vx_cat_part(s.drop_last(), f, i); assert(s.drop_last()[i] == s[i]); } }

// ---- encode then decode yields the value
pub trait VxRtE: Encode + Decode<Self> + Sized {
    // Some(x) with an empty encoding is the wire form of None
    spec fn rt_pre(v: Self::V) -> bool;
    proof fn rt(v: Self::V)
        requires Self::en_ok(v), Self::en_fits(v), Self::rt_pre(v), Self::en_payload(v).len() <= isize::MAX
        ensures Self::de_parse(Self::en_payload(v)) == Some(v), vx_sized(Self::en_wide(v), Self::en_payload(v));
}
pub trait VxRtN: EncodeEnum + DecodeEnum<Self> + Sized {
    spec fn nrt_pre(v: Self::V) -> bool;
    proof fn nrt(v: Self::V)
        requires Self::ne_ok(v), Self::ne_fits(v), Self::nrt_pre(v), Self::ne_payload(v).len() <= isize::MAX
        ensures Self::dn_parse(Self::ne_payload(v)) == Some(v), vx_sized(Self::ne_wide(v), Self::ne_payload(v));
}
pub trait VxRtS: StructEncode + StructDecode {
    spec fn srt_pre(v: Self::V) -> bool;
    proof fn srt(v: Self::V)
        requires Self::se_ok(v), Self::se_fits(v), Self::srt_pre(v), Self::se_bytes(v).len() <= isize::MAX
        ensures vx_sdec::<Self>(Self::se_bytes(v)) == Some(v);
}
pub trait VxRtU: EnumEncode + EnumDecode + Sized {
    spec fn urt_pre(v: Self::V) -> bool;
    proof fn urt(v: Self::V)
        requires Self::ee_ok(v), Self::ee_fits(v), Self::urt_pre(v), Self::ee_bytes(v).len() <= isize::MAX
        ensures Self::ed_parse(Self::ee_bytes(v)) == Some(v), Self::ee_bytes(v).len() >= 2;
}
impl<T: VxRtS> VxRtE for T {
    open spec fn rt_pre(v: T::V) -> bool { T::srt_pre(v) }
    proof fn rt(v: T::V) { T::srt(v); }
}
impl<T: VxRtU> VxRtN for T {
    open spec fn nrt_pre(v: T::V) -> bool { T::urt_pre(v) }
    proof fn nrt(v: T::V) { T::urt(v); }
}
impl<T: VxRtS> VxRtE for Vec<T> {
    open spec fn rt_pre(v: Seq<T::V>) -> bool { forall|i: int| 0 <= i < v.len() ==> T::srt_pre(#[trigger] v[i]) }
    proof fn rt(v: Seq<T::V>) {
        let f = vx_f_struct::<T>();
        let e = |x: T::V| T::se_bytes(x);
        let p = vx_p_struct::<T>();
        assert forall|i: int| 0 <= i < v.len() implies p(e(#[trigger] v[i])) == Some(v[i]) && e(v[i]).len() <= u64::MAX by {
            vx_cat_part(v, f, i);
            T::srt(v[i]);
        }
        vx_items_rt(v, 8, f, e, p);
    }
}
impl<T: VxRtU> VxRtN for Vec<T> {
    open spec fn nrt_pre(v: Seq<T::V>) -> bool { forall|i: int| 0 <= i < v.len() ==> T::urt_pre(#[trigger] v[i]) }
    proof fn nrt(v: Seq<T::V>) {
        let f = vx_f_enum::<T>();
        let e = |x: T::V| T::ee_bytes(x);
        let p = vx_p_enum::<T>();
        assert forall|i: int| 0 <= i < v.len() implies p(e(#[trigger] v[i])) == Some(v[i]) && e(v[i]).len() <= u64::MAX by {
            vx_cat_part(v, f, i);
            T::urt(v[i]);
        }
        vx_items_rt(v, 8, f, e, p);
    }
}
pub proof fn vx_str_rt(v: Seq<char>) ensures vx_lossy(vstd::utf8::encode_utf8(v)) == v
{
    broadcast use vx_lossy_valid;
    vstd::utf8::encode_utf8_valid_utf8(v);
    vstd::utf8::encode_utf8_decode_utf8(v);
}
impl VxRtE for String {
    open spec fn rt_pre(v: Seq<char>) -> bool { true }
    proof fn rt(v: Seq<char>) { vx_str_rt(v); }
}
impl VxRtE for Vec<String> {
    open spec fn rt_pre(v: Seq<Seq<char>>) -> bool { true }
    proof fn rt(v: Seq<Seq<char>>) {
        let f = vx_f_str();
        let e = |x: Seq<char>| vstd::utf8::encode_utf8(x);
        let p = vx_p_str();
        assert forall|i: int| 0 <= i < v.len() implies p(e(#[trigger] v[i])) == Some(v[i]) && e(v[i]).len() <= u32::MAX by {
            vx_str_rt(v[i]);
        }
        vx_items_rt(v, 4, f, e, p);
    }
}
impl<T: VxRtE> VxRtE for Option<T> {
    open spec fn rt_pre(v: Option<T::V>) -> bool { match v { Some(x) => T::rt_pre(x) && T::en_payload(x).len() > 0, None => true } }
    proof fn rt(v: Option<T::V>) { if v is Some { T::rt(v->0); } }
}
// @@PRIM_RT@@

// ---- streams
pub proof fn vx_run_split<V>(a: Seq<u8>, b: Seq<u8>, sig: u16, p: spec_fn(u32, Seq<u8>) -> Option<V>)
    ensures !vx_run(a, sig, p).err ==> vx_run(a + b, sig, p) == vx_preq(vx_run(a, sig, p).out, vx_run(vx_run(a, sig, p).rest + b, sig, p))
    decreases a.len()
{
    let r = vx_run(a, sig, p);
    let c = a + b;
    if !r.err {
        let h = vx_hdr(a);
        if a.len() < 26 || a.len() < 26 + h.len {
            assert(Seq::<VxMsgOf<V>>::empty() + vx_run(a + b, sig, p).out =~= vx_run(a + b, sig, p).out);
        } else {
            vx_hdr_prefix(a, b);
            let n = 26 + h.len as int;
            assert(c.subrange(26, n) =~= a.subrange(26, n));
            assert(c.skip(n) =~= a.skip(n) + b);
            vx_run_split(a.skip(n), b, sig, p);
            vx_run_step(a, sig, p);
            vx_run_step(c, sig, p);
            let m = VxMsgOf { hdr: h, msg: p(h.id, a.subrange(26, n))->0 };
            let q = vx_run(a.skip(n), sig, p);
            let t = vx_run(q.rest + b, sig, p);
            assert(seq![m] + (q.out + t.out) =~= (seq![m] + q.out) + t.out);
        }
    }
}
pub proof fn vx_hdr_prefix(a: Seq<u8>, b: Seq<u8>) requires a.len() >= 26 ensures vx_hdr(a + b) == vx_hdr(a)
{
    let c = a + b;
    assert(c.subrange(0, 4) =~= a.subrange(0, 4));
    assert(c.subrange(4, 6) =~= a.subrange(4, 6));
    assert(c.subrange(6, 10) =~= a.subrange(6, 10));
    assert(c.subrange(10, 18) =~= a.subrange(10, 18));
    assert(c.subrange(18, 26) =~= a.subrange(18, 26));
}
// a packed message at the front of a stream is delivered first and exactly once, with its own header
pub proof fn vx_run_packet<V>(b: Seq<u8>, id: u32, sig: u16, seq: u32, body: Seq<u8>, m: V, rest: Seq<u8>, p: spec_fn(u32, Seq<u8>) -> Option<V>)
    requires vx_is_packet(b, id, sig, seq, body), body.len() <= isize::MAX, p(id, body) == Some(m)
    ensures ({
        let r = vx_run(b + rest, sig, p);
        let t = vx_run(rest, sig, p);
        r.rest == t.rest && r.err == t.err && r.out.len() == t.out.len() + 1 && r.out.skip(1) == t.out
        && r.out[0].msg == m && r.out[0].hdr.id == id && r.out[0].hdr.sig == sig && r.out[0].hdr.seq == seq && r.out[0].hdr.len == body.len()
    })
{
    broadcast use vx_rt_prims;
    let ts = vx_un_u64(b.subrange(10, 18));
    assert(b == vx_packet(id, sig, seq, ts, body));
    let c = b + rest;
    assert(c.subrange(0, 4) =~= vx_le_u32(id));
    assert(c.subrange(4, 6) =~= vx_le_u16(sig));
    assert(c.subrange(6, 10) =~= vx_le_u32(seq));
    assert(c.subrange(10, 18) =~= vx_le_u64(ts));
    assert(c.subrange(18, 26) =~= vx_le_u64(body.len() as u64));
    let n = 26 + body.len() as int;
    assert(c.subrange(26, n) =~= body);
    assert(c.skip(n) =~= rest);
    vx_run_step(c, sig, p);
    let t = vx_run(rest, sig, p);
    let r = vx_run(c, sig, p);
    assert(r.out.skip(1) =~= t.out);
}
// a foreign signature or an unknown id stops the stream with an error and delivers nothing more
pub proof fn vx_run_reject<V>(b: Seq<u8>, sig: u16, p: spec_fn(u32, Seq<u8>) -> Option<V>)
    requires b.len() >= 26, b.len() >= 26 + vx_hdr(b).len, vx_hdr(b).sig != sig || p(vx_hdr(b).id, b.subrange(26, 26 + vx_hdr(b).len as int)) is None
    ensures vx_run(b, sig, p).err, vx_run(b, sig, p).out.len() == 0
{ vx_run_step(b, sig, p); }
// nothing is delivered before a packet is complete
pub proof fn vx_run_partial<V>(b: Seq<u8>, sig: u16, p: spec_fn(u32, Seq<u8>) -> Option<V>)
    requires b.len() < 26 || b.len() < 26 + vx_hdr(b).len
    ensures vx_run(b, sig, p) == (VxRun::<V> { rest: b, out: Seq::empty(), err: false })
{ vx_run_step(b, sig, p); }
