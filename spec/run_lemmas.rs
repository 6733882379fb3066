pub mod vxl {
use vstd::prelude::*;
use crate::*;
use crate::vx::*;
use crate::vxs::*;
use crate::consumer::identification::{Identification, IdentificationChannel};
use crate::producer::{Event, Options};
use protocol::AvailableMessages as Msg;
use protocol::PackageHeader as Hdr;

// ---- R01
pub proof fn vx_r01_overwrite(c: Option<protocol::Auth::Me>, k: protocol::Auth::Me) ensures vx_key(c, k, true) == Some(k) { }
pub proof fn vx_r01_keep(c: protocol::Auth::Me, k: protocol::Auth::Me)
    ensures vx_key(Some(c), k, false) is Some, k.uuid is None ==> vx_key(Some(c), k, false)->0.uuid == c.uuid, k.id is None ==> vx_key(Some(c), k, false)->0.id == c.id, k.tags is None ==> vx_key(Some(c), k, false)->0.tags == c.tags,
        k.uuid is Some ==> vx_key(Some(c), k, false)->0.uuid == k.uuid, vx_key(Some(c), k, false)->0.level == k.level { }
pub proof fn vx_r01_role(c: protocol::Auth::Role, k: protocol::Auth::Role)
    ensures vx_assign(Some(c), k, false) is Some, k.uuid is None ==> vx_assign(Some(c), k, false)->0.uuid == c.uuid, vx_assign(Some(c), k, false)->0.bits == k.bits, vx_assign(Some(c), k, true) == Some(k) { }
// a key once given stays given, whatever is merged into it
pub proof fn vx_r01_stays(c: Option<protocol::Auth::Me>, k: protocol::Auth::Me, o: bool) ensures vx_key(c, k, o) is Some { }

// ---- R02
// a broadcast reaches each of its consumers, in turn, and nobody else
pub proof fn vx_r02_bcast(l: Seq<VxEv>, us: Seq<Uuid>, b: Seq<u8>, n: int)
    requires 0 <= n <= us.len()
    ensures vx_bcast_n(l, us, b, n).len() == l.len() + n, forall|i: int| 0 <= i < l.len() ==> vx_bcast_n(l, us, b, n)[i] == l[i],
        forall|i: int| 0 <= i < n ==> #[trigger] vx_bcast_n(l, us, b, n)[l.len() + i] == VxEv::Send(Some(us[i]), b)
    decreases n
{
    if n > 0 {
        vx_r02_bcast(l, us, b, n - 1);
        assert(vx_bcast_n(l, us, b, n) == vx_bcast_n(l, us, b, n - 1).push(VxEv::Send(Some(us[n - 1]), b)));
    }
}
// the first thing out after the user's function is the answer, to the consumer that asked
pub proof fn vx_r02_reply(l0: Seq<VxEv>, u: Uuid, resp: Seq<u8>, bs: Seq<VxB>)
    requires vx_packed(bs), !vx_defers(l0)
    ensures vx_reply(l0, u, Some(resp), bs).0.len() > vx_user(l0).len(), vx_reply(l0, u, Some(resp), bs).0[vx_user(l0).len() as int] == VxEv::Send(Some(u), resp)
{
    let l2 = vx_user(l0).push(VxEv::Send(Some(u), resp));
    let e = VxEv::Send(Some(u), resp);
    assert(l2[vx_user(l0).len() as int] == e);
    if vx_ctl_ok(l2) { vx_r02_pre(l2, bs, bs.len() as int); assert(vx_bcasts(l2, bs)[vx_user(l0).len() as int] == l2[vx_user(l0).len() as int]); }
}
pub proof fn vx_r02_pre(l: Seq<VxEv>, bs: Seq<VxB>, n: int)
    requires 0 <= n <= bs.len()
    ensures vx_bcasts_n(l, bs, n).len() >= l.len(), forall|i: int| 0 <= i < l.len() ==> vx_bcasts_n(l, bs, n)[i] == l[i] decreases n
{
    if n > 0 { vx_r02_pre(l, bs, n - 1); vx_r02_bcast(vx_bcasts_n(l, bs, n - 1), bs[n - 1].0, bs[n - 1].1->0, bs[n - 1].0.len() as int); }
}
// an answer that cannot be sent ends the request: no broadcast, nothing deferred
pub proof fn vx_r02_silent(l0: Seq<VxEv>, u: Uuid, resp: Seq<u8>, bs: Seq<VxB>)
    requires vx_packed(bs), !vx_ctl_ok(vx_user(l0).push(VxEv::Send(Some(u), resp)))
    ensures vx_reply(l0, u, Some(resp), bs) == (vx_user(l0).push(VxEv::Send(Some(u), resp)), false) { }

// ---- R04
// whoever has not shown the right hash and a key gets nothing but a disconnect
pub proof fn vx_r04_gate(s: VxS, m: VxM, u: Uuid, o: Options, msg: Msg, h: Hdr)
    requires !s.c.hash || s.c.ident.key is None,
        !(msg is Auth && msg->Auth_0 is Me && !s.c.hash), !(msg is InternalServiceGroup && msg->InternalServiceGroup_0 is HashRequest)
    ensures vx_msg(s, m, u, o, msg, h) == vx_drop(s, VxKind::NoKey(u), u) { reveal(vx_msg); }
// whoever needs to be assigned and is not, reaches no handler
pub proof fn vx_r04_assigned(s: VxS, m: VxM, u: Uuid, o: Options, msg: Msg, h: Hdr)
    requires s.c.hash, s.c.ident.key is Some, !vx_assigned(s.c.ident), o.producer_indentification_strategy is Disconnect, !(msg is InternalServiceGroup && msg->InternalServiceGroup_0 is HashRequest)
    ensures vx_msg(s, m, u, o, msg, h) == vx_disc(s, u) { reveal(vx_msg); }
// a discredited consumer is not heard again
pub proof fn vx_r04_discredited(m: VxM, l: Seq<VxEv>, u: Uuid, o: Options, b: Seq<u8>)
    requires m.dom().contains(u), m[u].confirmed, m[u].ident.discredited
    ensures vx_received(m, l, u, o, b) == (VxR { m, l, ok: true }) { reveal(vx_received); }
pub proof fn vx_r04_rest(s: VxS, m: VxM, u: Uuid, o: Options, ms: Seq<(Msg, Hdr)>, n: int)
    requires s.c.ident.discredited ensures vx_all(s, m, u, o, ms, n) == s { vx_all_step(s, m, u, o, ms, n); }
// a key sent after the hash was accepted is no identification
pub proof fn vx_r04_key_once(s: VxS, m: VxM, u: Uuid, o: Options, k: protocol::Auth::Me, h: Hdr)
    requires s.c.hash, s.c.ident.key is Some, vx_assigned(s.c.ident)
    ensures vx_msg(s, m, u, o, Msg::Auth(protocol::Auth::AvailableMessages::Me(k)), h) == s { reveal(vx_msg); }

// states that differ in nothing a handler or a later message can tell
pub open spec fn vx_same(a: VxS, b: VxS) -> bool { a.l == b.l && a.ok == b.ok && vx_samec(a.c, b.c) }
pub open spec fn vx_samec(a: VxC, b: VxC) -> bool { a.uuid == b.uuid && a.ident == b.ident && a.hash == b.hash && a.confirmed == b.confirmed }
proof fn vx_r04_same_disc(a: VxS, b: VxS, u: Uuid) requires vx_same(a, b) ensures vx_same(vx_disc(a, u), vx_disc(b, u)) { reveal(vx_disc); }
proof fn vx_r04_same_failed(a: VxS, b: VxS, u: Uuid, o: Options) requires vx_same(a, b) ensures vx_same(vx_failed(a, u, o), vx_failed(b, u, o)) { reveal(vx_failed); vx_r04_same_disc(a, b, u); }
proof fn vx_r04_same_dispatch(a: VxS, b: VxS, m: VxM, n: VxM, u: Uuid, o: Options, msg: Msg, q: u32)
    requires vx_same(a, b), vx_vis(m) == vx_vis(n) ensures vx_same(vx_dispatch(a, m, u, o, msg, q), vx_dispatch(b, n, u, o, msg, q))
{
    reveal(vx_ping); reveal(vx_bell); reveal(vx_chat_message); reveal(vx_chat_deep_ask);
    match msg {
        Msg::Bell(r) => { let x = vx_bell(a.l, a.c.ident, m, r, q); vx_r04_same_failed(VxS { l: x.0, ..a }, VxS { l: x.0, ..b }, u, o); }
        Msg::Ping(r) => { let x = vx_ping(a.l, a.c.ident, m, r, q); vx_r04_same_failed(VxS { l: x.0, ..a }, VxS { l: x.0, ..b }, u, o); }
        Msg::Chat(protocol::Chat::AvailableMessages::Message(r)) => { let x = vx_chat_message(a.l, a.c.ident, m, r, q); vx_r04_same_failed(VxS { l: x.0, ..a }, VxS { l: x.0, ..b }, u, o); }
        Msg::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Ask(r))) => { let x = vx_chat_deep_ask(a.l, a.c.ident, m, r, q); vx_r04_same_failed(VxS { l: x.0, ..a }, VxS { l: x.0, ..b }, u, o); }
        _ => {}
    }
}
proof fn vx_r04_same_answer(a: VxS, b: VxS, u: Uuid, o: Options, x: Option<Seq<u8>>) requires vx_same(a, b) ensures vx_same(vx_answer(a, u, o, x), vx_answer(b, u, o, x)) {
    vx_r04_same_failed(a, b, u, o);
    if x is Some { let l = a.l.push(VxEv::Send(Some(u), x->0)); vx_r04_same_failed(VxS { l, ..a }, VxS { l, ..b }, u, o); }
}
proof fn vx_r04_same_drop(a: VxS, b: VxS, k: VxKind, u: Uuid) requires vx_same(a, b) ensures vx_same(vx_drop(a, k, u), vx_drop(b, k, u)) { vx_r04_same_disc(a, b, u); }
proof fn vx_r04_same_msg(a: VxS, b: VxS, m: VxM, n: VxM, u: Uuid, o: Options, msg: Msg, h: Hdr)
    requires vx_same(a, b), vx_vis(m) == vx_vis(n) ensures vx_same(vx_msg(a, m, u, o, msg, h), vx_msg(b, n, u, o, msg, h))
{
    reveal(vx_msg);
    vx_r04_same_drop(a, b, VxKind::NoKey(u), u);
    vx_r04_same_disc(a, b, u);
    vx_r04_same_dispatch(a, b, m, n, u, o, msg, h.sequence);
    match msg {
        Msg::Auth(protocol::Auth::AvailableMessages::Me(k)) => {
            let i = a.c.ident;
            let x = VxS { c: VxC { ident: Identification { key: vx_key(i.key, k, true), ..i }, ..a.c }, ..a };
            let y = VxS { c: VxC { ident: Identification { key: vx_key(i.key, k, true), ..i }, ..b.c }, ..b };
            vx_r04_same_answer(x, y, u, o, protocol::vx_pack(protocol::InternalServiceGroup::SelfKeyResponse { uuid: vx_string(vx_disp(&a.c.uuid)) }, h.sequence, vx_id(a.c.uuid)));
        }
        Msg::InternalServiceGroup(protocol::InternalServiceGroup::AvailableMessages::HashRequest(r)) => {
            let valid = r.protocol@ == hash::PROTOCOL@ && r.workflow@ == hash::WORKFLOW@;
            let p = protocol::vx_pack(protocol::InternalServiceGroup::HashResponse { error: if valid { None } else { Some(vx_string("Hash is invalid"@)) } }, h.sequence, vx_id(u));
            let x = VxS { c: VxC { hash: a.c.hash || valid, ..a.c }, ..a };
            let y = VxS { c: VxC { hash: b.c.hash || valid, ..b.c }, ..b };
            vx_r04_same_answer(x, y, u, o, p);
            vx_r04_same_drop(vx_answer(x, u, o, p), vx_answer(y, u, o, p), VxKind::NoKey(u), u);
        }
        _ => {}
    }
}
proof fn vx_r04_vis(m: VxM, n: VxM, u: Uuid, a: VxC, b: VxC) requires vx_samec(a, b), vx_vis(m.insert(u, a)) == vx_vis(n.insert(u, a)) ensures vx_vis(m.insert(u, a)) == vx_vis(n.insert(u, b)) {
    assert(vx_vis(n.insert(u, a)) =~= vx_vis(n.insert(u, b)));
}
proof fn vx_r04_vis2(m: VxM, n: VxM, u: Uuid, a: VxC, b: VxC) requires vx_vis(m.insert(u, a)) == vx_vis(n.insert(u, a)) ensures vx_vis(m.insert(u, b)) == vx_vis(n.insert(u, b)) {
    let x = vx_vis(m.insert(u, a)); let y = vx_vis(n.insert(u, a));
    assert forall|k: Uuid| vx_vis(m.insert(u, b)).dom().contains(k) <==> vx_vis(n.insert(u, b)).dom().contains(k) by { assert(x.dom().contains(k) <==> y.dom().contains(k)); }
    assert forall|k: Uuid| vx_vis(m.insert(u, b)).dom().contains(k) implies vx_vis(m.insert(u, b))[k] == vx_vis(n.insert(u, b))[k] by { if k != u { assert(x.dom().contains(k)); assert(x[k] == y[k]); assert(x[k] == (m[k].uuid, m[k].ident)); assert(y[k] == (n[k].uuid, n[k].ident)); } }
    assert(vx_vis(m.insert(u, b)) =~= vx_vis(n.insert(u, b)));
}
// messages handled from states that look the same leave states that look the same
proof fn vx_r04_same_all(a: VxS, b: VxS, m: VxM, n: VxM, u: Uuid, o: Options, x: Seq<(Msg, Hdr)>, i: int, y: Seq<(Msg, Hdr)>, j: int)
    requires vx_same(a, b), vx_vis(m.insert(u, a.c)) == vx_vis(n.insert(u, a.c)), 0 <= i <= x.len(), 0 <= j <= y.len(), x.len() - i == y.len() - j, forall|k: int| 0 <= k < x.len() - i ==> #[trigger] x[i + k] == y[j + k]
    ensures vx_same(vx_all(a, m, u, o, x, i), vx_all(b, n, u, o, y, j)) decreases x.len() - i
{
    vx_all_step(a, m, u, o, x, i); vx_all_step(b, n, u, o, y, j);
    if i < x.len() && a.ok && !a.c.ident.discredited {
        assert(x[i + 0] == y[j + 0]);
        vx_r04_vis(m, n, u, a.c, b.c);
        vx_r04_same_msg(a, b, m.insert(u, a.c), n.insert(u, b.c), u, o, x[i].0, x[i].1);
        let a1 = vx_msg(a, m.insert(u, a.c), u, o, x[i].0, x[i].1);
        let b1 = vx_msg(b, n.insert(u, b.c), u, o, y[j].0, y[j].1);
        vx_r04_vis2(m, n, u, a.c, a1.c);
        assert forall|k: int| 0 <= k < x.len() - (i + 1) implies #[trigger] x[i + 1 + k] == y[j + 1 + k] by { assert(x[i + (k + 1)] == y[j + (k + 1)]); }
        vx_r04_same_all(a1, b1, m, n, u, o, x, i + 1, y, j + 1);
    }
}
// the messages of two chunks, handled in two runs or in one
proof fn vx_r04_split(s: VxS, m: VxM, u: Uuid, o: Options, x: Seq<(Msg, Hdr)>, y: Seq<(Msg, Hdr)>, i: int)
    requires 0 <= i <= x.len()
    ensures vx_same(vx_all(s, m, u, o, x + y, i), vx_all(vx_all(s, m, u, o, x, i), m, u, o, y, 0)) decreases x.len() - i
{
    vx_all_step(s, m, u, o, x, i); vx_all_step(s, m, u, o, x + y, i);
    if !s.ok || s.c.ident.discredited { vx_all_step(s, m, u, o, y, 0); }
    else if i < x.len() {
        assert((x + y)[i] == x[i]);
        vx_r04_split(vx_msg(s, m.insert(u, s.c), u, o, x[i].0, x[i].1), m, u, o, x, y, i + 1);
    } else {
        assert forall|k: int| 0 <= k < (x + y).len() - i implies #[trigger] (x + y)[i + k] == y[0 + k] by { }
        vx_r04_same_all(s, s, m, m, u, o, x + y, i, y, 0);
    }
}
// how a stream is cut: what was read of the first bytes stays read (checks of C05)
pub open spec fn vx_cut(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool {
    &&& protocol::vx_out::<Msg>(p + (a + b)) == protocol::vx_out::<Msg>(p + a) + protocol::vx_out::<Msg>(protocol::vx_rest::<Msg>(p + a) + b)
    &&& protocol::vx_rest::<Msg>(p + (a + b)) == protocol::vx_rest::<Msg>(protocol::vx_rest::<Msg>(p + a) + b)
}
// where the bytes of a consumer are cut into chunks makes no difference to what the user's functions, the server and the other consumers see
pub proof fn vx_r04_chunks(m: VxM, l: Seq<VxEv>, u: Uuid, o: Options, a: Seq<u8>, b: Seq<u8>)
    requires m.dom().contains(u), m[u].confirmed, !m[u].ident.discredited, m[u].q.len() == 0, vx_cut(m[u].pend, a, b),
        !protocol::vx_bad::<Msg>(m[u].pend + a), !protocol::vx_bad::<Msg>(m[u].pend + (a + b)), !protocol::vx_bad::<Msg>(protocol::vx_rest::<Msg>(m[u].pend + a) + b),
        vx_received(m, l, u, o, a).ok, vx_received(m, l, u, o, a).m[u].confirmed
    ensures ({ let r = vx_received(m, l, u, o, a); let two = vx_received(r.m, r.l, u, o, b); let one = vx_received(m, l, u, o, a + b);
        two.l == one.l && two.ok == one.ok && vx_vis(two.m) == vx_vis(one.m) })
{
    broadcast use vx_laws;
    reveal(vx_received);
    let s = VxS { c: m[u], l, ok: true };
    let pa = s.c.pend + a;
    let c1 = VxC { pend: protocol::vx_rest::<Msg>(pa), q: Seq::empty(), ..s.c };
    let x = protocol::vx_out::<Msg>(pa);
    assert(s.c.q + x =~= x);
    let s1 = vx_all(VxS { c: c1, ..s }, m, u, o, x, 0);
    vx_r04_keeps(VxS { c: c1, ..s }, m, u, o, x, 0);
    let r = vx_received(m, l, u, o, a);
    assert(r == vx_back(m, u, s1));
    let y = protocol::vx_out::<Msg>(c1.pend + b);
    let cc = VxC { pend: protocol::vx_rest::<Msg>(c1.pend + b), q: Seq::empty(), ..s.c };
    let one = vx_all(VxS { c: cc, ..s }, m, u, o, x + y, 0);
    assert(s.c.q + protocol::vx_out::<Msg>(s.c.pend + (a + b)) =~= x + y);
    assert(vx_received(m, l, u, o, a + b) == vx_back(m, u, one));
    // in one run
    vx_r04_same_all(VxS { c: c1, ..s }, VxS { c: cc, ..s }, m, m, u, o, x + y, 0, x + y, 0);
    vx_r04_split(VxS { c: c1, ..s }, m, u, o, x, y, 0);
    let two = vx_all(s1, m, u, o, y, 0);
    assert(vx_same(one, two));
    if s1.c.ident.discredited {
        assert(two == s1);
        vx_r04_vis(m, m, u, s1.c, one.c);
    } else {
        let c2 = VxC { pend: protocol::vx_rest::<Msg>(s1.c.pend + b), q: Seq::empty(), ..s1.c };
        assert(s1.c.q + y =~= y);
        let t = vx_all(VxS { c: c2, ..s1 }, r.m, u, o, y, 0);
        assert(vx_received(r.m, r.l, u, o, b) == vx_back(r.m, u, t));
        vx_r04_same_all(s1, VxS { c: c2, ..s1 }, m, r.m, u, o, y, 0, y, 0);
        vx_r04_vis(m, m, u, one.c, t.c);
    }
}
// handling messages leaves the reader alone
proof fn vx_r04_keeps_msg(s: VxS, m: VxM, u: Uuid, o: Options, msg: Msg, h: Hdr)
    ensures vx_msg(s, m, u, o, msg, h).c.pend == s.c.pend, vx_msg(s, m, u, o, msg, h).c.q == s.c.q, vx_msg(s, m, u, o, msg, h).c.confirmed == s.c.confirmed, vx_msg(s, m, u, o, msg, h).c.ident.assigned == s.c.ident.assigned, s.c.hash ==> vx_msg(s, m, u, o, msg, h).c.hash, s.c.ident.discredited ==> vx_msg(s, m, u, o, msg, h).c.ident.discredited { reveal(vx_msg); reveal(vx_failed); reveal(vx_disc); }
proof fn vx_r04_keeps(s: VxS, m: VxM, u: Uuid, o: Options, ms: Seq<(Msg, Hdr)>, n: int)
    ensures vx_all(s, m, u, o, ms, n).c.pend == s.c.pend, vx_all(s, m, u, o, ms, n).c.q == s.c.q, vx_all(s, m, u, o, ms, n).c.confirmed == s.c.confirmed, vx_all(s, m, u, o, ms, n).c.ident.assigned == s.c.ident.assigned, s.c.hash ==> vx_all(s, m, u, o, ms, n).c.hash, s.c.ident.discredited ==> vx_all(s, m, u, o, ms, n).c.ident.discredited decreases ms.len() - n
{
    vx_all_step(s, m, u, o, ms, n);
    if 0 <= n < ms.len() && s.ok && !s.c.ident.discredited {
        vx_r04_keeps_msg(s, m.insert(u, s.c), u, o, ms[n].0, ms[n].1);
        vx_r04_keeps(vx_msg(s, m.insert(u, s.c), u, o, ms[n].0, ms[n].1), m, u, o, ms, n + 1);
    }
}

// bytes of a consumer change nothing but this consumer, and neither confirm nor assign it, nor take a discredit back
pub proof fn vx_r04_one(m: VxM, l: Seq<VxEv>, u: Uuid, o: Options, b: Seq<u8>)
    ensures !m.dom().contains(u) ==> vx_received(m, l, u, o, b).m == m,
        m.dom().contains(u) ==> ({ let n = vx_received(m, l, u, o, b).m; n == m.insert(u, n[u]) && n[u].confirmed == m[u].confirmed && n[u].ident.assigned == m[u].ident.assigned && (m[u].ident.discredited ==> n[u].ident.discredited) && (m[u].hash ==> n[u].hash) })
{
    broadcast use vx_laws;
    reveal(vx_received); reveal(vx_failed); reveal(vx_disc);
    if m.dom().contains(u) && m[u].confirmed && !m[u].ident.discredited {
        let all = m[u].pend + b;
        let c1 = VxC { pend: protocol::vx_rest::<Msg>(all), q: m[u].q + protocol::vx_out::<Msg>(all), ..m[u] };
        vx_r04_keeps(VxS { c: VxC { q: Seq::empty(), ..c1 }, l, ok: true }, m, u, o, c1.q, 0);
    }
    let n = vx_received(m, l, u, o, b).m;
    if m.dom().contains(u) { assert(n =~= m.insert(u, n[u])); }
}
type VxT = tokio::sync::mpsc::UnboundedSender<IdentificationChannel>;
pub open spec fn vx_of(x: VxIn) -> Option<Uuid> {
    match x { VxIn::Connected(u) => Some(u), VxIn::Disconnected(u) => Some(u), VxIn::Received(u, _) => Some(u), VxIn::Confirm(u) => Some(u),
        VxIn::Ident(IdentificationChannel::Key(u, _, _)) => Some(u), VxIn::Ident(IdentificationChannel::Assigned(u, _, _)) => Some(u), _ => None }
}
// whatever happens to one consumer leaves the others alone
pub proof fn vx_r04_others(s: VxL, t: VxT, o: Options, x: VxIn, v: Uuid) requires vx_of(x) != Some(v)
    ensures vx_lstep(s, t, o, x).m.dom().contains(v) == s.m.dom().contains(v), s.m.dom().contains(v) ==> vx_lstep(s, t, o, x).m[v] == s.m[v]
{ reveal(vx_lstep); if let VxIn::Received(u, b) = x { vx_r04_one(s.m, s.l.push(VxEv::Got(x)), u, o, b); } }
// a consumer becomes confirmed by its own confirmation only, is discredited until it is gone, and is assigned by the user only
pub proof fn vx_r04_step(s: VxL, t: VxT, o: Options, x: VxIn, v: Uuid) requires vx_lstep(s, t, o, x).m.dom().contains(v)
    ensures s.m.dom().contains(v) || (x == VxIn::Connected(v) && vx_lstep(s, t, o, x).m[v] == vx_new(v, o, t)),
        s.m.dom().contains(v) && vx_lstep(s, t, o, x).m[v].confirmed ==> s.m[v].confirmed || x == VxIn::Confirm(v),
        s.m.dom().contains(v) && s.m[v].confirmed ==> vx_lstep(s, t, o, x).m[v].confirmed,
        s.m.dom().contains(v) && s.m[v].ident.discredited ==> vx_lstep(s, t, o, x).m[v].ident.discredited,
        s.m.dom().contains(v) && !(x is Ident) ==> vx_lstep(s, t, o, x).m[v].ident.assigned == s.m[v].ident.assigned,
{ reveal(vx_lstep); if let VxIn::Received(u, b) = x { vx_r04_one(s.m, s.l.push(VxEv::Got(x)), u, o, b); } }
// so whoever is confirmed has been confirmed after its last connection
pub proof fn vx_r04_confirmed(l: Seq<VxEv>, t: VxT, o: Options, es: Seq<VxIn>, v: Uuid)
    requires vx_life(vx_l0(l), t, o, es).m.dom().contains(v)
    ensures es.contains(VxIn::Connected(v)), vx_life(vx_l0(l), t, o, es).m[v].confirmed ==> exists|i: int, j: int| 0 <= i < j < es.len() && es[i] == VxIn::Connected(v) && es[j] == VxIn::Confirm(v) && (forall|k: int| i <= k < es.len() ==> es[k] != VxIn::Disconnected(v))
    decreases es.len()
{
    reveal(vx_life);
    vx_r04_since(l, t, o, es, v);
    let i = vx_r04_since(l, t, o, es, v);
    assert(es[i] == VxIn::Connected(v));
}
proof fn vx_r04_since(l: Seq<VxEv>, t: VxT, o: Options, es: Seq<VxIn>, v: Uuid) -> (i: int)
    requires vx_life(vx_l0(l), t, o, es).m.dom().contains(v)
    ensures 0 <= i < es.len(), es[i] == VxIn::Connected(v), forall|k: int| i <= k < es.len() ==> es[k] != VxIn::Disconnected(v),
        vx_life(vx_l0(l), t, o, es).m[v].confirmed ==> exists|j: int| i < j < es.len() && es[j] == VxIn::Confirm(v)
    decreases es.len()
{
    reveal(vx_life);
    let p = es.drop_last();
    let s = vx_life(vx_l0(l), t, o, p);
    let x = es.last();
    vx_r04_step(s, t, o, x, v);
    if s.m.dom().contains(v) {
        let i = vx_r04_since(l, t, o, p, v);
        if x == VxIn::Disconnected(v) { reveal(vx_lstep); assert(false); }
        assert forall|k: int| i <= k < es.len() implies es[k] != VxIn::Disconnected(v) by { if k < p.len() { assert(es[k] == p[k]); } }
        if vx_life(vx_l0(l), t, o, es).m[v].confirmed {
            if s.m[v].confirmed { let j = choose|j: int| i < j < p.len() && p[j] == VxIn::Confirm(v); assert(es[j] == VxIn::Confirm(v)); }
            else { assert(es[es.len() - 1] == VxIn::Confirm(v)); }
        }
        i
    } else { es.len() - 1 }
}
// keys and assignments of the user reach the consumer they are meant for, and what they do is the merge
pub proof fn vx_r01_asked(s: VxL, t: VxT, o: Options, u: Uuid, k: protocol::Auth::Me, r: protocol::Auth::Role, over: bool) requires s.m.dom().contains(u)
    ensures vx_lstep(s, t, o, VxIn::Ident(IdentificationChannel::Key(u, k, over))).m == s.m.insert(u, VxC { ident: Identification { key: vx_key(s.m[u].ident.key, k, over), ..s.m[u].ident }, ..s.m[u] }),
        vx_lstep(s, t, o, VxIn::Ident(IdentificationChannel::Assigned(u, r, over))).m == s.m.insert(u, VxC { ident: Identification { assigned: vx_assign(s.m[u].ident.assigned, r, over), ..s.m[u].ident }, ..s.m[u] }),
{ reveal(vx_lstep); }
// an error of one consumer, and what the user's functions answer to events, never ends a producer
pub proof fn vx_r04_goes_on(s: VxL, t: VxT, o: Options, u: Uuid, e: Event) requires s.ok
    ensures vx_lstep(s, t, o, VxIn::Event(e)).ok, vx_lstep(s, t, o, VxIn::Disconnected(u)).ok { reveal(vx_lstep); }

// what the server reports reaches the user once: a new connection, the end of a known one with the identification it had
pub proof fn vx_r06_told(s: VxL, t: VxT, o: Options, u: Uuid)
    ensures ({ let l = s.l.push(VxEv::Got(VxIn::Connected(u))); !s.m.dom().contains(u) ==> vx_lstep(s, t, o, VxIn::Connected(u)).l == vx_connected(l, vx_new(u, o, t).ident, s.m).0 }),
        ({ let l = s.l.push(VxEv::Got(VxIn::Disconnected(u))); vx_lstep(s, t, o, VxIn::Disconnected(u)).l == if s.m.dom().contains(u) { vx_disconnected(l, s.m[u].ident, s.m.remove(u)).0 } else { l } }),
{ reveal(vx_lstep); }
// the server is told to stop before the shutdown event, which is the last thing a producer does
pub proof fn vx_r06_last<E: clibri::server::Error>(l0: Seq<VxEv>, l: Seq<VxEv>, r: Result<(), ProducerError<E>>, o: Options)
    requires vx_run(l0, l, r, o), vx_ctl_ok(l0.push(VxEv::Observe))
    ensures exists|c: Seq<VxEv>| l == vx_user(#[trigger] vx_called(c, VxCall::Shutdown)) && c.len() > 1 && c[c.len() - 2] == VxEv::Down
{
    let a = l0.push(VxEv::Observe);
    let (b, c, ok, k) = choose|b: Seq<VxEv>, c: Seq<VxEv>, ok: bool, k: int| #![trigger vx_lived(b, c, ok, o), vx_cancels(k)]
        vx_lived(b, c, ok, o) && (vx_ran(a, b, c, ok, None, k, l, r) || exists|q: VxQ| #[trigger] vx_seen(q) && vx_ran(a, b, c, ok, q, k, l, r));
    let q: VxQ = if vx_ran(a, b, c, ok, None, k, l, r) { None } else { choose|q: VxQ| #[trigger] vx_seen(q) && vx_ran(a, b, c, ok, q, k, l, r) };
    let d = vx_asked(c.push(vx_cancels(k)), q, k);
    assert(l == vx_user(vx_called(d, VxCall::Shutdown)) && d[d.len() - 2] == VxEv::Down);
}

// ---- probes: these must fail
pub proof fn vx_probe_false() ensures false { broadcast use vx_laws; }
pub proof fn vx_probe_msg(s: VxS, m: VxM, u: Uuid, o: Options, r: protocol::Ping, h: Hdr) requires s.ok, s.c.hash, s.c.ident.key is Some, vx_assigned(s.c.ident) ensures vx_msg(s, m, u, o, Msg::Ping(r), h) == s { broadcast use vx_laws; reveal(vx_msg); reveal(vx_ping); }
pub proof fn vx_probe_life(l: Seq<VxEv>, t: VxT, o: Options, x: VxIn) ensures vx_life(vx_l0(l), t, o, seq![x]).bad || vx_life(vx_l0(l), t, o, seq![x]).stop { broadcast use vx_laws; reveal(vx_lstep); vx_life_push(vx_l0(l), t, o, Seq::empty(), x); assert(seq![x] =~= Seq::<VxIn>::empty().push(x)); }
pub proof fn vx_probe_run<E: clibri::server::Error>(l0: Seq<VxEv>, l: Seq<VxEv>, r: Result<(), ProducerError<E>>, o: Options) requires vx_run(l0, l, r, o) ensures r is Ok { broadcast use vx_laws; }
pub proof fn vx_probe_lived(l: Seq<VxEv>, e: Seq<VxEv>, o: Options) requires vx_lived(l, e, true, o) ensures false { broadcast use vx_laws; reveal(vx_lstep); }
}
