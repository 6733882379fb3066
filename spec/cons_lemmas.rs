// R03, R05: a call of the consumer gets the response to its own request, and everything else reaches the handlers of the user.
pub mod vxl {
use vstd::prelude::*;
use crate::*;
use crate::vx::*;
use crate::vxs::*;
use protocol::AvailableMessages as Msg;
use protocol::PackageHeader as Hdr;
use protocol::InternalServiceGroup::AvailableMessages as Svc;

// who waits for the response with this sequence: the last one who asked with it, unless it has been answered since
pub open spec fn vx_asker(cs: Seq<VxCmd>, q: u32) -> Option<int> decreases cs.len() {
    if cs.len() == 0 { None } else {
        match cs.last() {
            VxCmd::Request(x, b, t) => if x == q { Some(t) } else { vx_asker(cs.drop_last(), q) },
            VxCmd::Accept(x, m, t) => if x == q { None } else { vx_asker(cs.drop_last(), q) },
            _ => vx_asker(cs.drop_last(), q),
        }
    }
}
pub proof fn vx_r03_waiting(l: VxLogS, cs: Seq<VxCmd>, q: u32)
    requires vx_served(vx_start(l), cs).ok
    ensures ({ let p = vx_served(vx_start(l), cs).p; (p.dom().contains(q) <==> vx_asker(cs, q) is Some) && (p.dom().contains(q) ==> vx_asker(cs, q) == Some(p[q])) })
    decreases cs.len()
{
    reveal(vx_serve);
    if cs.len() > 0 { vx_r03_waiting(l, cs.drop_last(), q); }
}
// a message that came in goes to the call which waits for its sequence, and to nobody else, whether or not that call still listens
pub proof fn vx_r03_answer(l: VxLogS, cs: Seq<VxCmd>, q: u32, m: Msg, t: int)
    requires vx_served(vx_start(l), cs).ok
    ensures ({ let s = vx_served(vx_start(l), cs); let r = vx_served(vx_start(l), cs.push(VxCmd::Accept(q, m, t))); let g = s.l.push(VxEv::Got(VxVal::Cmd(VxCmd::Accept(q, m, t))));
        &&& vx_asker(cs, q) is Some ==> r.l == g.push(VxEv::One(vx_asker(cs, q)->0, VxVal::Msg(m))).push(VxEv::One(t, VxVal::B(true)))
        &&& vx_asker(cs, q) is None ==> r.l == g.push(VxEv::One(t, VxVal::B(false)))
        &&& vx_asker(cs.push(VxCmd::Accept(q, m, t)), q) is None
        &&& r.ok == vx_ok(r.l) })
{
    broadcast use vx_laws;
    reveal(vx_serve);
    vx_r03_waiting(l, cs, q);
}
pub open spec fn vx_answers(e: VxEv) -> bool { e is One && e->One_1 is Msg }
// nothing but an incoming message with the sequence of its request ever answers a call
pub proof fn vx_r03_only(s: VxA, c: VxCmd)
    requires !(c is Accept)
    ensures forall|i: int| s.l.len() <= i < vx_serve(s, c).l.len() ==> !vx_answers(#[trigger] vx_serve(s, c).l[i])
{ reveal(vx_serve); }
// an answer that nobody waits for any more does not stop the consumer
pub proof fn vx_r03_late(s: VxA, q: u32, m: Msg, t: int)
    requires s.p.dom().contains(q), vx_ok(s.l.push(VxEv::Got(VxVal::Cmd(VxCmd::Accept(q, m, t)))).push(VxEv::One(s.p[q], VxVal::Msg(m))).push(VxEv::One(t, VxVal::B(true))))
    ensures vx_serve(s, VxCmd::Accept(q, m, t)).ok
{ reveal(vx_serve); }
// neither is a call that gives up before it has its sequence or the identifier
pub proof fn vx_r03_gone(s: VxA, r: VxM, k: protocol::Auth::Me, t: int)
    requires s.ok, r.ok
    ensures vx_serve(s, VxCmd::Sequence(t)).ok, vx_came_in(r, k, VxIn::GetUuid(t)).ok
{ reveal(vx_serve); reveal(vx_came_in); }
// requests with a sequence nobody waits with always go out
pub proof fn vx_r03_request(l: VxLogS, cs: Seq<VxCmd>, q: u32, b: Seq<u8>, t: int)
    requires vx_served(vx_start(l), cs).ok, vx_asker(cs, q) is None
    ensures ({ let r = vx_served(vx_start(l), cs.push(VxCmd::Request(q, b, t)));
        r.l == vx_served(vx_start(l), cs).l.push(VxEv::Got(VxVal::Cmd(VxCmd::Request(q, b, t)))).push(VxEv::Put(VxVal::Bytes(b))) && r.ok == vx_ok(r.l) && vx_asker(cs.push(VxCmd::Request(q, b, t)), q) == Some(t) })
{
    broadcast use vx_laws;
    reveal(vx_serve);
    vx_r03_waiting(l, cs, q);
}

// ---- sequences
pub open spec fn vx_given(cs: Seq<VxCmd>) -> int decreases cs.len() { if cs.len() == 0 { 0 } else { vx_given(cs.drop_last()) + if cs.last() is Sequence { 1int } else { 0 } } }
pub open spec fn vx_round() -> int { u32::MAX - 11 }
pub proof fn vx_r03_number(l: VxLogS, cs: Seq<VxCmd>)
    requires vx_served(vx_start(l), cs).ok
    ensures vx_served(vx_start(l), cs).n as int == 10 + vx_given(cs) % vx_round(), vx_given(cs) >= 0
    decreases cs.len()
{
    if cs.len() > 0 {
        let d = cs.drop_last();
        let k = vx_given(d);
        assert(vx_served(vx_start(l), d).ok);
        vx_r03_number(l, d);
        let n = vx_served(vx_start(l), d).n;
        vx_r03_step(vx_served(vx_start(l), d), cs.last());
        if cs.last() is Sequence { vx_r03_turn(k, n); assert(vx_given(cs) == k + 1); } else { assert(vx_given(cs) == k); }
        assert(vx_served(vx_start(l), cs) == vx_serve(vx_served(vx_start(l), d), cs.last()));
    } else { assert(vx_given(cs) == 0); assert(0int % 4294967284 == 0); assert(vx_served(vx_start(l), cs) == vx_start(l)); }
}
proof fn vx_r03_step(s: VxA, c: VxCmd) ensures vx_serve(s, c).n == if c is Sequence { vx_next(s.n) } else { s.n } { reveal(vx_serve); }
proof fn vx_r03_turn(k: int, n: u32) requires k >= 0, n as int == 10 + k % vx_round() ensures vx_next(n) as int == 10 + (k + 1) % vx_round()
{
    let m: int = k % 4294967284;
    assert((k + 1) % 4294967284 == if m == 4294967283 { 0 } else { m + 1 }) by (nonlinear_arith) requires k >= 0, m == k % 4294967284;
}
// a sequence is neither that of a broadcast (0) nor one of the handshake (1, 2), and differs from those of all the 4294967283 requests before
pub proof fn vx_r03_distinct(l: VxLogS, a: Seq<VxCmd>, b: Seq<VxCmd>)
    requires vx_served(vx_start(l), a).ok, vx_served(vx_start(l), b).ok, vx_given(a) < vx_given(b) < vx_given(a) + vx_round()
    ensures vx_served(vx_start(l), a).n != vx_served(vx_start(l), b).n, vx_served(vx_start(l), a).n >= 10
{
    vx_r03_number(l, a);
    vx_r03_number(l, b);
    let x = vx_given(a); let y = vx_given(b);
    assert(x % vx_round() != y % vx_round()) by (nonlinear_arith) requires 0 <= x < y < x + vx_round(), vx_round() == u32::MAX - 11;
}

// ---- incoming messages
pub open spec fn vx_confirms(m: Msg) -> bool { m is InternalServiceGroup && m->InternalServiceGroup_0 is ConnectConfirmationBeacon }
pub open spec fn vx_kindly(m: Msg) -> VxEmit {
    match m {
        Msg::News(x) => VxEmit::News(x), Msg::Alarm(x) => VxEmit::Alarm(x),
        Msg::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Note(x))) => VxEmit::ChatDeepNote(x),
        _ => VxEmit::Error(VxKind::UnknownMessage),
    }
}
// a message is offered with its own sequence; it goes to the user's handler for its type exactly if no call waited for it
pub proof fn vx_r03_message(s: VxM, k: protocol::Auth::Me, m: Msg, h: Hdr)
    requires s.ok, !vx_confirms(m)
    ensures ({ let r = vx_packet(s, k, m, h); let a = vx_asked::<bool>(s.l, VxCmd::Accept(h.sequence, m, s.l.len() as int));
        &&& a.1 == Some(true) ==> r.l == a.0 && r.ok
        &&& a.1 == Some(false) ==> r.l == a.0.push(VxEv::Put(VxVal::Emit(vx_kindly(m))))
        &&& a.1 is None ==> r.l == vx_error(a.0, VxKind::Pending).push(VxEv::Put(VxVal::Emit(vx_kindly(m))))
        &&& r.u == s.u && r.pend == s.pend && r.q == s.q })
{ reveal(vx_packet); }
// one message after the other, in order, none left out
pub proof fn vx_r03_packets(s: VxM, k: protocol::Auth::Me)
    requires s.ok, s.q.len() > 0
    ensures vx_packets(s, k) == vx_packets(VxM { q: s.q.skip(1), ..vx_packet(s, k, s.q[0].0, s.q[0].1) }, k)
{ reveal(vx_packets); }
// what reaches the handlers of the user is what was emitted, in that order, each once
pub proof fn vx_r05_told(l: VxLogS, es: Seq<VxEmit>, e: VxEmit)
    ensures vx_told(l, es.push(e)) == vx_user(vx_told(l, es).push(VxEv::Got(VxVal::Emit(e))).push(VxEv::Call(e)))
{ broadcast use vx_laws; }
// "connected" is told only for an identifier the producer gave, and requests carry that identifier from then on
pub proof fn vx_r05_connected(s: VxM, k: protocol::Auth::Me, t: String)
    requires s.ok, vx_uuid(t@) is Some
    ensures ({ let r = vx_came_in(s, k, VxIn::SetUuid(Ok(t))); r.u == vx_uuid(t@) && r.l == s.l.push(VxEv::Got(VxVal::In(VxIn::SetUuid(Ok(t))))).push(VxEv::Put(VxVal::Emit(VxEmit::Connected))) })
{ reveal(vx_came_in); }
// the key goes out with sequence 1 and the hashes with 2; the handshake succeeds only if the producer accepted both
pub proof fn vx_r05_shake(l: VxLogS, k: protocol::Auth::Me)
    requires vx_shake(l, k).1 is Ok
    ensures ({ let a = vx_asked::<Msg>(l, VxCmd::Request(1, protocol::vx_pack(k, 1, None)->0, l.len() as int)); protocol::vx_pack(k, 1, None) is Some && match a.1 {
        Some(Msg::InternalServiceGroup(Svc::SelfKeyResponse(x))) => vx_shake(l, k).1 == Ok::<String, VxKind>(x.uuid) && {
            let h = protocol::vx_pack(protocol::InternalServiceGroup::HashRequest { protocol: vx_string(consumer::hash::PROTOCOL@), workflow: vx_string(consumer::hash::WORKFLOW@) }, 2, None);
            h is Some && match vx_asked::<Msg>(a.0, VxCmd::Request(2, h->0, a.0.len() as int)).1 { Some(Msg::InternalServiceGroup(Svc::HashResponse(y))) => y.error is None, _ => false } },
        _ => false } })
{ reveal(vx_shake); }

// ---- probes: these must fail
pub proof fn vx_probe_false() ensures false { broadcast use vx_laws; }
pub proof fn vx_probe_ends(l: VxLogS) ensures false { broadcast use vx_ends; broadcast use vx_runs; broadcast use vx_laws; let u = vx_user(l); assert(vx_quiet(l, u)); }
pub proof fn vx_probe_run(a: VxLogS, b: VxLogS, r: Option<bool>)
    requires vx_watched(a), vx_pick(b, 1) == vx_pick(a, 1).push(VxEv::Watch).push(VxEv::Left(false)), vx_once(a, b, 3), vx_once(a, b, 4), vx_pick(b, 2) == vx_said(vx_pick(a, 2), vx_why(b)), r is None <==> vx_why(b) is Some, vx_ended(a, b, r), !vx_idle(a, b, 6),
        vx_token(b) == vx_pick(b, 4).last()->Done_2, vx_left(b, vx_token(b)) ==> vx_left(a, vx_token(b)), vx_idle(a, b, 7), vx_owed(b) ==> vx_owed(a)
    ensures false
{ broadcast use vx_ends; broadcast use vx_runs; }
pub proof fn vx_probe_any(l: VxLogS, cs: Seq<VxCmd>, q: u32, m: Msg, t: int) requires vx_served(vx_start(l), cs).ok ensures vx_served(vx_start(l), cs.push(VxCmd::Accept(q, m, t))).p == vx_served(vx_start(l), cs).p { broadcast use vx_laws; reveal(vx_serve); }
}
