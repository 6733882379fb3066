// What a generated consumer of the reference workflow has to do (schemas/flow.workflow).
pub mod vxs {
use vstd::prelude::*;
use crate::*;
use crate::vx::*;
use crate::tokio::sync::{oneshot, mpsc};
use crate::consumer::{Auth, Emitter, MergedClientChannel, hash, api::{Api, Channel}, controller::Consumer, error::ConsumerError};
use protocol::AvailableMessages as Msg;
use protocol::PackageHeader as Hdr;
use protocol::InternalServiceGroup::AvailableMessages as Svc;

// ---- what goes through the channels; errors without their texts
pub enum VxKind { Buffer, UnknownMessage, UnexpectedResponse, Protocol, Broadcast, UnknownBroadcast, Handshake, HashCheck, Pending, Api, ClientChannel, GettingResponse, Uuid, Sequence, Client, NoClient, Timeout }
pub open spec fn vx_kind<E: clibri::client::Error>(e: ConsumerError<E>) -> VxKind {
    match e {
        ConsumerError::BufferError(_) => VxKind::Buffer, ConsumerError::UnknownMessage(_) => VxKind::UnknownMessage, ConsumerError::UnexpectedResponse(_) => VxKind::UnexpectedResponse,
        ConsumerError::Protocol(_) => VxKind::Protocol, ConsumerError::Broadcast(_) => VxKind::Broadcast, ConsumerError::UnknownBroadcast(_) => VxKind::UnknownBroadcast,
        ConsumerError::Handshake(_) => VxKind::Handshake, ConsumerError::HashCheck(_) => VxKind::HashCheck, ConsumerError::Pending(_) => VxKind::Pending, ConsumerError::APIChannel(_) => VxKind::Api,
        ConsumerError::ClientChannel(_) => VxKind::ClientChannel, ConsumerError::GettingResponse => VxKind::GettingResponse, ConsumerError::Uuid => VxKind::Uuid, ConsumerError::Sequence(_) => VxKind::Sequence,
        ConsumerError::Client(_) => VxKind::Client, ConsumerError::NoClient => VxKind::NoClient, ConsumerError::Timeout => VxKind::Timeout,
    }
}
pub enum VxCmd { Send(Seq<u8>), Request(u32, Seq<u8>, int), Accept(u32, Msg, int), Uuid(int), Sequence(int), Shutdown(int) }
pub enum VxEmit { Connected, Disconnected, Shutdown(Option<VxKind>), Error(VxKind), News(protocol::News), Alarm(protocol::Alarm), ChatDeepNote(protocol::Chat::Deep::Note) }
pub enum VxIn { Raw(Seq<u8>), Strange, Connected, Disconnected, Error, SetUuid(Result<String, VxKind>), GetUuid(int) }
pub enum VxVal { Cmd(VxCmd), Emit(VxEmit), In(VxIn), Bytes(Seq<u8>), NoBytes, Uuid(Option<Uuid>), N(u32), Msg(Msg), B(bool), Unit, Tx(int), Ask(int), Me }
pub enum VxEv { Chan, Put(VxVal), Got(VxVal), One(int, VxVal), Wait(int), Call(VxEmit), Reconnect(u64),
    // the ends of: a connection, its events, the client, a task (0: messages, 1: commands), a run of listen; a pause, and whether the user wants another run
    Left(bool), Watch, Down, Done(int, Option<VxKind>, int), Cancel(int), Run(Option<bool>), Sleep(u64), Again(bool) }
pub open spec fn vx_cmd(c: Channel) -> VxCmd {
    match c {
        Channel::Send(b) => VxCmd::Send(vx_body(b@)), Channel::Request(t) => VxCmd::Request(t.0, vx_body(t.1@), t.2.id()), Channel::AcceptIncome(t) => VxCmd::Accept(t.0, t.1, t.2.id()),
        Channel::Uuid(t) => VxCmd::Uuid(t.id()), Channel::Sequence(t) => VxCmd::Sequence(t.id()), Channel::Shutdown(t) => VxCmd::Shutdown(t.id()),
    }
}
pub open spec fn vx_emit<E: clibri::client::Error>(e: Emitter<E>) -> VxEmit {
    match e {
        Emitter::Connected => VxEmit::Connected, Emitter::Disconnected => VxEmit::Disconnected, Emitter::Shutdown(e) => VxEmit::Shutdown(match e { Some(e) => Some(vx_kind(e)), None => None }),
        Emitter::Error(e) => VxEmit::Error(vx_kind(e)), Emitter::News(m) => VxEmit::News(m), Emitter::Alarm(m) => VxEmit::Alarm(m), Emitter::ChatDeepNote(m) => VxEmit::ChatDeepNote(m),
    }
}
pub open spec fn vx_auth<E: clibri::client::Error>(a: Auth<E>) -> VxIn {
    match a { Auth::SetUuid(r) => VxIn::SetUuid(match r { Ok(u) => Ok(u), Err(e) => Err(vx_kind(e)) }), Auth::GetUuid(t) => VxIn::GetUuid(t.id()) }
}
pub open spec fn vx_event<E: clibri::client::Error>(e: clibri::client::Event<E>) -> VxIn {
    match e {
        clibri::client::Event::Connected(_) => VxIn::Connected, clibri::client::Event::Disconnected => VxIn::Disconnected, clibri::client::Event::Error(_) => VxIn::Error,
        clibri::client::Event::Message(m) => match m { clibri::client::Message::Binary(b) => VxIn::Raw(b@), _ => VxIn::Strange },
    }
}
pub open spec fn vx_in<E: clibri::client::Error>(m: MergedClientChannel<E>) -> VxIn { match m { MergedClientChannel::Client(e) => vx_event(e), MergedClientChannel::Auth(a) => vx_auth(a) } }
impl VxLog for Channel { open spec fn vx_val(&self) -> VxVal { VxVal::Cmd(vx_cmd(*self)) } }
impl<E: clibri::client::Error> VxLog for Emitter<E> { open spec fn vx_val(&self) -> VxVal { VxVal::Emit(vx_emit(*self)) } }
impl<E: clibri::client::Error> VxLog for Auth<E> { open spec fn vx_val(&self) -> VxVal { VxVal::In(vx_auth(*self)) } }
impl<E: clibri::client::Error> VxLog for clibri::client::Event<E> { open spec fn vx_val(&self) -> VxVal { VxVal::In(vx_event(*self)) } }
impl VxLog for Option<Uuid> { open spec fn vx_val(&self) -> VxVal { VxVal::Uuid(*self) } }
impl VxLog for u32 { open spec fn vx_val(&self) -> VxVal { VxVal::N(*self) } }
impl VxLog for bool { open spec fn vx_val(&self) -> VxVal { VxVal::B(*self) } }
impl VxLog for () { open spec fn vx_val(&self) -> VxVal { VxVal::Unit } }
impl VxLog for Msg { open spec fn vx_val(&self) -> VxVal { VxVal::Msg(*self) } }
impl<E: clibri::client::Error> VxLog for oneshot::Sender<Consumer<E>> { open spec fn vx_val(&self) -> VxVal { VxVal::Ask(self.id()) } }
impl<E: clibri::client::Error> VxLog for Consumer<E> { open spec fn vx_val(&self) -> VxVal { VxVal::Me } }
impl VxLog for oneshot::Sender<()> { open spec fn vx_val(&self) -> VxVal { VxVal::Tx(self.id()) } }
pub uninterp spec fn vx_string(s: Seq<char>) -> String;
pub broadcast axiom fn vx_string_view(s: String) ensures #[trigger] vx_string(s@) == s;
pub type VxLogS = Seq<VxEv>;

// ---- the task that owns the connection
// l: what happened; p: who waits for the response with a sequence; n: the last sequence given away
pub struct VxA { pub l: VxLogS, pub p: Map<u32, int>, pub n: u32, pub ok: bool }
pub open spec fn vx_next(n: u32) -> u32 { if n + 1 >= u32::MAX - 1 { 10 } else { (n + 1) as u32 } }
pub open spec fn vx_fit(s: VxA, l: VxLogS) -> VxA { VxA { l, ok: vx_ok(l), ..s } }
#[verifier::opaque]
pub open spec fn vx_serve(s: VxA, c: VxCmd) -> VxA {
    let l = s.l.push(VxEv::Got(VxVal::Cmd(c)));
    match c {
        VxCmd::Send(b) => vx_fit(s, l.push(VxEv::Put(VxVal::Bytes(b)))),
        VxCmd::Request(q, b, t) =>
            if s.p.dom().contains(q) { VxA { l, ok: false, ..s } }
            else { vx_fit(VxA { p: s.p.insert(q, t), ..s }, l.push(VxEv::Put(VxVal::Bytes(b)))) },
        // an incoming message answers the request with its sequence, if there is one
        VxCmd::Accept(q, m, t) =>
            if s.p.dom().contains(q) { vx_fit(VxA { p: s.p.remove(q), ..s }, l.push(VxEv::One(s.p[q], VxVal::Msg(m))).push(VxEv::One(t, VxVal::B(true)))) }
            else { vx_fit(s, l.push(VxEv::One(t, VxVal::B(false)))) },
        VxCmd::Uuid(t) => vx_fit(s, l.push(VxEv::Put(VxVal::In(VxIn::GetUuid(t))))),
        VxCmd::Sequence(t) => VxA { n: vx_next(s.n), l: l.push(VxEv::One(t, VxVal::N(vx_next(s.n)))), ok: true, ..s },
        VxCmd::Shutdown(t) => vx_fit(s, l.push(VxEv::Put(VxVal::Tx(t)))),
    }
}
pub open spec fn vx_served(s: VxA, cs: Seq<VxCmd>) -> VxA decreases cs.len() { if cs.len() == 0 { s } else { let r = vx_served(s, cs.drop_last()); if r.ok { vx_serve(r, cs.last()) } else { r } } }
pub open spec fn vx_start(l: VxLogS) -> VxA { VxA { l, p: Map::empty(), n: 10, ok: true } }
pub open spec fn vx_ids<T>(m: Map<u32, oneshot::Sender<T>>) -> Map<u32, int> { m.map_values(|s: oneshot::Sender<T>| s.id()) }
pub broadcast proof fn vx_ids_insert<T>(m: Map<u32, oneshot::Sender<T>>, k: u32, c: oneshot::Sender<T>) ensures #[trigger] vx_ids(m.insert(k, c)) == vx_ids(m).insert(k, c.id()) { assert(vx_ids(m.insert(k, c)) =~= vx_ids(m).insert(k, c.id())); }
pub broadcast proof fn vx_ids_remove<T>(m: Map<u32, oneshot::Sender<T>>, k: u32) ensures #[trigger] vx_ids(m.remove(k)) == vx_ids(m).remove(k) { assert(vx_ids(m.remove(k)) =~= vx_ids(m).remove(k)); }
pub broadcast proof fn vx_ids_absent<T>(m: Map<u32, oneshot::Sender<T>>, k: u32) requires !m.dom().contains(k) ensures #[trigger] vx_ids(m).remove(k) == vx_ids(m) { assert(vx_ids(m).remove(k) =~= vx_ids(m)); }
pub broadcast proof fn vx_ids_dom<T>(m: Map<u32, oneshot::Sender<T>>, k: u32) ensures #[trigger] vx_ids(m).dom().contains(k) <==> m.dom().contains(k) { }
pub broadcast proof fn vx_ids_at<T>(m: Map<u32, oneshot::Sender<T>>, k: u32) requires m.dom().contains(k) ensures #[trigger] vx_ids(m)[k] == m[k].id() { }
pub broadcast proof fn vx_ids_empty<T>(m: Map<u32, oneshot::Sender<T>>) requires m == Map::<u32, oneshot::Sender<T>>::empty() ensures #[trigger] vx_ids(m) == Map::<u32, int>::empty() { assert(vx_ids(m) =~= Map::<u32, int>::empty()); }

// ---- asking that task
pub open spec fn vx_ask(l: VxLogS, c: VxCmd) -> (VxLogS, bool) {
    let l1 = l.push(VxEv::Chan).push(VxEv::Put(VxVal::Cmd(c)));
    if vx_ok(l1) { (l1.push(VxEv::Wait(l.len() as int)), true) } else { (l1, false) }
}
pub open spec fn vx_asked<T>(l: VxLogS, c: VxCmd) -> (VxLogS, Option<T>) { let a = vx_ask(l, c); (a.0, if a.1 { vx_came::<T>(a.0) } else { None }) }
pub open spec fn vx_ut(u: Option<Uuid>) -> Option<Seq<char>> { match u { Some(u) => Some(vx_utext(u)), None => None } }
// a request takes a new sequence, is packed with it, and waits for the response with it
pub open spec fn vx_ready<T>(l: VxLogS, r: T) -> (VxLogS, Option<(u32, Seq<u8>)>) {
    let a = vx_asked::<u32>(l, VxCmd::Sequence(l.len() as int));
    if a.1 is None { (a.0, None) } else {
        let b = vx_asked::<Option<Uuid>>(a.0, VxCmd::Uuid(a.0.len() as int));
        if b.1 is None { (b.0, None) } else { let p = protocol::vx_pack(r, a.1->0, vx_ut(b.1->0)); (b.0, if p is None { None } else { Some((a.1->0, p->0)) }) }
    }
}
#[verifier::opaque]
pub open spec fn vx_request<T>(l: VxLogS, r: T) -> (VxLogS, Option<Msg>) {
    let a = vx_ready(l, r);
    if a.1 is None { (a.0, None) } else { vx_asked::<Msg>(a.0, VxCmd::Request((a.1->0).0, (a.1->0).1, a.0.len() as int)) }
}
// a request that timed out before it was given to the other task
#[verifier::opaque]
pub open spec fn vx_unsent<T>(l: VxLogS, r: T) -> (VxLogS, bool) { let a = vx_ready(l, r); (a.0, a.1 is Some) }

// ---- the handshake
#[verifier::opaque]
pub open spec fn vx_shake(l: VxLogS, k: protocol::Auth::Me) -> (VxLogS, Result<String, VxKind>) {
    let b = protocol::vx_pack(k, 1, None);
    if b is None { (l, Err(VxKind::Protocol)) } else {
        let r = vx_asked::<Msg>(l, VxCmd::Request(1, b->0, l.len() as int));
        if r.1 is None { (r.0, Err(VxKind::Handshake)) } else {
            match r.1->0 {
                Msg::InternalServiceGroup(Svc::SelfKeyResponse(x)) => {
                    let h = protocol::vx_pack(protocol::InternalServiceGroup::HashRequest { protocol: vx_string(hash::PROTOCOL@), workflow: vx_string(hash::WORKFLOW@) }, 2, None);
                    if h is None { (r.0, Err(VxKind::Protocol)) } else {
                        let q = vx_asked::<Msg>(r.0, VxCmd::Request(2, h->0, r.0.len() as int));
                        if q.1 is None { (q.0, Err(VxKind::Handshake)) } else {
                            match q.1->0 { Msg::InternalServiceGroup(Svc::HashResponse(y)) => (q.0, if y.error is Some { Err(VxKind::HashCheck) } else { Ok(x.uuid) }), _ => (q.0, Err(VxKind::HashCheck)) }
                        }
                    }
                }
                _ => (r.0, Err(VxKind::Handshake)),
            }
        }
    }
}

// ---- the task that reads what the producer sends
// pend, q: the reader of the stream; u: the identifier the producer gave
pub struct VxM { pub l: VxLogS, pub pend: Seq<u8>, pub q: Seq<(Msg, Hdr)>, pub u: Option<Uuid>, pub ok: bool }
pub open spec fn vx_error(l: VxLogS, k: VxKind) -> VxLogS { l.push(VxEv::Put(VxVal::Emit(VxEmit::Error(k)))) }
pub open spec fn vx_out1(s: VxM, e: VxEmit) -> VxM { let l = s.l.push(VxEv::Put(VxVal::Emit(e))); VxM { l, ok: vx_ok(l), ..s } }
pub open spec fn vx_handed(s: VxM, m: Msg) -> VxM {
    match m {
        Msg::News(x) => vx_out1(s, VxEmit::News(x)),
        Msg::Alarm(x) => vx_out1(s, VxEmit::Alarm(x)),
        Msg::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Note(x))) => vx_out1(s, VxEmit::ChatDeepNote(x)),
        _ => VxM { l: vx_error(s.l, VxKind::UnknownMessage), ..s },
    }
}
// a packet: the confirmation of the connection starts the handshake; what answers a request is given to it; the rest are broadcasts
#[verifier::opaque]
pub open spec fn vx_packet(s: VxM, k: protocol::Auth::Me, m: Msg, h: Hdr) -> VxM {
    if m is InternalServiceGroup && m->InternalServiceGroup_0 is ConnectConfirmationBeacon { VxM { l: vx_shook(s.l, k), ..s } }
    else {
        let a = vx_asked::<bool>(s.l, VxCmd::Accept(h.sequence, m, s.l.len() as int));
        if a.1 == Some(true) { VxM { l: a.0, ..s } }
        else if a.1 == Some(false) { vx_handed(VxM { l: a.0, ..s }, m) }
        else { vx_handed(VxM { l: vx_error(a.0, VxKind::Pending), ..s }, m) }
    }
}
// the handshake runs and its outcome is reported
pub open spec fn vx_shook(l: VxLogS, k: protocol::Auth::Me) -> VxLogS {
    let a = vx_shake(l, k);
    a.0.push(VxEv::Put(VxVal::In(VxIn::SetUuid(a.1))))
}
#[verifier::opaque]
pub open spec fn vx_packets(s: VxM, k: protocol::Auth::Me) -> VxM decreases s.q.len() {
    if !s.ok || s.q.len() == 0 { s } else {
        vx_packets(VxM { q: s.q.skip(1), ..vx_packet(s, k, s.q[0].0, s.q[0].1) }, k)
    }
}
#[verifier::opaque]
pub open spec fn vx_came_in(s0: VxM, k: protocol::Auth::Me, e: VxIn) -> VxM {
    let s = VxM { l: s0.l.push(VxEv::Got(VxVal::In(e))), ..s0 };
    match e {
        VxIn::Raw(b) => {
            let all = s.pend + b;
            let s1 = VxM { pend: protocol::vx_rest::<Msg>(all), q: s.q + protocol::vx_out::<Msg>(all), ..s };
            if protocol::vx_bad::<Msg>(all) { VxM { l: vx_error(s1.l, VxKind::Buffer), ..s1 } } else { vx_packets(s1, k) }
        }
        VxIn::Strange => VxM { l: vx_error(s.l, VxKind::UnknownMessage), ..s },
        VxIn::Connected => s,
        VxIn::Disconnected => VxM { u: None, ..s },
        VxIn::Error => VxM { l: vx_error(s.l, VxKind::Client), ..s },
        VxIn::SetUuid(Ok(t)) => match vx_uuid(t@) { None => VxM { ok: false, ..s }, Some(u) => vx_out1(VxM { u: Some(u), ..s }, VxEmit::Connected) },
        VxIn::SetUuid(Err(e)) => VxM { l: vx_error(s.l, e), ok: false, ..s },
        VxIn::GetUuid(t) => { VxM { l: s.l.push(VxEv::One(t, VxVal::Uuid(s.u))), ok: true, ..s } }
    }
}
pub open spec fn vx_read(s: VxM, k: protocol::Auth::Me, es: Seq<VxIn>) -> VxM decreases es.len() { if es.len() == 0 { s } else { let r = vx_read(s, k, es.drop_last()); if r.ok { vx_came_in(r, k, es.last()) } else { r } } }
pub open spec fn vx_reader(l: VxLogS) -> VxM { VxM { l, pend: Seq::empty(), q: Seq::empty(), u: None, ok: true } }

// ---- the task that calls the functions of the user
pub open spec fn vx_told(l: VxLogS, es: Seq<VxEmit>) -> VxLogS decreases es.len() {
    if es.len() == 0 { l } else { vx_user(vx_told(l, es.drop_last()).push(VxEv::Got(VxVal::Emit(es.last()))).push(VxEv::Call(es.last()))) }
}
pub broadcast proof fn vx_last_cmd(cs: Seq<VxCmd>, c: VxCmd) ensures (#[trigger] cs.push(c)).drop_last() == cs, cs.push(c).last() == c { assert(cs.push(c).drop_last() =~= cs); }
pub broadcast proof fn vx_last_in(cs: Seq<VxIn>, c: VxIn) ensures (#[trigger] cs.push(c)).drop_last() == cs, cs.push(c).last() == c { assert(cs.push(c).drop_last() =~= cs); }
pub broadcast proof fn vx_last_emit(cs: Seq<VxEmit>, c: VxEmit) ensures (#[trigger] cs.push(c)).drop_last() == cs, cs.push(c).last() == c { assert(cs.push(c).drop_last() =~= cs); }
pub broadcast group vx_laws { vx_string_view, vx_disp_str, vx_disp_uuid, vx_ids_insert, vx_ids_remove, vx_ids_dom, vx_ids_absent, vx_ids_at, vx_ids_empty, vx_last_cmd, vx_last_in, vx_last_emit }

// ---- the ends of the tasks: who called them writes down what came out
pub proof fn vx_note(tracked w: &mut VxWorld, e: VxEv) ensures final(w).log == old(w).log.push(e) { w.log = w.log.push(e); }
pub open spec fn vx_out<T, E: clibri::client::Error>(r: Result<T, ConsumerError<E>>) -> Option<VxKind> { match r { Ok(_) => None, Err(e) => Some(vx_kind(e)) } }

pub open spec fn vx_ran<A, B, C, E: clibri::client::Error>(r: Result<(A, B, C, bool), ConsumerError<E>>) -> Option<bool> { match r { Ok(x) => Some(x.3), Err(_) => None } }
// ---- one run of a consumer, from the connection to its end
// 1: the connection, 2: what the user is told of its end, 3, 4: what came out of the tasks, 5: the client is shut down, 6: the request for it, 7: runs
pub open spec fn vx_cls(e: VxEv) -> int {
    match e {
        VxEv::Left(_) | VxEv::Watch => 1,
        VxEv::Put(VxVal::Emit(VxEmit::Disconnected)) | VxEv::Put(VxVal::Emit(VxEmit::Shutdown(_))) => 2,
        VxEv::Done(t, _, _) => if t == 0 { 3 } else { 4 },
        VxEv::Down => 5,
        VxEv::Got(VxVal::Tx(_)) => 6,
        VxEv::Run(_) | VxEv::Reconnect(_) | VxEv::Again(_) | VxEv::Sleep(_) => 7,
        _ => 0,
    }
}
#[verifier::opaque]
pub open spec fn vx_pick(l: VxLogS, k: int) -> VxLogS decreases l.len() { if l.len() == 0 { l } else { let r = vx_pick(l.drop_last(), k); if vx_cls(l.last()) == k { r.push(l.last()) } else { r } } }
// a connection failed and the user has not been told so yet
#[verifier::opaque]
pub open spec fn vx_owed(l: VxLogS) -> bool decreases l.len() { if l.len() == 0 { false } else { l.last() == VxEv::Left(false) || (l.last() != VxEv::Put(VxVal::Emit(VxEmit::Error(VxKind::Client))) && vx_owed(l.drop_last())) } }
// a task ended, or the end was asked for, and the token t, on which every other task waits, has not been cancelled since
#[verifier::opaque]
pub open spec fn vx_open(l: VxLogS, t: int) -> bool decreases l.len() { if l.len() == 0 { false } else { vx_opens(l.last()) || (l.last() != VxEv::Cancel(t) && vx_open(l.drop_last(), t)) } }
// or another one ended before it was: nobody told it
#[verifier::opaque]
pub open spec fn vx_unheard(l: VxLogS, t: int) -> bool decreases l.len() { if l.len() == 0 { false } else { vx_unheard(l.drop_last(), t) || (vx_opens(l.last()) && vx_open(l.drop_last(), t)) } }
pub broadcast proof fn vx_unheard_push(l: VxLogS, e: VxEv, t: int) ensures #[trigger] vx_unheard(l.push(e), t) == (vx_unheard(l, t) || (vx_opens(e) && vx_open(l, t))) { reveal(vx_unheard); assert(l.push(e).drop_last() =~= l); }
pub open spec fn vx_left(l: VxLogS, t: int) -> bool { vx_open(l, t) || vx_unheard(l, t) }
pub open spec fn vx_opens(e: VxEv) -> bool { e is Done || e is Left || (e is Got && e->Got_0 is Tx) }
pub broadcast proof fn vx_open_push(l: VxLogS, e: VxEv, t: int) ensures #[trigger] vx_open(l.push(e), t) == (vx_opens(e) || (e != VxEv::Cancel(t) && vx_open(l, t))) { reveal(vx_open); assert(l.push(e).drop_last() =~= l); }
pub broadcast proof fn vx_pick_push(l: VxLogS, e: VxEv, k: int) ensures #[trigger] vx_pick(l.push(e), k) == (if vx_cls(e) == k { vx_pick(l, k).push(e) } else { vx_pick(l, k) }) { reveal(vx_pick); assert(l.push(e).drop_last() =~= l); }
pub broadcast proof fn vx_owed_push(l: VxLogS, e: VxEv) ensures #[trigger] vx_owed(l.push(e)) == (e == VxEv::Left(false) || (e != VxEv::Put(VxVal::Emit(VxEmit::Error(VxKind::Client))) && vx_owed(l))) { reveal(vx_owed); assert(l.push(e).drop_last() =~= l); }
// nothing of the above happens in between
pub open spec fn vx_quiet(a: VxLogS, b: VxLogS) -> bool { vx_pick(b, 1) == vx_pick(a, 1) && vx_pick(b, 2) == vx_pick(a, 2) && vx_pick(b, 3) == vx_pick(a, 3) && vx_pick(b, 4) == vx_pick(a, 4) && vx_pick(b, 5) == vx_pick(a, 5) && vx_pick(b, 6) == vx_pick(a, 6) && vx_pick(b, 7) == vx_pick(a, 7) && (vx_owed(b) ==> vx_owed(a)) && (forall|t: int| #[trigger] vx_open(b, t) ==> vx_open(a, t)) && (forall|t: int| #[trigger] vx_unheard(b, t) ==> vx_unheard(a, t)) }
// the functions of the user have no access to the channels and the connection of the run
pub broadcast axiom fn vx_user_quiet(l: VxLogS) ensures vx_quiet(l, #[trigger] vx_user(l));
pub broadcast group vx_ends { vx_pick_push, vx_owed_push, vx_open_push, vx_unheard_push, vx_user_quiet }
pub proof fn vx_quiet_served(l: VxLogS, cs: Seq<VxCmd>) ensures vx_quiet(l, vx_served(vx_start(l), cs).l) decreases cs.len()
{ broadcast use vx_ends; reveal(vx_serve); if cs.len() > 0 { vx_quiet_served(l, cs.drop_last()); } }
pub proof fn vx_quiet_told(l: VxLogS, es: Seq<VxEmit>) ensures vx_quiet(l, vx_told(l, es)) decreases es.len()
{ broadcast use vx_ends; if es.len() > 0 { vx_quiet_told(l, es.drop_last()); } }
pub proof fn vx_quiet_shake(l: VxLogS, k: protocol::Auth::Me) ensures vx_quiet(l, vx_shake(l, k).0)
{ broadcast use vx_ends; reveal(vx_shake); }
pub proof fn vx_quiet_packet(s: VxM, k: protocol::Auth::Me, m: Msg, h: Hdr) ensures vx_quiet(s.l, vx_packet(s, k, m, h).l)
{ broadcast use vx_ends; reveal(vx_packet); vx_quiet_shake(s.l, k); }
pub proof fn vx_quiet_packets(s: VxM, k: protocol::Auth::Me) ensures vx_quiet(s.l, vx_packets(s, k).l) decreases s.q.len()
{
    broadcast use vx_ends; reveal(vx_packets);
    if s.ok && s.q.len() > 0 { vx_quiet_packet(s, k, s.q[0].0, s.q[0].1); vx_quiet_packets(VxM { q: s.q.skip(1), ..vx_packet(s, k, s.q[0].0, s.q[0].1) }, k); }
}
pub proof fn vx_quiet_read(s: VxM, k: protocol::Auth::Me, es: Seq<VxIn>) ensures vx_quiet(s.l, vx_read(s, k, es).l) decreases es.len()
{
    broadcast use vx_ends; reveal(vx_came_in);
    if es.len() > 0 {
        let r = vx_read(s, k, es.drop_last());
        vx_quiet_read(s, k, es.drop_last());
        if r.ok {
            match es.last() {
                VxIn::Raw(b) => {
                    let x = VxM { l: r.l.push(VxEv::Got(VxVal::In(es.last()))), ..r };
                    let all = x.pend + b;
                    let s1 = VxM { pend: protocol::vx_rest::<Msg>(all), q: x.q + protocol::vx_out::<Msg>(all), ..x };
                    vx_quiet_packets(s1, k);
                }
                _ => {}
            }
        }
    }
}

// why a run ended: the connection, then the messages, then the commands
pub open spec fn vx_reason(c: VxEv, m: VxEv, p: VxEv) -> Option<VxKind> { if c == VxEv::Left(false) { Some(VxKind::Client) } else if m->Done_1 is Some { m->Done_1 } else { p->Done_1 } }
// the tasks of a run wait on one token
pub open spec fn vx_token(b: VxLogS) -> int { vx_pick(b, 3).last()->Done_2 }
pub open spec fn vx_watched(a: VxLogS) -> bool { vx_ok(a.push(VxEv::Watch)) }
pub open spec fn vx_idle(a: VxLogS, b: VxLogS, k: int) -> bool { vx_pick(b, k) == vx_pick(a, k) }
pub open spec fn vx_once(a: VxLogS, b: VxLogS, k: int) -> bool { vx_pick(b, k) == vx_pick(a, k).push(vx_pick(b, k).last()) }
// the user hears of the end of the connection once, and once why
pub open spec fn vx_why(b: VxLogS) -> Option<VxKind> { vx_reason(vx_pick(b, 1).last(), vx_pick(b, 3).last(), vx_pick(b, 4).last()) }
pub open spec fn vx_said(b: VxLogS, x: Option<VxKind>) -> VxLogS { b.push(VxEv::Put(VxVal::Emit(VxEmit::Disconnected))).push(VxEv::Put(VxVal::Emit(VxEmit::Shutdown(x)))) }
// who asked for the end of the consumer is answered, and the client has been shut down
pub open spec fn vx_ended(a: VxLogS, b: VxLogS, r: Option<bool>) -> bool {
    if vx_idle(a, b, 6) { vx_idle(a, b, 5) && r != Some(true) }
    else { vx_once(a, b, 6) && vx_pick(b, 6).last() is Got && vx_pick(b, 5) == vx_pick(a, 5).push(VxEv::Down) && r != Some(false) && b.len() > 0 && b.last() is One && VxEv::Got(VxVal::Tx(b.last()->One_0)) == vx_pick(b, 6).last() && b.last()->One_1 is Unit }
}
pub open spec fn vx_asked_me<T>(l: VxLogS) -> (VxLogS, Option<T>) {
    let l1 = l.push(VxEv::Chan).push(VxEv::Put(VxVal::Ask(l.len() as int)));
    if vx_ok(l1) { let l2 = l1.push(VxEv::Wait(l.len() as int)); (l2, vx_came::<T>(l2)) } else { (l1, None) }
}
// ---- one run after another, as long as the user wants it
// q: l and then any number of runs each of which the user let be followed by another one
#[verifier::opaque]
pub open spec fn vx_story(l: VxLogS, q: VxLogS, t: Option<u64>) -> bool decreases q.len() {
    q == l || (t is Some && q.len() >= 4 && q[q.len() - 4] == VxEv::Run(Some(false)) && q[q.len() - 3] == VxEv::Reconnect(t->0) && q[q.len() - 2] == VxEv::Again(true) && q.last() == VxEv::Sleep(t->0) && vx_story(l, q.take(q.len() - 4), t))
}
pub broadcast proof fn vx_story_next(l: VxLogS, q: VxLogS, t: u64)
    requires vx_story(l, q, Some(t))
    ensures #[trigger] vx_story(l, q.push(VxEv::Run(Some(false))).push(VxEv::Reconnect(t)).push(VxEv::Again(true)).push(VxEv::Sleep(t)), Some(t))
{ reveal(vx_story); let r = q.push(VxEv::Run(Some(false))).push(VxEv::Reconnect(t)).push(VxEv::Again(true)).push(VxEv::Sleep(t)); assert(r.take(r.len() - 4) =~= q); }
pub broadcast proof fn vx_story_none(l: VxLogS, t: Option<u64>) ensures #[trigger] vx_story(l, l, t) { reveal(vx_story); }
// the last run ended with an error, was ended on request, or nobody wants another one
#[verifier::opaque]
pub open spec fn vx_over(l: VxLogS, b: VxLogS, t: Option<u64>) -> bool {
    let c = b.drop_last();
    let d = c.drop_last();
    b.len() > 0 && (((b.last() == VxEv::Run(None) || b.last() == VxEv::Run(Some(true)) || (t is None && b.last() == VxEv::Run(Some(false)))) && vx_story(l, c, t))
    || (b.len() > 2 && t is Some && b.last() == VxEv::Again(false) && c.last() == VxEv::Reconnect(t->0) && d.last() == VxEv::Run(Some(false)) && vx_story(l, d.drop_last(), t)))
}
pub broadcast proof fn vx_over_run(l: VxLogS, q: VxLogS, t: Option<u64>, r: Option<bool>)
    requires vx_story(l, q, t), r != Some(false) || t is None
    ensures #[trigger] vx_over(l, q.push(VxEv::Run(r)), t)
{ reveal(vx_over); let b = q.push(VxEv::Run(r)); assert(b.drop_last() =~= q); assert(b.last() == VxEv::Run(r)); assert(r is None || r == Some(true) || r == Some(false)); }
pub broadcast proof fn vx_over_no(l: VxLogS, q: VxLogS, t: u64)
    requires vx_story(l, q, Some(t))
    ensures #[trigger] vx_over(l, q.push(VxEv::Run(Some(false))).push(VxEv::Reconnect(t)).push(VxEv::Again(false)), Some(t))
{
    reveal(vx_over);
    let a = q.push(VxEv::Run(Some(false))); let b = a.push(VxEv::Reconnect(t)); let c = b.push(VxEv::Again(false));
    assert(c.drop_last() =~= b); assert(b.drop_last() =~= a); assert(a.drop_last() =~= q);
}
pub broadcast group vx_runs { vx_story_next, vx_story_none, vx_over_run, vx_over_no }
}
