// What a generated producer of the reference workflow has to do (schemas/flow.workflow).
pub mod vxs {
use vstd::prelude::*;
use crate::*;
use crate::vx::*;
use crate::consumer::{Consumer, identification::{Identification, Filter, IdentificationChannel}};
use crate::producer::{Event, Options, ProducerIdentificationStrategy as Strat, ConsumerErrorHandelingStrategy as OnErr};
use protocol::AvailableMessages as Msg;
use protocol::PackageHeader as Hdr;

// the errors of a producer, without their texts
pub enum VxKind { Server, Connection, Consumer, NotConfirmed, Emitter, Beacon, Responsing, Channel, NoKey(Uuid), NotAssigned(Uuid), NotAdded(Uuid), Protocol(Uuid) }
pub open spec fn vx_kind<E: clibri::server::Error>(e: ProducerError<E>) -> VxKind {
    match e {
        ProducerError::ServerError(_) => VxKind::Server,
        ProducerError::ConnectionError(_) => VxKind::Connection,
        ProducerError::ConsumerError(_) => VxKind::Consumer,
        ProducerError::NotConfirmedConnection => VxKind::NotConfirmed,
        ProducerError::EventEmitterError(_) => VxKind::Emitter,
        ProducerError::BeaconEmitterError(_) => VxKind::Beacon,
        ProducerError::ResponsingError(_) => VxKind::Responsing,
        ProducerError::ChannelError(_) => VxKind::Channel,
        ProducerError::NoConsumerKey(u) => VxKind::NoKey(u),
        ProducerError::NoAssignedConsumer(u) => VxKind::NotAssigned(u),
        ProducerError::FailToAddConsumer(u) => VxKind::NotAdded(u),
        ProducerError::Protocol(u, _) => VxKind::Protocol(u),
    }
}

// a consumer as its producer sees it
pub struct VxC { pub uuid: Uuid, pub ident: Identification, pub hash: bool, pub confirmed: bool, pub pend: Seq<u8>, pub q: Seq<(Msg, Hdr)> }
pub open spec fn vx_c(c: Consumer) -> VxC {
    VxC { uuid: c.uuid, ident: c.identification, hash: c.hash_accepted, confirmed: c.confirmed, pend: c.buffer.pend(), q: c.buffer.q() }
}
pub open spec fn vx_cs(m: Map<Uuid, Consumer>) -> Map<Uuid, VxC> { m.map_values(|c: Consumer| vx_c(c)) }
pub type VxM = Map<Uuid, VxC>;
// what the user's code can see of the consumers through the filter
pub type VxV = Map<Uuid, (Uuid, Identification)>;
pub open spec fn vx_vis(m: VxM) -> VxV { m.map_values(|c: VxC| (c.uuid, c.ident)) }
pub open spec fn vx_new(uuid: Uuid, o: Options, t: tokio::sync::mpsc::UnboundedSender<IdentificationChannel>) -> VxC {
    VxC { uuid, ident: Identification { uuid, producer_indentification_strategy: o.producer_indentification_strategy, discredited: false, tx_ident_change: t, key: None, assigned: None },
        hash: false, confirmed: false, pend: Seq::empty(), q: Seq::empty() }
}
pub open spec fn vx_oi(i: Option<&Identification>) -> Option<Identification> { match i { Some(x) => Some(*x), None => None } }

// calls of the user's functions, with everything they are given
pub enum VxCall {
    Ping(Identification, VxV, protocol::Ping),
    ChatMessage(Identification, VxV, protocol::Chat::Message),
    Bell(Identification, VxV, protocol::Bell),
    ChatDeepAsk(Identification, VxV, protocol::Chat::Deep::Ask),
    Beat(Identification, VxV, protocol::Beat),
    ChatDeepNote(Identification, VxV, protocol::Chat::Deep::Note),
    Alert(VxV, protocol::Alert),
    Kick(VxV, protocol::Kick),
    Connected(Identification, VxV),
    Disconnected(Identification, VxV),
    Ready, Shutdown,
    Error(VxKind, Option<Uuid>, Option<Identification>),
}
pub open spec fn vx_called(l: Seq<VxEv>, c: VxCall) -> Seq<VxEv> { l.push(VxEv::Call(c)) }

// ---- identification
pub open spec fn vx_or<T>(new: Option<T>, old: Option<T>) -> Option<T> { match new { Some(_) => new, None => old } }
pub open spec fn vx_key(cur: Option<protocol::Auth::Me>, k: protocol::Auth::Me, over: bool) -> Option<protocol::Auth::Me> {
    if over || cur is None { Some(k) }
    else { Some(protocol::Auth::Me { uuid: vx_or(k.uuid, cur->0.uuid), id: vx_or(k.id, cur->0.id), level: k.level, tags: vx_or(k.tags, cur->0.tags) }) }
}
pub open spec fn vx_assign(cur: Option<protocol::Auth::Role>, k: protocol::Auth::Role, over: bool) -> Option<protocol::Auth::Role> {
    if over || cur is None { Some(k) }
    else { Some(protocol::Auth::Role { auth: k.auth, uuid: vx_or(k.uuid, cur->0.uuid), bits: k.bits }) }
}
pub open spec fn vx_assigned(i: Identification) -> bool { i.assigned is Some || i.producer_indentification_strategy is Ignore || i.producer_indentification_strategy is Log }

// ---- broadcasts
// bytes to each of the consumers, in turn; what a consumer's connection answers changes nothing
pub open spec fn vx_bcast_n(l: Seq<VxEv>, us: Seq<Uuid>, b: Seq<u8>, n: int) -> Seq<VxEv> decreases n {
    if n <= 0 { l } else { vx_bcast_n(l, us, b, n - 1).push(VxEv::Send(Some(us[n - 1]), b)) }
}
pub open spec fn vx_bcast(l: Seq<VxEv>, us: Seq<Uuid>, b: Seq<u8>) -> Seq<VxEv> { vx_bcast_n(l, us, b, us.len() as int) }
pub type VxB = (Seq<Uuid>, Option<Seq<u8>>);
pub open spec fn vx_packed(bs: Seq<VxB>) -> bool { forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).1 is Some }
pub open spec fn vx_bcasts_n(l: Seq<VxEv>, bs: Seq<VxB>, n: int) -> Seq<VxEv> decreases n {
    if n <= 0 { l } else { vx_bcast(vx_bcasts_n(l, bs, n - 1), bs[n - 1].0, bs[n - 1].1->0) }
}
pub open spec fn vx_bcasts(l: Seq<VxEv>, bs: Seq<VxB>) -> Seq<VxEv> { vx_bcasts_n(l, bs, bs.len() as int) }
pub open spec fn vx_bs(b: Seq<(Vec<Uuid>, Vec<u8>)>) -> Seq<VxB> { b.map_values(|x: (Vec<Uuid>, Vec<u8>)| (x.0@, Some(vx_body(x.1@)))) }
pub broadcast proof fn vx_bs_empty(b: Seq<(Vec<Uuid>, Vec<u8>)>) requires b.len() == 0 ensures #[trigger] vx_bs(b) == Seq::<VxB>::empty() { assert(vx_bs(b) =~= Seq::<VxB>::empty()); }
pub broadcast proof fn vx_bs_push(b: Seq<(Vec<Uuid>, Vec<u8>)>, x: (Vec<Uuid>, Vec<u8>)) ensures #[trigger] vx_bs(b.push(x)) == vx_bs(b).push((x.0@, Some(vx_body(x.1@)))) {
    assert(vx_bs(b.push(x)) =~= vx_bs(b).push((x.0@, Some(vx_body(x.1@))))); }
pub broadcast proof fn vx_packed_push(b: Seq<VxB>, x: VxB) ensures #[trigger] vx_packed(b.push(x)) <==> vx_packed(b) && x.1 is Some {
    if vx_packed(b.push(x)) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).1 is Some by { assert(b.push(x)[i] == b[i]); } assert(b.push(x)[b.len() as int] == x); } }
pub broadcast proof fn vx_bs_packed(b: Seq<(Vec<Uuid>, Vec<u8>)>) ensures vx_packed(#[trigger] vx_bs(b)) { }
pub open spec fn vx_fin(l0: Seq<VxEv>, l: Seq<VxEv>) -> Seq<VxEv> { if vx_defers(l0) { vx_user(l.push(VxEv::Deferred)) } else { l } }
// a broadcast declared with ?: sent when the user gave one
pub open spec fn vx_maybe<T>(bs: Seq<VxB>, o: Option<(Vec<Uuid>, T)>, u: Option<Seq<char>>) -> Seq<VxB> { match o { Some(x) => bs.push((x.0@, protocol::vx_pack(x.1, 0, u))), None => bs } }
pub open spec fn vx_id(u: Uuid) -> Option<Seq<char>> { Some(vx_disp(&u)) }

// the answer to a request goes to the consumer that asked, then every declared broadcast goes to its consumers; l0: the log when the user's function was called
pub open spec fn vx_reply(l0: Seq<VxEv>, u: Uuid, resp: Option<Seq<u8>>, bs: Seq<VxB>) -> (Seq<VxEv>, bool) {
    let l1 = vx_user(l0);
    if resp is None || !vx_packed(bs) { (l1, false) }
    else {
        let l2 = l1.push(VxEv::Send(Some(u), resp->0));
        if !vx_ctl_ok(l2) { (l2, false) } else { (vx_fin(l0, vx_bcasts(l2, bs)), true) }
    }
}
pub open spec fn vx_emitted(l0: Seq<VxEv>, bs: Seq<VxB>) -> (Seq<VxEv>, bool) {
    if !vx_packed(bs) { (vx_user(l0), false) } else { (vx_fin(l0, vx_bcasts(vx_user(l0), bs)), true) }
}

// what the user's functions return
pub uninterp spec fn vx_r_ping(l: Seq<VxEv>) -> Result<protocol::Pong, protocol::Fault>;
pub uninterp spec fn vx_r_chat_message(l: Seq<VxEv>) -> Result<responses::chat_message::Response, protocol::Chat::Denied>;
pub uninterp spec fn vx_r_chat_deep_ask(l: Seq<VxEv>) -> Result<responses::chat_deep_ask::Response, protocol::Fault>;
pub uninterp spec fn vx_r_bell(l: Seq<VxEv>) -> Result<responses::bell::Response, protocol::Fault>;
pub uninterp spec fn vx_r_alert(l: Seq<VxEv>) -> Result<(Option<(Vec<Uuid>, protocol::News)>, (Vec<Uuid>, protocol::Alarm)), String>;
pub uninterp spec fn vx_r_kick(l: Seq<VxEv>) -> Result<(Vec<Uuid>, protocol::News), String>;
pub uninterp spec fn vx_r_connected(l: Seq<VxEv>) -> Result<Option<(Vec<Uuid>, protocol::Alarm)>, String>;
pub uninterp spec fn vx_r_disconnected(l: Seq<VxEv>) -> Result<((Vec<Uuid>, protocol::News), Option<(Vec<Uuid>, protocol::Alarm)>), String>;

// ---- the workflow
#[verifier::opaque]
pub open spec fn vx_ping(l: Seq<VxEv>, i: Identification, m: VxM, r: protocol::Ping, seq: u32) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::Ping(i, vx_vis(m), r));
    vx_reply(l0, i.uuid, match vx_r_ping(l0) { Ok(x) => protocol::vx_pack(x, seq, vx_id(i.uuid)), Err(x) => protocol::vx_pack(x, seq, vx_id(i.uuid)) }, Seq::empty())
}
#[verifier::opaque]
pub open spec fn vx_chat_message(l: Seq<VxEv>, i: Identification, m: VxM, r: protocol::Chat::Message, seq: u32) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::ChatMessage(i, vx_vis(m), r));
    let u = vx_id(i.uuid);
    match vx_r_chat_message(l0) {
        Ok(responses::chat_message::Response::Accept(t)) => vx_reply(l0, i.uuid, protocol::vx_pack(t.0, seq, u), Seq::<VxB>::empty().push((t.1.0@, protocol::vx_pack(t.1.1, 0, u))).push((t.2.0@, protocol::vx_pack(t.2.1, 0, u)))),
        Ok(responses::chat_message::Response::Deny(t)) => vx_reply(l0, i.uuid, protocol::vx_pack(t, seq, u), Seq::empty()),
        Ok(responses::chat_message::Response::Quiet(t)) => vx_reply(l0, i.uuid, protocol::vx_pack(t.0, seq, u), vx_maybe(Seq::<VxB>::empty().push((t.1.0@, protocol::vx_pack(t.1.1, 0, u))), t.2, u)),
        Err(t) => vx_reply(l0, i.uuid, protocol::vx_pack(t, seq, u), Seq::empty()),
    }
}
#[verifier::opaque]
pub open spec fn vx_bell(l: Seq<VxEv>, i: Identification, m: VxM, r: protocol::Bell, seq: u32) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::Bell(i, vx_vis(m), r));
    let u = vx_id(i.uuid);
    match vx_r_bell(l0) {
        Ok(responses::bell::Response::Ring(t)) => vx_reply(l0, i.uuid, protocol::vx_pack(t.0, seq, u), vx_maybe(Seq::<VxB>::empty().push((t.1.0@, protocol::vx_pack(t.1.1, 0, u))), t.2, u)),
        Err(t) => vx_reply(l0, i.uuid, protocol::vx_pack(t, seq, u), Seq::empty()),
    }
}
#[verifier::opaque]
pub open spec fn vx_chat_deep_ask(l: Seq<VxEv>, i: Identification, m: VxM, r: protocol::Chat::Deep::Ask, seq: u32) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::ChatDeepAsk(i, vx_vis(m), r));
    let u = vx_id(i.uuid);
    match vx_r_chat_deep_ask(l0) {
        Ok(responses::chat_deep_ask::Response::Full(t)) => vx_reply(l0, i.uuid, protocol::vx_pack(t, seq, u), Seq::empty()),
        Ok(responses::chat_deep_ask::Response::Empty(t)) => vx_reply(l0, i.uuid, protocol::vx_pack(t, seq, u), Seq::empty()),
        Err(t) => vx_reply(l0, i.uuid, protocol::vx_pack(t, seq, u), Seq::empty()),
    }
}
#[verifier::opaque]
pub open spec fn vx_alert(l: Seq<VxEv>, m: VxM, e: protocol::Alert) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::Alert(vx_vis(m), e));
    match vx_r_alert(l0) {
        Ok(t) => vx_emitted(l0, vx_maybe(Seq::<VxB>::empty(), t.0, None).push((t.1.0@, protocol::vx_pack(t.1.1, 0, None)))),
        Err(_) => (vx_user(l0), false),
    }
}
#[verifier::opaque]
pub open spec fn vx_kick(l: Seq<VxEv>, m: VxM, e: protocol::Kick) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::Kick(vx_vis(m), e));
    match vx_r_kick(l0) { Ok(t) => vx_emitted(l0, Seq::<VxB>::empty().push((t.0@, protocol::vx_pack(t.1, 0, None)))), Err(_) => (vx_user(l0), false) }
}
#[verifier::opaque]
pub open spec fn vx_connected(l: Seq<VxEv>, i: Identification, m: VxM) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::Connected(i, vx_vis(m)));
    match vx_r_connected(l0) { Ok(t) => vx_emitted(l0, vx_maybe(Seq::<VxB>::empty(), t, None)), Err(_) => (vx_user(l0), false) }
}
#[verifier::opaque]
pub open spec fn vx_disconnected(l: Seq<VxEv>, i: Identification, m: VxM) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::Disconnected(i, vx_vis(m)));
    match vx_r_disconnected(l0) {
        Ok(t) => vx_emitted(l0, vx_maybe(Seq::<VxB>::empty().push((t.0.0@, protocol::vx_pack(t.0.1, 0, None))), t.1, None)),
        Err(_) => (vx_user(l0), false),
    }
}
// a beacon is confirmed to its sender with the sequence it came with
#[verifier::opaque]
pub open spec fn vx_beacon(l0: Seq<VxEv>, i: Identification, seq: u32) -> (Seq<VxEv>, bool) {
    let l1 = vx_user(l0);
    let b = protocol::vx_pack(protocol::InternalServiceGroup::BeaconConfirmation { error: None }, seq, vx_id(i.uuid));
    if !vx_user_ok(l0) || b is None { (l1, false) }
    else {
        let l2 = l1.push(VxEv::Send(Some(i.uuid), b->0));
        if !vx_ctl_ok(l2) { (l2, false) } else { (vx_fin(l0, l2), true) }
    }
}
#[verifier::opaque]
pub open spec fn vx_emit_error(l: Seq<VxEv>, k: VxKind, u: Option<Uuid>, i: Option<Identification>) -> (Seq<VxEv>, bool) {
    let l0 = vx_called(l, VxCall::Error(k, u, i));
    (vx_user(l0), vx_user_ok(l0))
}

// ---- connections
pub struct VxS { pub c: VxC, pub l: Seq<VxEv>, pub ok: bool }
#[verifier::opaque]
pub open spec fn vx_disc(s: VxS, u: Uuid) -> VxS {
    if s.c.ident.discredited { s } else {
        let l = s.l.push(VxEv::Disc(u));
        VxS { c: VxC { ident: Identification { discredited: true, ..s.c.ident }, ..s.c }, l, ok: vx_ctl_ok(l) }
    }
}
pub open spec fn vx_err(s: VxS, k: VxKind, u: Uuid) -> VxS {
    let e = vx_emit_error(s.l, k, Some(u), Some(s.c.ident));
    VxS { l: e.0, ok: e.1, ..s }
}
pub open spec fn vx_drop(s: VxS, k: VxKind, u: Uuid) -> VxS { let s1 = vx_disc(s, u); if s1.ok { vx_err(s1, k, u) } else { s1 } }
// something failed for a consumer: the strategy of the options decides
#[verifier::opaque]
pub open spec fn vx_failed(s: VxS, u: Uuid, o: Options) -> VxS {
    let s1 = if o.consumer_error_handeling_strategy is Disconnect || o.consumer_error_handeling_strategy is EmitErrorAndDisconnect { vx_disc(s, u) } else { s };
    if s1.ok && (o.consumer_error_handeling_strategy is EmitError || o.consumer_error_handeling_strategy is EmitErrorAndDisconnect) { vx_err(s1, VxKind::Responsing, u) } else { s1 }
}
#[verifier::opaque]
pub open spec fn vx_failed_none(l: Seq<VxEv>, u: Uuid, o: Options) -> (Seq<VxEv>, bool) {
    if o.consumer_error_handeling_strategy is EmitError || o.consumer_error_handeling_strategy is EmitErrorAndDisconnect { vx_emit_error(l, VxKind::Responsing, Some(u), None) } else { (l, true) }
}
// an answer of the service itself
pub open spec fn vx_answer(s: VxS, u: Uuid, o: Options, b: Option<Seq<u8>>) -> VxS {
    if b is None { vx_failed(s, u, o) } else {
        let l = s.l.push(VxEv::Send(Some(u), b->0));
        if vx_ctl_ok(l) { VxS { l, ..s } } else { vx_failed(VxS { l, ..s }, u, o) }
    }
}
pub open spec fn vx_done(s: VxS, u: Uuid, o: Options, r: (Seq<VxEv>, bool)) -> VxS { let s1 = VxS { l: r.0, ..s }; if r.1 { s1 } else { vx_failed(s1, u, o) } }
pub open spec fn vx_beaconed(s: VxS, u: Uuid, r: (Seq<VxEv>, bool)) -> VxS { let s1 = VxS { l: r.0, ..s }; if r.1 { s1 } else { vx_err(s1, VxKind::Beacon, u) } }

// one message of a consumer that is confirmed and not discredited; m: all consumers
#[verifier::opaque]
pub open spec fn vx_msg(s: VxS, m: VxM, u: Uuid, o: Options, msg: Msg, h: Hdr) -> VxS {
    let i = s.c.ident;
    match msg {
        Msg::Auth(protocol::Auth::AvailableMessages::Me(k)) if !s.c.hash =>
            vx_answer(VxS { c: VxC { ident: Identification { key: vx_key(i.key, k, true), ..i }, ..s.c }, ..s }, u, o,
                protocol::vx_pack(protocol::InternalServiceGroup::SelfKeyResponse { uuid: vx_string(vx_disp(&s.c.uuid)) }, h.sequence, vx_id(s.c.uuid))),
        Msg::InternalServiceGroup(protocol::InternalServiceGroup::AvailableMessages::HashRequest(r)) => {
            let valid = r.protocol@ == hash::PROTOCOL@ && r.workflow@ == hash::WORKFLOW@;
            let b = protocol::vx_pack(protocol::InternalServiceGroup::HashResponse { error: if valid { None } else { Some(vx_string("Hash is invalid"@)) } }, h.sequence, vx_id(u));
            let s1 = vx_answer(VxS { c: VxC { hash: s.c.hash || valid, ..s.c }, ..s }, u, o, b);
            if s1.ok && !valid { vx_drop(s1, VxKind::NoKey(u), u) } else { s1 }
        }
        _ =>
            if !s.c.hash || i.key is None { vx_drop(s, VxKind::NoKey(u), u) }
            else if !vx_assigned(i) {
                let st = o.producer_indentification_strategy;
                if st is Ignore { vx_dispatch(s, m, u, o, msg, h.sequence) } else {
                    let s1 = if st is Disconnect || st is EmitErrorAndDisconnect { vx_disc(s, u) } else { s };
                    if s1.ok && (st is EmitError || st is EmitErrorAndDisconnect) { vx_err(s1, VxKind::NotAssigned(u), u) } else { s1 }
                }
            } else { vx_dispatch(s, m, u, o, msg, h.sequence) }
    }
}
pub open spec fn vx_dispatch(s: VxS, m: VxM, u: Uuid, o: Options, msg: Msg, q: u32) -> VxS {
    let i = s.c.ident;
    match msg {
        Msg::Ping(r) => vx_done(s, u, o, vx_ping(s.l, i, m, r, q)),
        Msg::Bell(r) => vx_done(s, u, o, vx_bell(s.l, i, m, r, q)),
        Msg::Chat(protocol::Chat::AvailableMessages::Message(r)) => vx_done(s, u, o, vx_chat_message(s.l, i, m, r, q)),
        Msg::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Ask(r))) => vx_done(s, u, o, vx_chat_deep_ask(s.l, i, m, r, q)),
        Msg::Beat(r) => vx_beaconed(s, u, vx_beacon(vx_called(s.l, VxCall::Beat(i, vx_vis(m), r)), i, q)),
        Msg::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Note(r))) => vx_beaconed(s, u, vx_beacon(vx_called(s.l, VxCall::ChatDeepNote(i, vx_vis(m), r)), i, q)),
        _ => s,
    }
}
// the messages of a chunk, one by one, until one fails or discredits the consumer
#[verifier::opaque]
pub open spec fn vx_all(s: VxS, m: VxM, u: Uuid, o: Options, ms: Seq<(Msg, Hdr)>, n: int) -> VxS decreases ms.len() - n {
    if n < 0 || n >= ms.len() || !s.ok || s.c.ident.discredited { s } else {
        vx_all(vx_msg(s, m.insert(u, s.c), u, o, ms[n].0, ms[n].1), m, u, o, ms, n + 1)
    }
}
pub struct VxR { pub m: VxM, pub l: Seq<VxEv>, pub ok: bool }
pub open spec fn vx_back(m: VxM, u: Uuid, s: VxS) -> VxR { VxR { m: m.insert(u, s.c), l: s.l, ok: s.ok } }
#[verifier::opaque]
pub open spec fn vx_received(m: VxM, l: Seq<VxEv>, u: Uuid, o: Options, b: Seq<u8>) -> VxR {
    if !m.dom().contains(u) { let e = vx_failed_none(l, u, o); VxR { m, l: e.0, ok: e.1 } }
    else {
        let s = VxS { c: m[u], l, ok: true };
        if !s.c.confirmed { vx_back(m, u, vx_drop(s, VxKind::NotConfirmed, u)) }
        else if s.c.ident.discredited { VxR { m, l, ok: true } }
        else {
            let all = s.c.pend + b;
            let c1 = VxC { pend: protocol::vx_rest::<Msg>(all), q: s.c.q + protocol::vx_out::<Msg>(all), ..s.c };
            if protocol::vx_bad::<Msg>(all) { vx_back(m, u, vx_failed(VxS { c: c1, ..s }, u, o)) }
            else { vx_back(m, u, vx_all(VxS { c: VxC { q: Seq::empty(), ..c1 }, ..s }, m, u, o, c1.q, 0)) }
        }
    }
}

// ---- the life of a producer: what it takes out of its channels, in order, decides what it does
pub enum VxIn { Ready, Shutdown, Connected(Uuid), Disconnected(Uuid), Received(Uuid, Seq<u8>), Error(Option<Uuid>), ConnectionError(Option<Uuid>), ServerError, Event(Event), Ident(IdentificationChannel), Confirm(Uuid), Asked(bool), End }
impl<E: clibri::server::Error> VxCame for clibri::server::Events<E> {
    open spec fn vx_in(&self) -> VxIn {
        match *self {
            clibri::server::Events::Ready => VxIn::Ready, clibri::server::Events::Shutdown => VxIn::Shutdown,
            clibri::server::Events::Connected(u) => VxIn::Connected(u), clibri::server::Events::Disconnected(u) => VxIn::Disconnected(u),
            clibri::server::Events::Received(u, b) => VxIn::Received(u, b@), clibri::server::Events::Error(u, _) => VxIn::Error(u),
            clibri::server::Events::ConnectionError(u, _) => VxIn::ConnectionError(u), clibri::server::Events::ServerError(_) => VxIn::ServerError,
        }
    }
}
impl VxCame for Event { open spec fn vx_in(&self) -> VxIn { VxIn::Event(*self) } }
impl VxCame for IdentificationChannel { open spec fn vx_in(&self) -> VxIn { VxIn::Ident(*self) } }
impl VxCame for Uuid { open spec fn vx_in(&self) -> VxIn { VxIn::Confirm(*self) } }

// ok: it goes on; stop: asked to stop; bad: something was taken after the end
pub struct VxL { pub m: VxM, pub l: Seq<VxEv>, pub ok: bool, pub stop: bool, pub bad: bool }
pub open spec fn vx_l0(l: Seq<VxEv>) -> VxL { VxL { m: Map::empty(), l, ok: true, stop: false, bad: false } }
pub open spec fn vx_lev(s: VxL, r: (Seq<VxEv>, bool)) -> VxL { VxL { l: r.0, ok: r.1, ..s } }
pub open spec fn vx_about(m: VxM, u: Option<Uuid>) -> Option<Identification> { match u { Some(x) => if m.dom().contains(x) { Some(m[x].ident) } else { None }, None => None } }
// a consumer is changed; one that is not there is an error of a consumer
pub open spec fn vx_lone(s: VxL, u: Uuid, c: VxC) -> VxL {
    if s.m.dom().contains(u) { VxL { m: s.m.insert(u, c), ..s } } else { vx_lev(s, vx_emit_error(s.l, VxKind::Consumer, Some(u), None)) }
}
#[verifier::opaque]
pub open spec fn vx_lstep(s0: VxL, t: tokio::sync::mpsc::UnboundedSender<IdentificationChannel>, o: Options, x: VxIn) -> VxL {
    let s = VxL { l: s0.l.push(VxEv::Got(x)), bad: !s0.ok || s0.stop || s0.bad, ..s0 };
    match x {
        VxIn::Ready => vx_lev(s, (vx_user(vx_called(s.l, VxCall::Ready)), vx_user_ok(vx_called(s.l, VxCall::Ready)))),
        VxIn::Shutdown | VxIn::End | VxIn::Asked(_) => VxL { stop: true, ..s },
        VxIn::Connected(u) => if s.m.dom().contains(u) { VxL { ok: false, ..s } } else { let c = vx_new(u, o, t); VxL { m: s.m.insert(u, c), l: vx_connected(s.l, c.ident, s.m).0, ..s } },
        VxIn::Disconnected(u) => if s.m.dom().contains(u) { VxL { m: s.m.remove(u), l: vx_disconnected(s.l, s.m[u].ident, s.m.remove(u)).0, ..s } } else { s },
        VxIn::Received(u, b) => { let r = vx_received(s.m, s.l, u, o, b); VxL { m: r.m, l: r.l, ok: r.ok, ..s } },
        VxIn::Error(u) => vx_lev(s, vx_emit_error(s.l, VxKind::Consumer, u, vx_about(s.m, u))),
        VxIn::ConnectionError(u) => vx_lev(s, vx_emit_error(s.l, VxKind::Connection, u, vx_about(s.m, u))),
        VxIn::ServerError => vx_lev(s, vx_emit_error(s.l, VxKind::Server, None, None)),
        VxIn::Event(Event::Alert(e)) => VxL { l: vx_alert(s.l, s.m, e).0, ..s },
        VxIn::Event(Event::Kick(e)) => VxL { l: vx_kick(s.l, s.m, e).0, ..s },
        VxIn::Ident(IdentificationChannel::Key(u, k, over)) => vx_lone(s, u, VxC { ident: Identification { key: vx_key(s.m[u].ident.key, k, over), ..s.m[u].ident }, ..s.m[u] }),
        VxIn::Ident(IdentificationChannel::Assigned(u, k, over)) => vx_lone(s, u, VxC { ident: Identification { assigned: vx_assign(s.m[u].ident.assigned, k, over), ..s.m[u].ident }, ..s.m[u] }),
        VxIn::Confirm(u) => {
            let s1 = vx_lone(s, u, VxC { confirmed: true, ..s.m[u] });
            if !s.m.dom().contains(u) { s1 } else {
                let b = protocol::vx_pack(protocol::InternalServiceGroup::ConnectConfirmationBeacon {}, 0, vx_id(u));
                if b is None { VxL { ok: false, ..s1 } } else { let l = s.l.push(VxEv::Send(Some(u), b->0)); VxL { l, ok: vx_ctl_ok(l), ..s1 } }
            }
        }
    }
}
#[verifier::opaque]
pub open spec fn vx_life(s: VxL, t: tokio::sync::mpsc::UnboundedSender<IdentificationChannel>, o: Options, es: Seq<VxIn>) -> VxL decreases es.len() {
    if es.len() == 0 { s } else { vx_lstep(vx_life(s, t, o, es.drop_last()), t, o, es.last()) }
}
pub broadcast proof fn vx_life_none(s: VxL, t: tokio::sync::mpsc::UnboundedSender<IdentificationChannel>, o: Options) ensures #[trigger] vx_life(s, t, o, Seq::empty()) == s { reveal(vx_life); }
pub broadcast proof fn vx_life_push(s: VxL, t: tokio::sync::mpsc::UnboundedSender<IdentificationChannel>, o: Options, es: Seq<VxIn>, x: VxIn)
    ensures #[trigger] vx_life(s, t, o, es.push(x)) == vx_lstep(vx_life(s, t, o, es), t, o, x) { reveal(vx_life); assert(es.push(x).drop_last() =~= es); }
// it ends when it is asked to, when its channels or its token say so, or with the first error it cannot hand on
pub open spec fn vx_lend(s: VxL, es: Seq<VxIn>, l: Seq<VxEv>, ok: bool) -> bool {
    &&& !s.bad
    &&& ok ==> s.ok && l == (if s.stop { s.l } else { s.l.push(VxEv::Got(VxIn::End)) })
    &&& !ok ==> l == s.l && (!s.ok || (es.len() > 0 && es.last() is Connected))
}
pub open spec fn vx_lived(l0: Seq<VxEv>, l: Seq<VxEv>, ok: bool, o: Options) -> bool {
    exists|t: tokio::sync::mpsc::UnboundedSender<IdentificationChannel>, es: Seq<VxIn>| vx_lend(#[trigger] vx_life(vx_l0(l0), t, o, es), es, l, ok)
}
// a run: the server, the listener and the wait for a shutdown, each in its own order; each of them ends the others by the token k
pub open spec fn vx_cancels(k: int) -> VxEv { VxEv::Cancel(k) }
pub type VxQ = Option<Option<tokio::sync::oneshot::Sender<()>>>;
pub open spec fn vx_served(a: Seq<VxEv>, b: Seq<VxEv>, ok: bool, k: int) -> bool {
    ||| b == a.push(VxEv::Serve).push(vx_cancels(k)) && ok == vx_ctl_ok(a.push(VxEv::Serve))
    ||| ok && b == a.push(VxEv::Got(VxIn::End)).push(vx_cancels(k))
    ||| ok && b == a.push(VxEv::Serve).push(VxEv::Got(VxIn::End)).push(vx_cancels(k))
}
// the server is told to stop in any case
pub open spec fn vx_asked(a: Seq<VxEv>, q: VxQ, k: int) -> Seq<VxEv> {
    a.push(VxEv::Got(match q { Some(x) => VxIn::Asked(x is Some), None => VxIn::End })).push(VxEv::Down).push(vx_cancels(k))
}
// who asked is told, if he still waits; then the shutdown event, last
pub open spec fn vx_over<E: clibri::server::Error>(c: Seq<VxEv>, l: Seq<VxEv>, q: VxQ, ok: bool, r: Result<(), ProducerError<E>>) -> bool {
    let d = vx_called(c, VxCall::Shutdown);
    l == vx_user(d) && (q is Some && q->0 is Some ==> vx_told(q->0->0, ()) || vx_gone(q->0->0)) && (if vx_user_ok(d) { r is Ok <==> ok } else { r is Err && r->Err_0 is EventEmitterError })
}
pub open spec fn vx_ran<E: clibri::server::Error>(a: Seq<VxEv>, b: Seq<VxEv>, c: Seq<VxEv>, ok: bool, q: VxQ, k: int, l: Seq<VxEv>, r: Result<(), ProducerError<E>>) -> bool {
    let d = vx_asked(c.push(vx_cancels(k)), q, k);
    ||| vx_served(a, b, true, k) && vx_over(d, l, q, ok, r)
    ||| vx_served(a, b, false, k) && vx_over(d, l, q, false, r)
}
pub open spec fn vx_run<E: clibri::server::Error>(l0: Seq<VxEv>, l: Seq<VxEv>, r: Result<(), ProducerError<E>>, o: Options) -> bool {
    let a = l0.push(VxEv::Observe);
    if !vx_ctl_ok(a) { l == a && r is Err && r->Err_0 is ServerError }
    else { exists|b: Seq<VxEv>, c: Seq<VxEv>, ok: bool, k: int| #![trigger vx_lived(b, c, ok, o), vx_cancels(k)]
        vx_lived(b, c, ok, o) && (vx_ran(a, b, c, ok, None, k, l, r) || exists|q: VxQ| #[trigger] vx_seen(q) && vx_ran(a, b, c, ok, q, k, l, r)) }
}
// every consumer is stored under its own identifier
pub open spec fn vx_keyed(m: VxM) -> bool { forall|u: Uuid| #[trigger] m.dom().contains(u) ==> m[u].uuid == u && m[u].ident.uuid == u }
pub uninterp spec fn vx_string(s: Seq<char>) -> String;
pub broadcast axiom fn vx_string_view(s: String) ensures #[trigger] vx_string(s@) == s;
pub broadcast proof fn vx_cs_insert(m: Map<Uuid, Consumer>, k: Uuid, c: Consumer) ensures #[trigger] vx_cs(m.insert(k, c)) == vx_cs(m).insert(k, vx_c(c)) { assert(vx_cs(m.insert(k, c)) =~= vx_cs(m).insert(k, vx_c(c))); }
pub broadcast proof fn vx_cs_none(m: Map<Uuid, Consumer>) requires m == Map::<Uuid, Consumer>::empty() ensures #[trigger] vx_cs(m) == Map::<Uuid, VxC>::empty() { assert(vx_cs(m) =~= Map::<Uuid, VxC>::empty()); }
pub broadcast proof fn vx_cs_remove(m: Map<Uuid, Consumer>, k: Uuid) ensures #[trigger] vx_cs(m.remove(k)) == vx_cs(m).remove(k) { assert(vx_cs(m.remove(k)) =~= vx_cs(m).remove(k)); }
pub broadcast proof fn vx_cs_dom(m: Map<Uuid, Consumer>) ensures #[trigger] vx_cs(m).dom() == m.dom() { assert(vx_cs(m).dom() =~= m.dom()); }
pub broadcast proof fn vx_cs_at(m: Map<Uuid, Consumer>, k: Uuid) requires m.dom().contains(k) ensures #[trigger] vx_cs(m)[k] == vx_c(m[k]) { }
pub broadcast proof fn vx_ins_ins(m: VxM, k: Uuid, a: VxC, b: VxC) ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b) { assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }
pub broadcast proof fn vx_ins_same(m: VxM, k: Uuid) requires m.dom().contains(k) ensures #[trigger] m.insert(k, m[k]) == m { assert(m.insert(k, m[k]) =~= m); }
// steps leave the identity of a consumer alone
pub broadcast proof fn vx_disc_id(s: VxS, u: Uuid) ensures (#[trigger] vx_disc(s, u)).c.uuid == s.c.uuid, vx_disc(s, u).c.ident.uuid == s.c.ident.uuid { reveal(vx_disc); }
pub broadcast proof fn vx_failed_id(s: VxS, u: Uuid, o: Options) ensures (#[trigger] vx_failed(s, u, o)).c.uuid == s.c.uuid, vx_failed(s, u, o).c.ident.uuid == s.c.ident.uuid { reveal(vx_failed); vx_disc_id(s, u); }
pub broadcast proof fn vx_all_stop(s: VxS, m: VxM, u: Uuid, o: Options, ms: Seq<(Msg, Hdr)>, n: int)
    requires n < 0 || n >= ms.len() || !s.ok || s.c.ident.discredited ensures #[trigger] vx_all(s, m, u, o, ms, n) == s { reveal(vx_all); }
pub proof fn vx_all_step(s: VxS, m: VxM, u: Uuid, o: Options, ms: Seq<(Msg, Hdr)>, n: int)
    ensures n < 0 || n >= ms.len() || !s.ok || s.c.ident.discredited ==> vx_all(s, m, u, o, ms, n) == s,
        0 <= n < ms.len() && s.ok && !s.c.ident.discredited ==> vx_all(s, m, u, o, ms, n) == vx_all(vx_msg(s, m.insert(u, s.c), u, o, ms[n].0, ms[n].1), m, u, o, ms, n + 1) { reveal(vx_all); }
pub broadcast group vx_laws { vx_bs_empty, vx_bs_push, vx_packed_push, vx_bs_packed, vx_string_view, vx_cs_insert, vx_cs_none, vx_life_none, vx_cs_remove, vx_cs_dom, vx_cs_at, vx_ins_ins, vx_ins_same, vx_disc_id, vx_failed_id, vx_all_stop }
}
