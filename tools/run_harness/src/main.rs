// Runs the producer generated from the reference workflow against a scripted server, and compares what the
// handlers of the user and the server see with an independent model of the producer.
#![allow(unused, non_snake_case, dead_code)]
mod producer;
pub mod user;
use clibri::server;
use producer::implementation::{hash, producer as prod, protocol};
use protocol::PackingStruct;
use std::collections::{BTreeMap, HashSet};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use user::*;
use uuid::Uuid;

// ---- the server
#[derive(Clone, Debug)]
struct SrvErr;
impl std::fmt::Display for SrvErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "scripted") } }
impl std::error::Error for SrvErr {}
impl server::Error for SrvErr {}
#[derive(Clone, Debug)]
struct Ctl;
fn show(b: &[u8]) -> String {
    let mut r = protocol::Buffer::<protocol::AvailableMessages>::new();
    let x = r.chunk(&b.to_vec(), None).map(|_| ()).map_err(|_| ());
    let mut o = String::new();
    while let Some(m) = r.next() { o += &format!("#{} {:?};", m.header.sequence, m.msg); }
    format!("{}{}{}", o, if x.is_err() { " bad" } else { "" }, if r.len() > 0 { " rest" } else { "" })
}
fn scripted(what: &str) -> Result<(), SrvErr> {
    W.with(|w| { let w = w.borrow(); if bad(w.seed, w.unit, w.rough, what) { Err(SrvErr) } else { Ok(()) } })
}
fn send_key(u: &Option<Uuid>, s: &str) -> String { format!("{:?}{}", u, s) }
fn confirmation(s: &str) -> bool { s.contains("ConnectConfirmationBeacon") }
#[async_trait::async_trait]
impl server::Control<SrvErr> for Ctl {
    async fn shutdown(&self) -> Result<(), SrvErr> { W.with(|w| w.borrow_mut().down += 1); if life().down_err { Err(SrvErr) } else { Ok(()) } }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), SrvErr> {
        let s = show(&buffer);
        log(Ev::Send(client, s.clone()));
        if confirmation(&s) { Ok(()) } else { scripted(&send_key(&client, &s)) }
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), SrvErr> { log(Ev::Disc(client)); scripted(&format!("{}", client)) }
    async fn disconnect_all(&self) -> Result<(), SrvErr> { Ok(()) }
}
struct Srv { rx: Option<UnboundedReceiver<server::Events<SrvErr>>>, ends: Option<tokio::sync::oneshot::Receiver<bool>> }
#[async_trait::async_trait]
impl server::Impl<SrvErr, Ctl> for Srv {
    async fn listen(&mut self) -> Result<(), SrvErr> {
        if let Some(e) = self.ends.take() { if let Ok(ok) = e.await { return if ok { Ok(()) } else { Err(SrvErr) }; } }
        futures::future::pending::<()>().await; Ok(())
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<SrvErr>>, SrvErr> { if life().blind { return Err(SrvErr); } self.rx.take().ok_or(SrvErr) }
    fn control(&self) -> Ctl { Ctl }
}

// ---- the model
#[derive(Clone, Debug, PartialEq)]
enum Msg { Key(protocol::Auth::Me), Hash(String, String), Ping(protocol::Ping), Bell(protocol::Bell), Chat(protocol::Chat::Message), Ask(protocol::Chat::Deep::Ask), Beat(protocol::Beat), Note(protocol::Chat::Deep::Note), Other(u64) }
#[derive(Clone)]
struct Con { key: Option<protocol::Auth::Me>, assigned: Option<protocol::Auth::Role>, disc: bool, hash: bool, confirmed: bool, buf: usize, garbage: bool }
#[derive(Clone)]
struct Opt { ident: prod::ProducerIdentificationStrategy, err: prod::ConsumerErrorHandelingStrategy }
struct Model { seed: u64, unit: u64, ord: u64, rough: u64, log: Vec<Ev>, cons: BTreeMap<Uuid, Con>, opt: Opt, queue: Vec<(Uuid, Option<protocol::Auth::Me>, Option<protocol::Auth::Role>, bool)> }
type R = Result<(), ()>;
fn merge_key(old: &Option<protocol::Auth::Me>, k: protocol::Auth::Me, overwrite: bool) -> protocol::Auth::Me {
    match old {
        Some(o) if !overwrite => protocol::Auth::Me { uuid: k.uuid.or(o.uuid.clone()), id: k.id.or(o.id.clone()), level: k.level, tags: k.tags.or(o.tags.clone()) },
        _ => k,
    }
}
fn merge_role(old: &Option<protocol::Auth::Role>, k: protocol::Auth::Role, overwrite: bool) -> protocol::Auth::Role {
    match old {
        Some(o) if !overwrite => protocol::Auth::Role { auth: k.auth, uuid: k.uuid.or(o.uuid.clone()), bits: k.bits },
        _ => k,
    }
}
fn dbg(seq: u32, m: protocol::AvailableMessages) -> String { format!("#{} {:?};", seq, m) }
use protocol::AvailableMessages as A;
fn a_pong(x: protocol::Pong) -> A { A::Pong(x) }
fn a_fault(x: protocol::Fault) -> A { A::Fault(x) }
fn a_news(x: protocol::News) -> A { A::News(x) }
fn a_alarm(x: protocol::Alarm) -> A { A::Alarm(x) }
fn a_acc(x: protocol::Chat::Accepted) -> A { A::Chat(protocol::Chat::AvailableMessages::Accepted(x)) }
fn a_den(x: protocol::Chat::Denied) -> A { A::Chat(protocol::Chat::AvailableMessages::Denied(x)) }
fn a_ans(x: protocol::Chat::Deep::Answer) -> A { A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Answer(x))) }
fn a_note(x: protocol::Chat::Deep::Note) -> A { A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Note(x))) }
fn a_svc(x: protocol::InternalServiceGroup::AvailableMessages) -> A { A::InternalServiceGroup(x) }
use protocol::InternalServiceGroup as S;
impl Model {
    fn call(&mut self, what: &str, ident: Option<(Uuid, &Con)>, all: bool) -> K {
        let l = if all { Some(self.cons.keys().cloned().collect::<Vec<Uuid>>()) } else { None };
        self.log.push(Ev::Call(head(what, ident.map(|(u, c)| (u, c.disc)), l), ident.map(|(_, c)| keys(&c.key, &c.assigned)).unwrap_or_default()));
        self.ord += 1;
        k_of(self.seed, self.unit, self.ord, self.rough)
    }
    fn fails(&self, what: &str) -> bool { bad(self.seed, self.unit, self.rough, what) }
    fn send(&mut self, u: Uuid, seq: u32, m: A) -> R {
        let s = dbg(seq, m);
        self.log.push(Ev::Send(Some(u), s.clone()));
        if !confirmation(&s) && self.fails(&send_key(&Some(u), &s)) { Err(()) } else { Ok(()) }
    }
    fn recipients(&self, k: K, n: u64, u: Uuid) -> Vec<Uuid> {
        let d = k.d(30 + n);
        match d % 5 {
            0 => self.cons.keys().cloned().collect(),
            1 => self.cons.keys().cloned().filter(|x| *x != u).collect(),
            2 => { let e = some_of(d); self.cons.keys().cloned().filter(|x| !e.contains(x)).collect() }
            3 => self.cons.iter().filter(|(_, c)| level(&c.key, &c.assigned, d / 5)).map(|(u, _)| *u).collect(),
            _ => some_of(d),
        }
    }
    fn bcast(&mut self, to: Vec<Uuid>, m: A) { for u in to { let _ = self.send(u, 0, m.clone()); } }
    // what the user does before it answers; the deferred call is due when the answer is out
    fn enter(&mut self, what: &str, u: Uuid, c: &Con) -> (K, bool) {
        let k = self.call(what, Some((u, c)), true);
        if k.d(2) % 3 == 0 { self.queue.push((u, Some(me(k.d(20))), None, k.d(21) % 2 == 0)); }
        if k.d(6) % 3 == 0 { self.queue.push((u, None, Some(role(k.d(22))), k.d(23) % 2 == 0)); }
        if k.d(7) % 8 == 0 {
            match k.d(8) % 4 {
                0 => { let _ = self.send(u, 0, a_news(news(k))); }
                1 => { self.log.push(Ev::Disc(Uuid::from_u128(99))); }
                _ => { let l = self.recipients(k, 9, u); self.bcast(l, a_news(news(k))); }
            }
        }
        (k, k.d(1) % 3 == 0)
    }
    fn later(&mut self, d: bool) { if d { self.log.push(Ev::Deferred); } }
    fn error(&mut self, what: &str, u: Option<Uuid>, with: bool) -> R {
        let c = if with { u.and_then(|u| self.cons.get(&u).cloned()) } else { None };
        let k = self.call(&format!("error {} {:?}", what, u), c.as_ref().map(|c| (u.unwrap(), c)), false);
        if k.fatal() { Err(()) } else { Ok(()) }
    }
    fn disc(&mut self, u: Uuid) -> R {
        let c = self.cons.get_mut(&u).unwrap();
        if c.disc { return Ok(()); }
        c.disc = true;
        self.log.push(Ev::Disc(u));
        if self.fails(&format!("{}", u)) { Err(()) } else { Ok(()) }
    }
    fn failed(&mut self, u: Uuid) -> R {
        use prod::ConsumerErrorHandelingStrategy::*;
        let known = self.cons.contains_key(&u);
        if known && matches!(self.opt.err, Disconnect | EmitErrorAndDisconnect) { self.disc(u)?; }
        if matches!(self.opt.err, EmitError | EmitErrorAndDisconnect) { self.error("ResponsingError", Some(u), known)?; }
        Ok(())
    }
    fn refuse(&mut self, what: &str, u: Uuid) -> R { self.disc(u)?; self.error(what, Some(u), true) }
    fn settle(&mut self) -> R {
        for (u, k, a, o) in std::mem::take(&mut self.queue) {
            match self.cons.get_mut(&u) {
                Some(c) => {
                    if let Some(k) = k { c.key = Some(merge_key(&c.key, k, o)); }
                    if let Some(a) = a { c.assigned = Some(merge_role(&c.assigned, a, o)); }
                }
                None => self.error("ConsumerError", Some(u), false)?,
            }
        }
        Ok(())
    }
    fn connect(&mut self, u: Uuid) -> R {
        if self.cons.contains_key(&u) { return Err(()); }
        let c = Con { key: None, assigned: None, disc: false, hash: false, confirmed: false, buf: 0, garbage: false };
        let (k, d) = self.enter("connected ", u, &c);
        if k.ok() { let l = self.recipients(k, 4, u); if k.maybe(4, ()).is_some() { self.bcast(l, a_alarm(alarm(k))); } self.later(d); }
        self.cons.insert(u, c);
        self.cons.get_mut(&u).unwrap().confirmed = true;
        self.send(u, 0, a_svc(S::AvailableMessages::ConnectConfirmationBeacon(S::ConnectConfirmationBeacon {})))?;
        self.settle()
    }
    fn disconnect(&mut self, u: Uuid) -> R {
        if let Some(c) = self.cons.remove(&u) {
            let (k, d) = self.enter("disconnected ", u, &c);
            if k.ok() {
                let (a, b) = (self.recipients(k, 4, u), self.recipients(k, 5, u));
                self.bcast(a, a_news(news(k)));
                if k.maybe(5, ()).is_some() { self.bcast(b, a_alarm(alarm(k))); }
                self.later(d);
            }
        }
        self.settle()
    }
    fn alert(&mut self, t: &protocol::Alert) -> R {
        let k = self.call(&format!("alert {:?}", t), None, true);
        if k.ok() {
            let u = Uuid::from_u128(7);
            let (a, b) = (self.recipients(k, 4, u), self.recipients(k, 5, u));
            if k.maybe(4, ()).is_some() { self.bcast(a, a_news(news(k))); }
            self.bcast(b, a_alarm(alarm(k)));
            self.later(k.d(1) % 3 == 0);
        }
        self.settle()
    }
    fn kick(&mut self, t: &protocol::Kick) -> R {
        let k = self.call(&format!("kick {:?}", t), None, true);
        if k.ok() {
            let a = self.recipients(k, 4, Uuid::from_u128(7));
            self.bcast(a, a_news(news(k)));
            self.later(k.d(1) % 3 == 0);
        }
        self.settle()
    }
    fn received(&mut self, u: Uuid, msgs: &[(Msg, u32)], garbage: bool) -> R {
        if !self.cons.contains_key(&u) { self.failed(u)?; return self.settle(); }
        if self.cons[&u].disc { return Ok(()); }
        if garbage { self.failed(u)?; return self.settle(); }
        for (m, q) in msgs {
            if self.cons[&u].disc { break; }
            self.message(u, m, *q)?;
        }
        self.settle()
    }
    fn message(&mut self, u: Uuid, m: &Msg, q: u32) -> R {
        let c = self.cons[&u].clone();
        match m {
            Msg::Key(k) if !c.hash => {
                self.cons.get_mut(&u).unwrap().key = Some(k.clone());
                if self.send(u, q, a_svc(S::AvailableMessages::SelfKeyResponse(S::SelfKeyResponse { uuid: u.to_string() }))).is_err() { self.failed(u)?; }
            }
            Msg::Hash(p, w) => {
                let valid = p == hash::PROTOCOL && w == hash::WORKFLOW;
                if valid { self.cons.get_mut(&u).unwrap().hash = true; }
                if self.send(u, q, a_svc(S::AvailableMessages::HashResponse(S::HashResponse { error: if valid { None } else { Some("Hash is invalid".to_string()) } }))).is_err() { self.failed(u)?; }
                if !valid { self.refuse(&format!("NoConsumerKey {}", u), u)?; }
            }
            m => {
                use prod::ProducerIdentificationStrategy::*;
                let lax = c.assigned.is_some() || matches!(self.opt.ident, Ignore | Log);
                if !c.hash || c.key.is_none() { self.refuse(&format!("NoConsumerKey {}", u), u)?; }
                else if !lax {
                    if matches!(self.opt.ident, Disconnect | EmitErrorAndDisconnect) { self.disc(u)?; }
                    if matches!(self.opt.ident, EmitError | EmitErrorAndDisconnect) { self.error(&format!("NoAssignedConsumer {}", u), Some(u), true)?; }
                } else { self.dispatch(u, &c, m, q)?; }
            }
        }
        Ok(())
    }
    fn dispatch(&mut self, u: Uuid, c: &Con, m: &Msg, q: u32) -> R {
        let (r, d, b) = match m {
            Msg::Ping(r) => { let (k, d) = self.enter(&format!("ping {:?}", r), u, c); (if k.ok() { a_pong(pong(k)) } else { a_fault(fault(k)) }, d, vec![]) }
            Msg::Bell(r) => {
                let (k, d) = self.enter(&format!("bell {:?}", r), u, c);
                if !k.ok() { (a_fault(fault(k)), d, vec![]) } else {
                    let mut b = vec![(self.recipients(k, 4, u), a_news(news(k)))];
                    if k.maybe(5, ()).is_some() { b.push((self.recipients(k, 5, u), a_alarm(alarm(k)))); }
                    (a_pong(pong(k)), d, b)
                }
            }
            Msg::Ask(r) => { let (k, d) = self.enter(&format!("chat_deep_ask {:?}", r), u, c); (if !k.ok() { a_fault(fault(k)) } else if k.d(3) % 2 == 0 { a_ans(answer(k)) } else { a_pong(pong(k)) }, d, vec![]) }
            Msg::Chat(r) => {
                let (k, d) = self.enter(&format!("chat_message {:?}", r), u, c);
                if !k.ok() { (a_den(denied(k)), d, vec![]) } else {
                    match k.d(3) % 3 {
                        0 => (a_acc(accepted(k)), d, vec![(self.recipients(k, 4, u), a_news(news(k))), (self.recipients(k, 5, u), a_alarm(alarm(k)))]),
                        1 => (a_den(denied(k)), d, vec![]),
                        _ => { let mut b = vec![(self.recipients(k, 4, u), a_note(note(k)))]; if k.maybe(5, ()).is_some() { b.push((self.recipients(k, 5, u), a_news(news(k)))); } (a_pong(pong(k)), d, b) }
                    }
                }
            }
            Msg::Beat(_) | Msg::Note(_) => {
                let s = match m { Msg::Beat(r) => format!("beat {:?}", r), Msg::Note(r) => format!("chat_deep_note {:?}", r), _ => unreachable!() };
                let (k, d) = self.enter(&s, u, c);
                if k.ok() && self.send(u, q, a_svc(S::AvailableMessages::BeaconConfirmation(S::BeaconConfirmation { error: None }))).is_ok() { self.later(d); }
                else { self.error("BeaconEmitterError", Some(u), true)?; }
                return Ok(());
            }
            _ => return Ok(()),
        };
        if self.send(u, q, r).is_err() { return self.failed(u); }
        for (to, m) in b { self.bcast(to, m); }
        self.later(d);
        Ok(())
    }
}

// ---- scenarios
struct Rng(u64);
impl Rng { fn n(&mut self, m: u64) -> u64 { self.0 = mix(self.0, 77); (self.0 >> 11) % m } }
#[derive(Clone, Debug)]
enum Step { Connect(Uuid), Disconnect(Uuid), Chunk(Uuid, Vec<u8>, Vec<(Msg, u32)>, bool), Alert(protocol::Alert), Kick(protocol::Kick), SrvError(Option<Uuid>), ConnError(Option<Uuid>), Broken }
// a pair of hashes of which at least one is close to the right one and wrong
fn wrong(r: &mut Rng) -> Msg {
    fn near(r: &mut Rng, h: &str, o: &str) -> String {
        let k = r.n(h.len() as u64) as usize;
        match r.n(9) {
            0 => String::new(),
            1 => h[..k].to_string(),
            2 => h[k + 1..].to_string(),
            3 => format!("{}0", h),
            4 => format!("{}{}{}", &h[..k], if &h[k..k + 1] == "0" { "1" } else { "0" }, &h[k + 1..]),
            5 => if h.to_lowercase() == h { h.to_uppercase() } else { h.to_lowercase() },
            6 => o.to_string(),
            7 => format!(" {}", h),
            _ => format!("{}{}", h, o),
        }
    }
    let (p, w) = (hash::PROTOCOL, hash::WORKFLOW);
    match r.n(5) {
        0 | 1 => Msg::Hash(near(r, p, w), w.to_string()),
        2 | 3 => Msg::Hash(p.to_string(), near(r, w, p)),
        _ => Msg::Hash(near(r, p, w), near(r, w, p)),
    }
}
fn message(r: &mut Rng, likely: u64) -> Msg {
    match if r.n(3) > 0 { likely } else { r.n(12) } {
        0 => Msg::Key(me(r.n(1 << 40))),
        1 => if r.n(6) == 0 { wrong(r) } else { Msg::Hash(hash::PROTOCOL.to_string(), hash::WORKFLOW.to_string()) },
        2 => if r.n(4) == 0 { wrong(r) } else { Msg::Other(r.n(5)) },
        4 => Msg::Bell(protocol::Bell { n: r.n(100) as u32 }),
        3 => Msg::Ping(protocol::Ping { n: r.n(100) as u32 }),
        5 | 6 => Msg::Chat(protocol::Chat::Message { text: txt(r.n(5)) }),
        7 | 8 => Msg::Ask(protocol::Chat::Deep::Ask { n: r.n(100) as u32 }),
        9 => Msg::Beat(protocol::Beat { n: r.n(100) as u32 }),
        10 => Msg::Note(protocol::Chat::Deep::Note { text: txt(r.n(5)) }),
        _ => Msg::Other(r.n(5)),
    }
}
fn bytes(m: &Msg, q: u32) -> Vec<u8> {
    match m.clone() {
        Msg::Key(mut k) => pack(&mut k, q),
        Msg::Hash(protocol, workflow) => pack(&mut S::HashRequest { protocol, workflow }, q),
        Msg::Bell(mut x) => pack(&mut x, q), Msg::Ping(mut x) => pack(&mut x, q), Msg::Chat(mut x) => pack(&mut x, q), Msg::Ask(mut x) => pack(&mut x, q), Msg::Beat(mut x) => pack(&mut x, q), Msg::Note(mut x) => pack(&mut x, q),
        Msg::Other(0) => pack(&mut protocol::Pong { n: 1 }, q),
        Msg::Other(1) => pack(&mut protocol::News { text: String::from("n") }, q),
        Msg::Other(2) => pack(&mut role(5), q),
        Msg::Other(3) => pack(&mut protocol::Chat::Denied { reason: String::new() }, q),
        Msg::Other(_) => pack(&mut S::SelfKeyResponse { uuid: String::new() }, q),
    }
}
struct Peer { pend: Vec<u8>, queue: Vec<(Msg, u32, usize)>, stage: u64, dead: bool }  // the bytes not handed over yet, and where its packets end
fn scenario(r: &mut Rng) -> (Opt, u64, Vec<Step>) {
    use prod::{ConsumerErrorHandelingStrategy as E, ProducerIdentificationStrategy as I};
    let opt = Opt {
        ident: [I::Log, I::EmitError, I::Disconnect, I::EmitErrorAndDisconnect, I::Ignore][r.n(5) as usize].clone(),
        err: [E::EmitError, E::Disconnect, E::EmitErrorAndDisconnect, E::Log][r.n(4) as usize].clone(),
    };
    let rough = r.n(3);
    let mut peers: BTreeMap<Uuid, Peer> = BTreeMap::new();
    let mut steps = vec![];
    let n = 5 + r.n(35);
    for _ in 0..n {
        let u = Uuid::from_u128(1 + r.n(5) as u128);
        match r.n(24) {
            0 => steps.push(if r.n(2) == 0 { Step::Alert(protocol::Alert { text: txt(r.n(5)) }) } else { Step::Kick(protocol::Kick { text: txt(r.n(5)) }) }),
            1 => if r.n(3) == 0 { peers.remove(&u); steps.push(Step::Disconnect(u)) },
            2 => if r.n(3) == 0 { steps.push(match r.n(3) { 0 => Step::SrvError(if r.n(2) == 0 { Some(u) } else { None }), 1 => Step::ConnError(if r.n(2) == 0 { Some(u) } else { None }), _ => Step::Broken }) },
            3 => if !peers.contains_key(&u) || r.n(12) == 0 { peers.entry(u).or_insert(Peer { pend: vec![], queue: vec![], stage: 0, dead: false }); steps.push(Step::Connect(u)) },
            _ => match peers.get_mut(&u) {
                None => if r.n(8) == 0 { steps.push(Step::Chunk(u, vec![1, 2, 3], vec![], false)) } else { peers.insert(u, Peer { pend: vec![], queue: vec![], stage: 0, dead: false }); steps.push(Step::Connect(u)) },
                Some(p) => {
                    if p.dead { continue; }
                    for _ in 0..r.n(5) {
                        let likely = if p.stage < 2 { p.stage } else { 3 + r.n(8) };
                        let m = message(r, likely);
                        match m { Msg::Key(_) if p.stage == 0 => p.stage = 1, Msg::Hash(_, _) if p.stage == 1 => p.stage = 2, _ => {} }
                        let q = if r.n(5) == 0 { 0 } else { r.n(1 << 32) as u32 };
                        p.pend.extend(bytes(&m, q));
                        let e = p.pend.len();
                        p.queue.push((m, q, e));
                    }
                    if p.pend.is_empty() {
                        if r.n(10) == 0 { // a packet of an unknown message
                            let mut b = pack(&mut protocol::Pong { n: 3 }, 3);
                            b[0] = 0xEE; b[1] = 0xEE; b[2] = 0xEE; b[3] = 0xEE;
                            p.dead = true;
                            steps.push(Step::Chunk(u, b, vec![], true));
                        }
                        continue;
                    }
                    let cut = if r.n(2) == 0 { p.pend.len() } else { r.n(p.pend.len() as u64 + 1) as usize };
                    let b: Vec<u8> = p.pend.drain(..cut).collect();
                    let done: Vec<(Msg, u32)> = p.queue.iter().filter(|x| x.2 <= cut).map(|x| (x.0.clone(), x.1)).collect();
                    p.queue.retain(|x| x.2 > cut);
                    for x in p.queue.iter_mut() { x.2 -= cut; }
                    steps.push(Step::Chunk(u, b, done, false));
                }
            },
        }
    }
    (opt, rough, steps)
}

async fn turns() { for _ in 0..8 { tokio::task::yield_now().await; } }
// the first difference: its class and its text
async fn drive(seed: u64, opt: Opt, rough: u64, steps: Vec<Step>, seen: &mut HashSet<u64>, mode: u8) -> Option<(u8, String)> {
    W.with(|w| *w.borrow_mut() = World { seed, unit: 0, ord: 0, rough, log: vec![], events: None, down: 0, life: Life::default(), ask: None });
    let (tx, rx) = unbounded_channel();
    let mut o = producer::Options::new();
    o.producer_indentification_strategy(opt.ident.clone());
    o.consumer_error_handeling_strategy(opt.err.clone());
    let mut m = Model { seed, unit: 0, ord: 0, rough, log: vec![], cons: BTreeMap::new(), opt: opt.clone(), queue: vec![] };
    let ended = std::cell::Cell::new(false);
    let (_, res) = tokio::join!(
        async { let r = producer::run(Srv { rx: Some(rx), ends: None }, o, producer::Context::new()).await; ended.set(true); r.is_ok() },
        async {
            let mut trail: Vec<String> = vec![];
            tx.send(server::Events::Ready).ok();
            turns().await;
            let events = W.with(|w| w.borrow_mut().events.take());
            let mut res = if events.is_none() { Some((if mode == 6 { 6 } else { 2 }, String::from("the ready event did not come"))) } else { None };
            let events = match events { Some(e) => e, None => { drop(tx); return res; } };
            for (i, s) in steps.iter().enumerate() {
                W.with(|w| { let mut w = w.borrow_mut(); w.unit = i as u64 + 1; w.ord = 0; w.log.clear(); });
                m.unit = i as u64 + 1; m.ord = 0; m.log.clear();
                trail.push(match s { Step::Chunk(u, b, d, g) => format!("{} bytes from {} with {:?}{}", b.len(), &u.to_string()[32..], d, if *g { " (an unknown message)" } else { "" }), s => format!("{:?}", s) });
                let r = match s.clone() {
                    Step::Connect(u) => { tx.send(server::Events::Connected(u)).ok(); m.connect(u) }
                    Step::Disconnect(u) => { tx.send(server::Events::Disconnected(u)).ok(); m.disconnect(u) }
                    Step::Chunk(u, b, d, g) => { tx.send(server::Events::Received(u, b)).ok(); m.received(u, &d, g) }
                    Step::Alert(a) => { events.alert(a.clone()).await.ok(); m.alert(&a) }
                    Step::Kick(a) => { events.kick(a.clone()).await.ok(); m.kick(&a) }
                    Step::SrvError(u) => { tx.send(server::Events::Error(u, String::from("e"))).ok(); let r = m.error("ConsumerError", u, true); r.and_then(|_| m.settle()) }
                    Step::ConnError(u) => { tx.send(server::Events::ConnectionError(u, SrvErr)).ok(); let r = m.error("ConnectionError", u, true); r.and_then(|_| m.settle()) }
                    Step::Broken => { tx.send(server::Events::ServerError(SrvErr)).ok(); let r = m.error("ServerError", None, false); r.and_then(|_| m.settle()) }
                };
                if r.is_err() { m.call("shutdown", None, false); }
                turns().await;
                let real = W.with(|w| w.borrow().log.clone());
                seen.insert(mix_s(0, &format!("{:?}", real.iter().map(|e| match e { Ev::Call(a, _) => a.split(' ').next().unwrap_or("").to_string(), Ev::Send(_, _) => "S".into(), Ev::Disc(_) => "D".into(), Ev::Deferred => "L".into() }).collect::<Vec<String>>())));
                let calls = |l: &Vec<Ev>| l.iter().filter_map(|e| match e { Ev::Call(a, _) => Some(a.clone()), Ev::Disc(u) => Some(u.to_string()), _ => None }).collect::<Vec<String>>();
                let ids = |l: &Vec<Ev>| l.iter().filter_map(|e| match e { Ev::Call(_, b) => Some(b.clone()), _ => None }).collect::<Vec<String>>();
                // what the user hears of connections and errors, and who is confirmed
                let heard = |l: &Vec<Ev>| l.iter().filter_map(|e| match e {
                    Ev::Call(a, _) if ["connected", "disconnected", "error", "ready", "shutdown"].iter().any(|x| a.starts_with(x)) => Some(a.clone()),
                    Ev::Send(u, s) if confirmation(s) => Some(format!("{:?} confirmed {}", u, s)),
                    _ => None,
                }).collect::<Vec<String>>();
                if mode == 6 {
                    if heard(&real) != heard(&m.log) || ended.get() != r.is_err() {
                        res = Some((6, format!("options {:?} {:?}; steps {:?}; the last step is heard of as {:?}{}; expected {:?}{}", opt.ident, opt.err, trail, heard(&real), if ended.get() { " and the producer ended" } else { "" }, heard(&m.log), if r.is_err() { " and the end" } else { "" })));
                    }
                } else if real != m.log || ended.get() != r.is_err() {
                    let class = if calls(&real) != calls(&m.log) || ended.get() != r.is_err() { 4 } else if ids(&real) != ids(&m.log) { 1 } else { 2 };
                    res = Some((class, format!("options {:?} {:?}; steps {:?}; last step seen as {:?}{}; expected {:?}{}", opt.ident, opt.err, trail, real, if ended.get() { " and the producer ended" } else { "" }, m.log, if r.is_err() { " and the producer ends" } else { "" })));
                }
                if res.is_some() || r.is_err() { break; }
            }
            tx.send(server::Events::Shutdown).ok();
            turns().await;
            res
        }
    );
    res
}

// the ways a producer ends
async fn ending(r: &mut Rng) -> Option<String> {
    let kind = r.n(10);
    let l = Life { on: true, ready_err: r.n(9) == 0, down_err: r.n(4) == 0, shut_err: r.n(4) == 0, fatal: kind == 7, blind: kind == 8 };
    let n = r.n(4);
    W.with(|w| *w.borrow_mut() = World { seed: r.0, unit: 0, ord: 0, rough: 0, log: vec![], events: None, down: 0, life: l, ask: None });
    let (tx, rx) = unbounded_channel();
    let (ends, end) = tokio::sync::oneshot::channel();
    let res = std::cell::Cell::new(None);
    let run = async { let r = producer::run(Srv { rx: Some(rx), ends: Some(end) }, producer::Options::new(), producer::Context::new()).await; res.set(Some(r.is_ok())); futures::future::pending::<()>().await };
    let (mut tx, mut ends) = (Some(tx), Some(ends));
    let script = async {
        tx.as_ref().unwrap().send(server::Events::Ready).ok();
        turns().await;
        for i in 0..n { tx.as_ref().unwrap().send(server::Events::Connected(Uuid::from_u128(1 + i as u128))).ok(); }
        turns().await;
        if n > 1 { tx.as_ref().unwrap().send(server::Events::Disconnected(Uuid::from_u128(1))).ok(); }
        turns().await;
        let mut told = None;
        if !l.ready_err && kind != 8 {
            if res.get().is_some() { return Some(String::from("it ended before it was asked to")); }
            let ask = match W.with(|w| w.borrow_mut().ask.take()) { Some(a) => a, None => return Some(String::from("the ready event did not come")) };
            match kind {
                0 => { tx.as_ref().unwrap().send(server::Events::Shutdown).ok(); }
                1 => { tx.take(); }
                2 => { told = Some(ask(false).await); }
                3 => { told = tokio::select! { x = ask(true) => Some(x), _ = async { for _ in 0..12 { turns().await } } => Some(false) }; }
                9 => { tokio::select! { biased; _ = ask(true) => {}, _ = std::future::ready(()) => {} } }
                4 | 5 => { ends.take().unwrap().send(kind == 4).ok(); }
                6 => { for _ in 0..2 { tx.as_ref().unwrap().send(server::Events::Connected(Uuid::from_u128(77))).ok(); } }
                _ => { tx.as_ref().unwrap().send(server::Events::ServerError(SrvErr)).ok(); }
            }
        }
        for _ in 0..8 { turns().await; }
        let real: Vec<String> = W.with(|w| w.borrow().log.iter().filter_map(|e| match e { Ev::Call(a, _) => Some(a.split(' ').next().unwrap_or("").to_string()), _ => None }).collect());
        let mut want: Vec<&str> = vec![];
        if kind != 8 {
            want.push("ready");
            if !l.ready_err {
                for _ in 0..n { want.push("connected"); }
                if n > 1 { want.push("disconnected"); }
                if kind == 6 { want.push("connected"); }
                if kind == 7 { want.push("error"); }
            }
            want.push("shutdown");
        }
        let ok = !(l.shut_err || l.ready_err || (kind > 4 && kind != 9));
        let down = W.with(|w| w.borrow().down);
        if real != want { return Some(format!("the user hears {:?} instead of {:?}", real, want)); }
        if res.get() != Some(ok) { return Some(format!("run gives {:?} (Some(true): Ok) instead of {:?}", res.get(), Some(ok))); }
        if kind != 8 && down != 1 { return Some(format!("the server is told to stop {} times", down)); }
        if told == Some(false) { return Some(String::from("who asked for the shutdown gets no answer or an error")); }
        None
    };
    let x = tokio::select! { _ = run => unreachable!(), x = script => x };
    x.map(|t| format!("{} connections, then {}, {:?}: {}", n, ["the server shuts down", "its events end", "a shutdown is asked for", "a shutdown is asked for and waited for", "the server ends", "the server fails", "a consumer connects twice", "an error the user does not handle", "a server without events", "a shutdown is asked for by someone who does not wait for the answer"][kind as usize], l, t))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<String>>().join(",")) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, ms, out) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u128>().unwrap(), a[4].clone());
    let class: u8 = mode[1..].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..6u64).map(|t| std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let mut r = Rng(mix(seed, 1000 + t));
        let (mut n, mut seen, mut fails, mut samples, mut other) = (0u64, HashSet::new(), vec![], vec![], [0u64; 8]);
        while t0.elapsed().as_millis() < ms && fails.len() < 3 {
            let (opt, rough, steps) = scenario(&mut r);
            let s = r.n(1 << 50);
            n += 1;
            if samples.len() < 2 { samples.push(format!("{:?} {:?} {} steps: {:?}", opt.ident, opt.err, steps.len(), steps.iter().take(3).collect::<Vec<&Step>>()).chars().take(400).collect::<String>()); }
            if class == 6 && n % 2 == 0 {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(ending(&mut r)))) {
                    Err(_) => fails.push(String::from("the producer panics when it ends")),
                    Ok(Some(t)) => fails.push(t.chars().take(3000).collect()),
                    Ok(None) => {}
                }
                continue;
            }
            let st = steps.clone();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(drive(s, opt, rough, steps, &mut seen, class))));
            match x {
                Err(_) => fails.push(format!("the producer panics on {:?}", st).chars().take(3000).collect()),
                Ok(Some((c, t))) => { other[c as usize] += 1; if c == class { fails.push(t.chars().take(6000).collect::<String>()) } else if other[c as usize] > 50 { break; } }
                Ok(None) => {}
            }
        }
        (n, seen, fails, samples, other)
    })).collect();
    let (mut n, mut seen, mut fails, mut samples, mut other) = (0, HashSet::new(), vec![], vec![], [0u64; 8]);
    for h in hs { let (a, b, c, d, e) = h.join().unwrap(); n += a; seen.extend(b); fails.extend(c); samples.extend(d); for i in 0..8 { other[i] += e[i]; } }
    fails.truncate(3);
    samples.truncate(4);
    std::fs::write(out, format!("{{\"evaluations\":{},\"distinct\":{},\"failures\":{},\"samples\":{},\"notes\":{{\"scenarios\":{},\"differences of other properties\":{}}}}}", n, seen.len(), list(&fails), list(&samples), n, other.iter().enumerate().filter(|(i, _)| *i as u8 != class).map(|(_, x)| x).sum::<u64>())).unwrap();
}
