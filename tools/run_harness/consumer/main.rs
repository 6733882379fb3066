// Runs the consumer generated from the reference workflow against a scripted connection, and compares what the
// handlers of the user, the calls and the producer see with an independent model of the consumer.
#![allow(unused, non_snake_case, dead_code)]
mod consumer;
pub mod user;
use clibri::client;
use consumer::implementation::consumer::{connect, controller, hash, options::{Options, ReconnectionStrategy}, ConsumerGetter};
use consumer::{protocol, Consumer, ConsumerError};
use protocol::{AvailableMessages as A, InternalServiceGroup::AvailableMessages as S, PackingStruct};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use user::*;

// ---- the connection
#[derive(Clone, Debug)]
pub struct CErr;
impl std::fmt::Display for CErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "scripted") } }
impl std::error::Error for CErr {}
impl client::Error for CErr {}
pub type Feed = UnboundedSender<client::Event<CErr>>;
#[derive(Clone, Debug)]
struct Ctl;
fn show(b: &[u8]) -> String {
    let mut r = protocol::Buffer::<A>::new();
    let x = r.chunk(&b.to_vec(), None).map(|_| ()).map_err(|_| ());
    let mut o = String::new();
    while let Some(m) = r.next() { o += &format!("#{} {:?}", m.header.sequence, m.msg); }
    format!("{}{}{}", o, if x.is_err() { " bad" } else { "" }, if r.len() > 0 { " rest" } else { "" })
}
#[async_trait::async_trait]
impl client::Control<CErr> for Ctl {
    async fn shutdown(&self) -> Result<(), CErr> { W.with(|w| w.borrow_mut().out.push(String::from("shutdown"))); Ok(()) }
    async fn send(&self, msg: client::Message) -> Result<(), CErr> {
        let s = match msg { client::Message::Binary(b) => show(&b), m => format!("{:?}", m) };
        W.with(|w| { let mut w = w.borrow_mut(); w.out.push(s); if w.fail { Err(CErr) } else { Ok(()) } })
    }
}
struct Con;
#[async_trait::async_trait]
impl client::Impl<CErr, Ctl> for Con {
    async fn connect(&mut self) -> Result<(), CErr> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        W.with(|w| w.borrow_mut().end = Some(tx));
        match rx.await { Ok(true) => Ok(()), _ => Err(CErr) }
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<CErr>>, CErr> {
        let (tx, rx) = unbounded_channel();
        W.with(|w| { let mut w = w.borrow_mut(); w.feed = Some(tx); w.listens += 1; });
        Ok(rx)
    }
    fn control(&self) -> Ctl { Ctl }
}

// ---- the script
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0xD1B54A32D192ED03).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
struct Rng(u64);
impl Rng { fn n(&mut self, m: u64) -> u64 { self.0 = mix(self.0, 77); (self.0 >> 11) % m } }
fn txt(d: u64) -> String { ["b", "a", "text", "\u{1F600}", "longer text of a message"][(d % 5) as usize].to_string() }
#[derive(Clone, Debug)]
enum Call { Ping(u32), Bell(u32), Chat(String), Ask(u32), Beat(u32), Note(String) }
// whose sequence an incoming message carries
#[derive(Clone, Debug)]
enum To { Slot(usize), Seq(u32) }
#[derive(Clone, Debug)]
enum Step { Call(Call, bool), In(Vec<(To, A)>, Vec<u64>), Text, Error, Disconnected, Connected, Wait, Drop(bool), Shutdown, Stranger, Leave(u32, u64) }
fn msg(r: &mut Rng) -> A {
    let d = r.n(1 << 30);
    match r.n(14) {
        0 | 1 => A::Pong(protocol::Pong { n: d as u32 }),
        2 => A::Fault(protocol::Fault { error: txt(d) }),
        3 => A::Chat(protocol::Chat::AvailableMessages::Accepted(protocol::Chat::Accepted { id: d as u32 })),
        4 => A::Chat(protocol::Chat::AvailableMessages::Denied(protocol::Chat::Denied { reason: txt(d) })),
        5 => A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Answer(protocol::Chat::Deep::Answer { n: d as u32 }))),
        6 | 7 => A::News(protocol::News { text: txt(d) }),
        8 => A::Alarm(protocol::Alarm { code: d as u32 }),
        9 => A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Note(protocol::Chat::Deep::Note { text: txt(d) }))),
        10 => A::InternalServiceGroup(S::BeaconConfirmation(protocol::InternalServiceGroup::BeaconConfirmation { error: if d % 2 == 0 { None } else { Some(txt(d)) } })),
        11 => A::Beat(protocol::Beat { n: d as u32 }),
        12 => A::InternalServiceGroup(S::HashResponse(protocol::InternalServiceGroup::HashResponse { error: None })),
        _ => A::Ping(protocol::Ping { n: d as u32 }),
    }
}
fn fitting(r: &mut Rng, c: &Call) -> A {
    let d = r.n(1 << 30);
    match c {
        Call::Ping(_) | Call::Bell(_) => if d % 3 > 0 { A::Pong(protocol::Pong { n: d as u32 }) } else { A::Fault(protocol::Fault { error: txt(d) }) },
        Call::Chat(_) => match d % 3 { 0 => A::Chat(protocol::Chat::AvailableMessages::Accepted(protocol::Chat::Accepted { id: d as u32 })), 1 => A::Chat(protocol::Chat::AvailableMessages::Denied(protocol::Chat::Denied { reason: txt(d) })), _ => A::Pong(protocol::Pong { n: d as u32 }) },
        Call::Ask(_) => match d % 3 { 0 => A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Answer(protocol::Chat::Deep::Answer { n: d as u32 }))), 1 => A::Pong(protocol::Pong { n: d as u32 }), _ => A::Fault(protocol::Fault { error: txt(d) }) },
        _ => A::InternalServiceGroup(S::BeaconConfirmation(protocol::InternalServiceGroup::BeaconConfirmation { error: if d % 2 == 0 { None } else { Some(txt(d)) } })),
    }
}
const U: &str = "936DA01F-9ABD-4D9D-80C7-02AF85C822A8";
fn confirm() -> A { A::InternalServiceGroup(S::ConnectConfirmationBeacon(protocol::InternalServiceGroup::ConnectConfirmationBeacon {})) }
fn self_key(u: &str) -> A { A::InternalServiceGroup(S::SelfKeyResponse(protocol::InternalServiceGroup::SelfKeyResponse { uuid: u.to_string() })) }
fn hash_ok(e: Option<String>) -> A { A::InternalServiceGroup(S::HashResponse(protocol::InternalServiceGroup::HashResponse { error: e })) }
// the handshake, rarely a broken one
fn handshake(r: &mut Rng, steps: &mut Vec<Step>) {
    if r.n(3) == 0 { steps.push(Step::Connected); }
    steps.push(Step::In(vec![(To::Seq(r.n(9) as u32), confirm())], vec![]));
    let x = r.n(24);
    if x == 0 { steps.push(Step::In(vec![(To::Seq(1), msg(r))], vec![])); return; }
    if r.n(6) == 0 { steps.push(Step::In(vec![(To::Seq([0, 2, 5, 11][r.n(4) as usize]), msg(r))], vec![])); }
    steps.push(Step::In(vec![(To::Seq(1), self_key(if x == 1 { "nothing" } else { U }))], vec![]));
    if r.n(6) == 0 { steps.push(Step::In(vec![(To::Seq([0, 1, 5, 11][r.n(4) as usize]), msg(r))], vec![])); }
    if x == 2 { steps.push(Step::In(vec![(To::Seq(2), msg(r))], vec![])); return; }
    steps.push(Step::In(vec![(To::Seq(2), hash_ok(if x == 3 { Some(txt(r.n(9))) } else { None }))], vec![]));
}
fn scenario(r: &mut Rng) -> (bool, u64, bool, Vec<Step>) {
    let (slow, recon, again) = (r.n(250) == 0, if r.n(4) == 0 { 1 } else { 0 }, r.n(4) > 0);
    let mut steps = vec![];
    if r.n(15) > 0 { handshake(r, &mut steps); }
    let mut calls: Vec<Call> = vec![];
    let mut open: Vec<usize> = vec![];
    for _ in 0..2 + r.n(12) {
        match r.n(24) {
            0..=8 => {
                let d = r.n(1 << 20);
                let c = match r.n(6) { 0 => Call::Ping(d as u32), 1 => Call::Bell(d as u32), 2 => Call::Chat(txt(d)), 3 => Call::Ask(d as u32), 4 => Call::Beat(d as u32), _ => Call::Note(txt(d)) };
                open.push(calls.len());
                calls.push(c.clone());
                steps.push(Step::Call(c, r.n(60) == 0));
            }
            9..=18 => {
                let mut v = vec![];
                for _ in 0..1 + r.n(4) {
                    let x = r.n(8);
                    if x < 5 && open.len() > 0 {
                        let i = r.n(open.len() as u64) as usize;
                        let s = if r.n(5) > 0 { open.remove(i) } else { open[i] };
                        v.push((To::Slot(s), if r.n(8) == 0 { msg(r) } else { fitting(r, &calls[s]) }));
                    } else if x == 5 && calls.len() > 0 { v.push((To::Slot(r.n(calls.len() as u64) as usize), msg(r))); }
                    else { v.push((To::Seq([0, 0, 0, 3, 10, 9999][r.n(6) as usize]), msg(r))); }
                }
                let cuts = (0..r.n(3)).map(|_| r.n(1 << 16)).collect();
                steps.push(Step::In(v, cuts));
            }
            19 => steps.push(match r.n(5) { 0 => Step::Text, 1 => Step::Error, 2 => Step::Connected, 3 => Step::Stranger, _ => Step::Disconnected }),
            20 => if slow { steps.push(Step::Wait); } else if r.n(4) == 0 { steps.push(Step::Leave(r.n(1 << 20) as u32, r.n(2))); },
            21 => if r.n(6) == 0 { steps.push(Step::Shutdown); } else if recon > 0 && r.n(2) == 0 { steps.push(Step::Drop(r.n(6) > 0)); handshake(r, &mut steps); },
            22 => if r.n(6) == 0 { steps.push(Step::Drop(r.n(3) > 0)); },
            _ => if r.n(6) == 0 { handshake(r, &mut steps); },
        }
    }
    if slow { steps.push(Step::Wait); if open.len() > 0 { let s = open[0]; steps.push(Step::In(vec![(To::Slot(s), fitting(r, &calls[s])), (To::Seq(0), msg(r))], vec![])); } }
    (slow, recon, again, steps)
}

// ---- the model
#[derive(Clone, Debug, PartialEq)]
enum Waits { Key, Hash(String), Slot(usize) }
struct Model { calls: Vec<String>, out: Vec<String>, slots: Vec<Option<String>>, seqs: Vec<u32>, what: Vec<Call>, pend: BTreeMap<u32, Waits>, n: u32, alive: bool, recon: u64, again: bool, listens: usize, late: Vec<String> }
fn key() -> protocol::Auth::Me { protocol::Auth::Me { uuid: Some(String::from("me")), id: None, level: 3, tags: None } }
fn answer(c: &Call, m: &A) -> String {
    use protocol::Chat::AvailableMessages as C;
    use protocol::Chat::Deep::AvailableMessages as D;
    match (c, m) {
        (Call::Ping(_), A::Pong(x)) => format!("Response {:?}", x),
        (Call::Bell(_), A::Pong(x)) => format!("Ring {:?}", x),
        (Call::Ping(_), A::Fault(x)) | (Call::Bell(_), A::Fault(x)) | (Call::Ask(_), A::Fault(x)) => format!("Err {:?}", x),
        (Call::Chat(_), A::Chat(C::Accepted(x))) => format!("Accept {:?}", x),
        (Call::Chat(_), A::Chat(C::Denied(x))) => format!("Deny {:?}", x),
        (Call::Chat(_), A::Pong(x)) => format!("Quiet {:?}", x),
        (Call::Ask(_), A::Chat(C::Deep(D::Answer(x)))) => format!("Full {:?}", x),
        (Call::Ask(_), A::Pong(x)) => format!("Empty {:?}", x),
        (Call::Beat(_), A::InternalServiceGroup(S::BeaconConfirmation(x))) | (Call::Note(_), A::InternalServiceGroup(S::BeaconConfirmation(x))) => match &x.error { None => String::from("ok"), Some(_) => String::from("Broadcast") },
        _ => String::from("UnexpectedResponse"),
    }
}
fn request(c: &Call) -> A {
    match c.clone() {
        Call::Ping(n) => A::Ping(protocol::Ping { n }), Call::Bell(n) => A::Bell(protocol::Bell { n }), Call::Beat(n) => A::Beat(protocol::Beat { n }),
        Call::Chat(text) => A::Chat(protocol::Chat::AvailableMessages::Message(protocol::Chat::Message { text })),
        Call::Ask(n) => A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Ask(protocol::Chat::Deep::Ask { n }))),
        Call::Note(text) => A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Note(protocol::Chat::Deep::Note { text }))),
    }
}
fn beacon(c: &Call) -> bool { matches!(c, Call::Beat(_) | Call::Note(_)) }
impl Model {
    fn gone(&mut self) { for (_, w) in std::mem::take(&mut self.pend) { if let Waits::Slot(i) = w { if self.slots[i].is_none() { self.slots[i] = Some(String::from("GettingResponse")); } } } }
    fn end(&mut self, why: Option<&str>, over: bool) {
        self.gone();
        self.calls.push(String::from("disconnected"));
        self.calls.push(format!("shutdown {:?}", why));
        self.n = 10;
        let mut back = false;
        if !over && why.is_none() && self.recon > 0 { self.calls.push(format!("reconnect {}", self.recon)); back = self.again; }
        if back { self.listens += 1; } else { self.alive = false; }
    }
    fn call(&mut self, c: &Call, fail: bool) {
        let i = self.slots.len();
        self.slots.push(None);
        self.what.push(c.clone());
        self.seqs.push(0);
        if !self.alive { self.slots[i] = Some(String::from("none")); return; }
        self.n += 1;
        self.seqs[i] = self.n;
        self.out.push(format!("#{} {:?}", self.n, request(c)));
        self.pend.insert(self.n, Waits::Slot(i));
        if fail { self.end(Some("ClientChannel"), true); }
    }
    fn message(&mut self, q: u32, m: &A) {
        if matches!(m, A::InternalServiceGroup(S::ConnectConfirmationBeacon(_))) {
            if self.pend.contains_key(&1) { self.end(Some("Sequence"), true); return; }
            self.out.push(format!("#1 {:?}", A::Auth(protocol::Auth::AvailableMessages::Me(key()))));
            self.pend.insert(1, Waits::Key);
            return;
        }
        match self.pend.remove(&q) {
            Some(Waits::Key) => match m {
                A::InternalServiceGroup(S::SelfKeyResponse(x)) => {
                    if self.pend.contains_key(&2) { self.end(Some("Sequence"), true); return; }
                    self.out.push(format!("#2 {:?}", A::InternalServiceGroup(S::HashRequest(protocol::InternalServiceGroup::HashRequest { protocol: hash::PROTOCOL.to_string(), workflow: hash::WORKFLOW.to_string() }))));
                    self.pend.insert(2, Waits::Hash(x.uuid.clone()));
                }
                _ => { self.calls.push(String::from("error Handshake")); self.end(Some("Handshake"), true); }
            },
            Some(Waits::Hash(u)) => match m {
                A::InternalServiceGroup(S::HashResponse(x)) if x.error.is_none() => if u == U { self.calls.push(String::from("connected")); } else { self.end(Some("Uuid"), true); },
                _ => { self.calls.push(String::from("error HashCheck")); self.end(Some("HashCheck"), true); }
            },
            Some(Waits::Slot(i)) => if self.slots[i].is_none() { self.slots[i] = Some(answer(&self.what[i], m)); },
            None => self.calls.push(match m {
                A::News(x) => format!("news {:?}", x),
                A::Alarm(x) => format!("alarm {:?}", x),
                A::Chat(protocol::Chat::AvailableMessages::Deep(protocol::Chat::Deep::AvailableMessages::Note(x))) => format!("chat_deep_note {:?}", x),
                _ => String::from("error UnknownMessage"),
            }),
        }
    }
}

fn bytes(m: &A, q: u32) -> Vec<u8> {
    use protocol::Chat::AvailableMessages as C;
    use protocol::Chat::Deep::AvailableMessages as D;
    macro_rules! p { ($x:expr) => { $x.clone().pack(q, None).unwrap() } }
    match m {
        A::Pong(x) => p!(x), A::Fault(x) => p!(x), A::News(x) => p!(x), A::Alarm(x) => p!(x), A::Beat(x) => p!(x), A::Ping(x) => p!(x),
        A::Chat(C::Accepted(x)) => p!(x), A::Chat(C::Denied(x)) => p!(x), A::Chat(C::Deep(D::Answer(x))) => p!(x), A::Chat(C::Deep(D::Note(x))) => p!(x),
        A::InternalServiceGroup(S::BeaconConfirmation(x)) => p!(x), A::InternalServiceGroup(S::HashResponse(x)) => p!(x), A::InternalServiceGroup(S::SelfKeyResponse(x)) => p!(x), A::InternalServiceGroup(S::ConnectConfirmationBeacon(x)) => p!(x),
        _ => panic!("no such message"),
    }
}
async fn turns() { for _ in 0..60 { tokio::task::yield_now().await; } }
fn set(i: usize, s: String) { W.with(|w| w.borrow_mut().slots[i] = Some(s)); }
fn start(mut c: Consumer<CErr>, what: Call, i: usize) {
    use controller::*;
    macro_rules! done { ($x:expr, $($p:pat => $n:expr),*) => { match $x { $(Ok($p) => $n,)* Err(e) => kind(&e) } } }
    tokio::spawn(async move {
        let s = match what {
            Call::Ping(n) => done!(c.ping(protocol::Ping { n }).await, PingResponse::Response(x) => format!("Response {:?}", x), PingResponse::Err(x) => format!("Err {:?}", x)),
            Call::Bell(n) => done!(c.bell(protocol::Bell { n }).await, BellResponse::Ring(x) => format!("Ring {:?}", x), BellResponse::Err(x) => format!("Err {:?}", x)),
            Call::Chat(text) => done!(c.chat_message(protocol::Chat::Message { text }).await, ChatMessageResponse::Accept(x) => format!("Accept {:?}", x), ChatMessageResponse::Deny(x) => format!("Deny {:?}", x), ChatMessageResponse::Quiet(x) => format!("Quiet {:?}", x), ChatMessageResponse::Err(x) => format!("Deny {:?}", x)),
            Call::Ask(n) => done!(c.chat_deep_ask(protocol::Chat::Deep::Ask { n }).await, ChatDeepAskResponse::Full(x) => format!("Full {:?}", x), ChatDeepAskResponse::Empty(x) => format!("Empty {:?}", x), ChatDeepAskResponse::Err(x) => format!("Err {:?}", x)),
            Call::Beat(n) => done!(c.beacon_beat(protocol::Beat { n }).await, () => String::from("ok")),
            Call::Note(text) => done!(c.beacon_chat_deep_note(protocol::Chat::Deep::Note { text }).await, () => String::from("ok")),
        };
        set(i, s);
    });
}
const LIMIT: u64 = 300;
// the part of what is seen that belongs to the calls and broadcasts (3) or to the connection (5)
fn part(v: &[String], three: bool) -> Vec<String> {
    v.iter().filter(|s| { let h = ["#1 ", "#2 ", "shutdown", "connected", "disconnected", "reconnect", "error "].iter().any(|p| s.starts_with(p)) && !s.starts_with("error UnknownMessage"); h != three }).cloned().collect()
}
async fn drive(mode: u8, slow: bool, recon: u64, again: bool, steps: Vec<Step>, seen: &mut HashSet<u64>) -> Option<String> {
    W.with(|w| *w.borrow_mut() = World { again, ..World::default() });
    let mut o = Options::defualt(key());
    o.reconnection = if recon > 0 { ReconnectionStrategy::Reconnect(recon) } else { ReconnectionStrategy::DoNotReconnect };
    o.request_timeout = if slow { LIMIT } else { 600_000 };
    let getter = match connect(Con, consumer::Context {}, o).await { Ok(g) => g, Err(_) => return Some(String::from("connect fails")) };
    turns().await;
    let mut m = Model { calls: vec![], out: vec![], slots: vec![], seqs: vec![], what: vec![], pend: BTreeMap::new(), n: 10, alive: true, recon, again, listens: 1, late: vec![] };
    let mut first: Option<Instant> = None;
    let mut trail: Vec<String> = vec![];
    for s in steps {
        trail.push(format!("{:?}", s));
        if !m.alive {
            // nothing is asked of a consumer that has ended but a clean refusal
            if getter.get().await.is_ok() { return Some(format!("steps {:?}; the consumer has ended and still gives access", trail)); }
            break;
        }
        let feed = W.with(|w| w.borrow().feed.clone());
        let feed = match feed { Some(f) => f, None => return Some(String::from("no observer")) };
        match s {
            Step::Call(c, fail) => {
                let con = match getter.get().await { Ok(c) => c, Err(e) => return Some(format!("steps {:?}; no consumer: {:?}", trail, e)) };
                W.with(|w| { let mut w = w.borrow_mut(); w.slots.push(None); w.fail = fail; });
                m.call(&c, fail);
                if !beacon(&c) { first.get_or_insert(Instant::now()); }
                start(con, c, m.slots.len() - 1);
            }
            Step::In(v, cuts) => {
                let mut b: Vec<u8> = vec![];
                for (to, x) in v.iter() {
                    let q = match to { To::Slot(i) => *m.seqs.get(*i).unwrap_or(&0), To::Seq(q) => *q };
                    // the handshake is driven by single messages
                    if v.len() > 1 && q > 0 && q < 3 { continue; }
                    b.extend(bytes(x, q));
                    m.message(q, x);
                }
                let mut at: Vec<usize> = cuts.iter().map(|c| (*c as usize) % (b.len() + 1)).collect();
                at.push(0); at.push(b.len());
                at.sort();
                for i in 1..at.len() { feed.send(client::Event::Message(client::Message::Binary(b[at[i - 1]..at[i]].to_vec()))).ok(); if b.len() % 2 == 0 { turns().await; } }
            }
            Step::Text => { feed.send(client::Event::Message(client::Message::Text(String::from("x")))).ok(); m.calls.push(String::from("error UnknownMessage")); }
            // a call given up by its caller, before it has its sequence (0) or the identifier (1)
            Step::Leave(n, phase) => {
                let mut con = match getter.get().await { Ok(c) => c, Err(e) => return Some(format!("steps {:?}; no consumer: {:?}", trail, e)) };
                m.n += 1;
                let call = con.ping(protocol::Ping { n });
                tokio::pin!(call);
                for i in 0..phase + 1 {
                    if i > 0 { turns().await; }
                    tokio::select! { biased; _ = &mut call => {}, _ = std::future::ready(()) => {} }
                }
            }
            Step::Stranger => { feed.send(client::Event::Message(client::Message::Ping(vec![1, 2]))).ok(); m.calls.push(String::from("error UnknownMessage")); }
            Step::Error => { feed.send(client::Event::Error(CErr)).ok(); m.calls.push(String::from("error Client")); }
            Step::Connected => { feed.send(client::Event::Connected("127.0.0.1:1".parse().unwrap())).ok(); }
            Step::Disconnected => { feed.send(client::Event::Disconnected).ok(); }
            Step::Wait => {
                tokio::time::sleep(Duration::from_millis(LIMIT + 80)).await;
                for i in 0..m.slots.len() { if m.slots[i].is_none() && !beacon(&m.what[i]) { m.slots[i] = Some(String::from("Timeout")); } }
                first = None;
            }
            Step::Drop(ok) => {
                if let Some(tx) = W.with(|w| w.borrow_mut().end.take()) { tx.send(ok).ok(); }
                if !ok { m.calls.push(String::from("error Client")); }
                m.end(if ok { None } else { Some("Client") }, false);
            }
            Step::Shutdown => {
                let con = match getter.get().await { Ok(c) => c, Err(e) => return Some(format!("steps {:?}; no consumer: {:?}", trail, e)) };
                m.out.push(String::from("shutdown"));
                m.end(None, true);
                match tokio::time::timeout(Duration::from_secs(20), con.shutdown()).await { Ok(Ok(())) => {} r => return Some(format!("steps {:?}; shutdown ends with {:?}", trail, r)) }
            }
        }
        turns().await;
        let t = Instant::now();
        while W.with(|w| w.borrow().listens) < m.listens && t.elapsed().as_secs() < 10 { tokio::time::sleep(Duration::from_millis(1)).await; }
        if recon > 0 { turns().await; }
        if slow && first.map(|t| t.elapsed().as_millis() as u64 > LIMIT - 80).unwrap_or(false) { return None; }
        let bad = W.with(|w| {
            let w = w.borrow();
            seen.insert(w.calls.iter().chain(w.slots.iter().flatten()).fold(7, |h, s| s.split(' ').next().unwrap_or("").bytes().fold(mix(h, 1), |h, b| mix(h, b as u64))));
            let three = part(&w.calls, true) != part(&m.calls, true) || part(&w.out, true) != part(&m.out, true) || w.slots != m.slots;
            let five = part(&w.calls, false) != part(&m.calls, false) || part(&w.out, false) != part(&m.out, false) || w.listens != m.listens;
            let any = w.calls != m.calls || w.out != m.out || three || five;
            if any && (mode == 3 && (three || !five) || mode == 5 && (five || !three)) {
                Some(format!("steps {:?}; the handlers saw {:?}, expected {:?}; the producer got {:?}, expected {:?}; the calls ended with {:?}, expected {:?}{}", trail, w.calls, m.calls, w.out, m.out, w.slots, m.slots, if w.listens != m.listens { "; reconnection differs" } else { "" }))
            } else if any { Some(String::new()) } else { None }
        });
        if bad.is_some() { return bad; }
    }
    if m.alive { if let Some(tx) = W.with(|w| w.borrow_mut().end.take()) { W.with(|w| w.borrow_mut().again = false); tx.send(true).ok(); } turns().await; }
    None
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<String>>().join(",")) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, ms, out) = (a[1][1..].parse::<u8>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u128>().unwrap(), a[4].clone());
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let hs: Vec<_> = (0..6u64).map(|t| std::thread::spawn(move || {
        let mut r = Rng(mix(seed, 1000 + t));
        let (mut n, mut seen, mut fails, mut samples, mut other) = (0u64, HashSet::new(), vec![], vec![], 0u64);
        while t0.elapsed().as_millis() < ms && fails.len() < 3 && other < 51 {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            for _ in 0..40 {
                if t0.elapsed().as_millis() >= ms { break; }
                let (slow, recon, again, steps) = scenario(&mut r);
                n += 1;
                if samples.len() < 2 { samples.push(format!("reconnection {} steps: {:?}", recon, steps).chars().take(400).collect::<String>()); }
                let st = steps.clone();
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(drive(mode, slow, recon, again, steps, &mut seen))));
                match x {
                    Err(_) => fails.push(format!("the consumer panics on {:?}", st).chars().take(3000).collect()),
                    Ok(Some(t)) if t.is_empty() => { other += 1; if other > 50 { break; } }
                    Ok(Some(t)) => fails.push(t.chars().take(6000).collect::<String>()),
                    Ok(None) => {}
                }
                if fails.len() >= 3 { break; }
            }
        }
        (n, seen, fails, samples, other)
    })).collect();
    let (mut n, mut seen, mut fails, mut samples, mut other) = (0, HashSet::new(), vec![], vec![], 0u64);
    for h in hs { let (a, b, c, d, e) = h.join().unwrap(); n += a; seen.extend(b); fails.extend(c); samples.extend(d); other += e; }
    fails.truncate(3);
    samples.truncate(4);
    std::fs::write(out, format!("{{\"evaluations\":{},\"distinct\":{},\"failures\":{},\"samples\":{},\"notes\":{{\"scenarios\":{},\"differences of other properties\":{}}}}}", n, seen.len(), list(&fails), list(&samples), n, other)).unwrap();
}
