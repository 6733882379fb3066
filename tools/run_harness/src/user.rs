// What the handlers of the user do here: they write down what they are given and act by a script.
use crate::producer::implementation::{consumer::identification::{Filter, Identification}, producer::Events, protocol, scope::Scope};
use clibri::server;
use std::cell::RefCell;
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Call(String, String), Send(Option<Uuid>, String), Disc(Uuid), Deferred }
pub struct World { pub seed: u64, pub unit: u64, pub ord: u64, pub rough: u64, pub log: Vec<Ev>, pub events: Option<Events>, pub down: u64, pub life: Life, pub ask: Option<Ask> }
// how a producer ends
#[derive(Clone, Copy, Debug, Default)]
pub struct Life { pub on: bool, pub ready_err: bool, pub down_err: bool, pub shut_err: bool, pub fatal: bool, pub blind: bool }
pub type Ask = Box<dyn Fn(bool) -> std::pin::Pin<Box<dyn std::future::Future<Output = bool>>>>;
pub fn life() -> Life { W.with(|w| w.borrow().life) }
pub fn asks(f: Ask) { W.with(|w| w.borrow_mut().ask = Some(f)); }
thread_local! { pub static W: RefCell<World> = RefCell::new(World { seed: 0, unit: 0, ord: 0, rough: 0, log: vec![], events: None, down: 0, life: Life::default(), ask: None }); }

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0xD1B54A32D192ED03).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix_s(a: u64, s: &str) -> u64 { s.bytes().fold(a, |h, b| mix(h, b as u64)) }

// one decision of the script
#[derive(Clone, Copy)]
pub struct K { pub k: u64, pub rough: u64 }
impl K {
    pub fn d(&self, n: u64) -> u64 { mix(self.k, n) >> 8 }
    pub fn ok(&self) -> bool { self.d(0) % 5 != 0 }
    pub fn maybe<T>(&self, n: u64, x: T) -> Option<T> { if self.d(40 + n) % 2 == 0 { Some(x) } else { None } }
    pub fn fatal(&self) -> bool { self.rough > 1 && self.d(0) % 12 == 0 }
}
pub fn k_of(seed: u64, unit: u64, ord: u64, rough: u64) -> K { K { k: mix(mix(seed, unit), ord), rough } }
// does a call to the server fail
pub fn bad(seed: u64, unit: u64, rough: u64, what: &str) -> bool { rough > 0 && mix_s(mix(seed, unit), what) % 9 == 0 }

pub fn log(e: Ev) { W.with(|w| w.borrow_mut().log.push(e)); }
pub fn keys(key: &Option<protocol::Auth::Me>, assigned: &Option<protocol::Auth::Role>) -> String { format!("key={:?} assigned={:?}", key, assigned) }
pub fn head(what: &str, ident: Option<(Uuid, bool)>, all: Option<Vec<Uuid>>) -> String { format!("{} by {:?} of {:?}", what, ident, all) }
pub fn call(what: String, i: Option<&Identification>, f: Option<&Filter<'_>>) -> K {
    let all = f.map(|f| { let mut v = f.all(); v.sort(); v });
    let h = head(&what, i.map(|i| (i.uuid(), i.is_discredited())), all);
    let k = i.map(|i| keys(&i.key, &i.assigned)).unwrap_or_default();
    W.with(|w| {
        let mut w = w.borrow_mut();
        w.log.push(Ev::Call(h, k));
        w.ord += 1;
        k_of(w.seed, w.unit, w.ord, w.rough)
    })
}
pub fn ready(e: Events) { W.with(|w| w.borrow_mut().events = Some(e)); }
pub async fn enter<E: server::Error, C: server::Control<E>>(name: &str, what: String, s: &mut Scope<'_, E, C>) -> K {
    let k = call(format!("{} {}", name, what), Some(s.identification), Some(s.filter));
    if k.d(1) % 3 == 0 { s.deferred(Box::pin(async move { log(Ev::Deferred) })); }
    if life().on { return k; }
    if k.d(2) % 3 == 0 { let _ = s.identification.set_key(me(k.d(20)), k.d(21) % 2 == 0); }
    if k.d(6) % 3 == 0 { let _ = s.identification.set_assign(role(k.d(22)), k.d(23) % 2 == 0); }
    if k.d(7) % 8 == 0 {
        let u = s.identification.uuid();
        let b = pack(&mut news(k), 0);
        match k.d(8) % 4 {
            0 => { let _ = s.control.send(b, Some(u)).await; }
            1 => { let _ = s.control.disconnect(Uuid::from_u128(99)).await; }
            _ => { let l = to(k, 9, s.filter, u); let _ = s.control.broadcast(l, b).await; }
        }
    }
    k
}
pub fn pack(m: &mut dyn protocol::PackingStruct, seq: u32) -> Vec<u8> { m.pack(seq, None).unwrap() }

pub fn txt(d: u64) -> String { ["b", "a", "text", "\u{1F600}", "longer text of a message"][(d % 5) as usize].to_string() }
pub fn opt(d: u64) -> Option<String> { if d % 2 == 0 { Some(txt(d >> 1)) } else { None } }
pub fn me(d: u64) -> protocol::Auth::Me {
    protocol::Auth::Me { uuid: opt(mix(d, 1)), id: opt(mix(d, 2)), level: (mix(d, 3) % 4) as u32, tags: if mix(d, 4) % 2 == 0 { Some((0..1 + mix(d, 5) % 2).map(|i| txt(mix(d, 6 + i))).collect()) } else { None } }
}
pub fn role(d: u64) -> protocol::Auth::Role { protocol::Auth::Role { auth: d % 2 == 0, uuid: opt(mix(d, 1)), bits: (0..1 + mix(d, 2) % 4).map(|i| mix(d, 3 + i) as u8).collect() } }
pub fn pong(k: K) -> protocol::Pong { protocol::Pong { n: k.d(10) as u32 } }
pub fn fault(k: K) -> protocol::Fault { protocol::Fault { error: txt(k.d(11)) } }
pub fn denied(k: K) -> protocol::Chat::Denied { protocol::Chat::Denied { reason: txt(k.d(12)) } }
pub fn accepted(k: K) -> protocol::Chat::Accepted { protocol::Chat::Accepted { id: k.d(13) as u32 } }
pub fn answer(k: K) -> protocol::Chat::Deep::Answer { protocol::Chat::Deep::Answer { n: k.d(14) as u32 } }
pub fn note(k: K) -> protocol::Chat::Deep::Note { protocol::Chat::Deep::Note { text: txt(k.d(15)) } }
pub fn news(k: K) -> protocol::News { protocol::News { text: txt(k.d(16)) } }
pub fn alarm(k: K) -> protocol::Alarm { protocol::Alarm { code: k.d(17) as u32 } }

// recipients: chosen with the filter of the scope
pub fn level(key: &Option<protocol::Auth::Me>, assigned: &Option<protocol::Auth::Role>, d: u64) -> bool {
    match d % 3 { 0 => key.is_some(), 1 => key.as_ref().map(|k| k.level % 2 == 0).unwrap_or(false), _ => assigned.is_some() }
}
// in no particular order
pub fn some_of(d: u64) -> Vec<Uuid> { let mut v: Vec<u64> = (0..8u64).filter(|i| mix(d, *i) % 2 == 0).collect(); v.sort_by_key(|i| mix(d, 100 + *i)); v.into_iter().map(|i| Uuid::from_u128(1 + i as u128)).collect() }
pub fn to(k: K, n: u64, f: &Filter<'_>, u: Uuid) -> Vec<Uuid> {
    let d = k.d(30 + n);
    let mut v = match d % 5 {
        0 => f.all(),
        1 => f.except(&u),
        2 => f.exclude(some_of(d)),
        3 => f.filter(|i| level(&i.key, &i.assigned, d / 5)),
        _ => return some_of(d),
    };
    v.sort();
    v
}
