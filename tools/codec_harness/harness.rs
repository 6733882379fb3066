// Differential harness for the Rust codec generated by clibri: the real generated code (gen.rs)
// against an independent reference codec, for random values, byte strings and streams.
#![allow(dead_code, unused, non_camel_case_types, non_snake_case)]
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod gen;
mod glue;

// ------------------------------------------------------------------ dynamic values
#[derive(Clone, Debug, PartialEq)]
pub enum Dv { P(Vec<u8>), T(String), A(Vec<Dv>), O(Option<Box<Dv>>), S(Vec<Dv>), E(usize, Box<Dv>), D }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty { P(usize, u8), T, R(usize) } // primitive (width, kind: 0 integer, 1 float, 2 bool), string, entity
#[derive(Clone, Debug)]
pub struct Fld { pub id: u16, pub name: &'static str, pub ty: Ty, pub rep: bool, pub opt: bool }
pub struct Ent {
    pub id: u32, pub name: &'static str, pub is_enum: bool, pub fields: Vec<Fld>,
    pub encode: fn(&Dv) -> Result<(Vec<u8>, Dv), String>,
    pub decode: fn(Vec<u8>) -> Result<Dv, String>,
    pub pack: fn(&Dv, u32) -> Result<Vec<u8>, String>,
    pub ident: fn(&Dv) -> (u32, u16),
}
pub trait ToDv: Sized { fn to(&self) -> Dv; fn of(d: &Dv) -> Self; }
fn le(v: u64, w: usize) -> Vec<u8> { (0..w).map(|i| ((v >> (8 * i as u32)) & 0xff) as u8).collect() }
fn un(b: &[u8]) -> u64 { let mut r = 0u64; for (i, x) in b.iter().enumerate() { r |= (*x as u64) << (8 * i as u32); } r }
macro_rules! ints { ($($t:ty, $w:expr);*) => { $(impl ToDv for $t {
    fn to(&self) -> Dv { Dv::P(le(*self as u64, $w)) }
    fn of(d: &Dv) -> Self { if let Dv::P(b) = d { un(b) as $t } else { unreachable!() } }
})* } }
ints!(u8, 1; u16, 2; u32, 4; u64, 8; i8, 1; i16, 2; i32, 4; i64, 8);
impl ToDv for f32 { fn to(&self) -> Dv { Dv::P(le(self.to_bits() as u64, 4)) } fn of(d: &Dv) -> Self { if let Dv::P(b) = d { f32::from_bits(un(b) as u32) } else { unreachable!() } } }
impl ToDv for f64 { fn to(&self) -> Dv { Dv::P(le(self.to_bits(), 8)) } fn of(d: &Dv) -> Self { if let Dv::P(b) = d { f64::from_bits(un(b)) } else { unreachable!() } } }
impl ToDv for bool { fn to(&self) -> Dv { Dv::P(vec![*self as u8]) } fn of(d: &Dv) -> Self { if let Dv::P(b) = d { b[0] != 0 } else { unreachable!() } } }
impl ToDv for String { fn to(&self) -> Dv { Dv::T(self.clone()) } fn of(d: &Dv) -> Self { if let Dv::T(s) = d { s.clone() } else { unreachable!() } } }
impl<T: ToDv> ToDv for Vec<T> { fn to(&self) -> Dv { Dv::A(self.iter().map(|x| x.to()).collect()) } fn of(d: &Dv) -> Self { if let Dv::A(s) = d { s.iter().map(|x| T::of(x)).collect() } else { unreachable!() } } }
impl<T: ToDv> ToDv for Option<T> { fn to(&self) -> Dv { Dv::O(self.as_ref().map(|x| Box::new(x.to()))) } fn of(d: &Dv) -> Self { if let Dv::O(s) = d { s.as_ref().map(|x| T::of(x)) } else { unreachable!() } } }

// ------------------------------------------------------------------ reference codec
pub struct Ref { pub ents: Vec<Ent> }
type R<T> = Result<T, ()>;
impl Ref {
    fn one(&self, t: Ty, v: &Dv) -> R<Vec<u8>> {
        match (t, v) {
            (Ty::P(_, _), Dv::P(b)) => Ok(b.clone()),
            (Ty::T, Dv::T(s)) => Ok(s.bytes().collect()),
            (Ty::R(i), _) => self.ent(i, v),
            _ => unreachable!(),
        }
    }
    fn payload(&self, f: &Fld, rep: bool, v: &Dv) -> R<Vec<u8>> {
        if !rep { return self.one(f.ty, v); }
        let mut o = vec![];
        if let Dv::A(s) = v {
            for x in s {
                let b = self.one(f.ty, x)?;
                match f.ty { Ty::P(..) => {} Ty::T => o.extend(le(b.len() as u64, 4)), Ty::R(_) => o.extend(le(b.len() as u64, 8)) }
                o.extend(b);
            }
        }
        Ok(o)
    }
    pub fn field(&self, f: &Fld, v: &Dv) -> R<Vec<u8>> {
        let (body, none) = match v {
            Dv::O(None) => (vec![], true),
            Dv::O(Some(x)) => (self.payload(f, f.rep, x)?, false),
            x => (self.payload(f, f.rep, x)?, false),
        };
        let narrow = none || (matches!(f.ty, Ty::P(..)) && !f.rep);
        Ok(Self::frame(f.id, narrow, &body))
    }
    pub fn frame(id: u16, narrow: bool, body: &[u8]) -> Vec<u8> {
        let mut o = le(id as u64, 2);
        if narrow { o.push(8); o.extend(le(body.len() as u64, 1)); } else { o.push(64); o.extend(le(body.len() as u64, 8)); }
        o.extend(body);
        o
    }
    pub fn ent(&self, i: usize, v: &Dv) -> R<Vec<u8>> {
        let e = &self.ents[i];
        match v {
            Dv::S(fs) => { let mut o = vec![]; for (f, x) in e.fields.iter().zip(fs) { o.extend(self.field(f, x)?); } Ok(o) }
            Dv::E(k, x) => { let mut o = le(*k as u64, 2); o.extend(self.payload(&e.fields[*k], e.fields[*k].rep, x)?); Ok(o) }
            _ => Err(()),
        }
    }
    pub fn packet(&self, i: usize, v: &Dv, seq: u32, ts: &[u8]) -> R<Vec<u8>> {
        let b = self.ent(i, v)?;
        let mut o = le(self.ents[i].id as u64, 4);
        o.extend(le(0, 2)); o.extend(le(seq as u64, 4)); o.extend(ts); o.extend(le(b.len() as u64, 8)); o.extend(b);
        Ok(o)
    }
    // decoding
    fn d_one(&self, t: Ty, b: &[u8]) -> R<Dv> {
        match t {
            Ty::P(w, k) => if b.len() < w { Err(()) } else if k == 2 { Ok(Dv::P(vec![(b[0] != 0) as u8])) } else { Ok(Dv::P(b[..w].to_vec())) },
            Ty::T => Ok(Dv::T(String::from_utf8_lossy(b).to_string())),
            Ty::R(i) => self.d_ent(i, b),
        }
    }
    fn d_payload(&self, f: &Fld, rep: bool, b: &[u8]) -> R<Dv> {
        if !rep { return self.d_one(f.ty, b); }
        let mut o = vec![];
        if let Ty::P(w, _) = f.ty {
            if b.len() % w != 0 { return Err(()); }
            for c in b.chunks(w) { o.push(self.d_one(f.ty, c)?); }
            return Ok(Dv::A(o));
        }
        let hl = if f.ty == Ty::T { 4 } else { 8 };
        let mut p = b;
        while !p.is_empty() {
            if p.len() < hl { return Err(()); }
            let n = un(&p[..hl]);
            if ((p.len() - hl) as u64) < n { return Err(()); }
            let n = n as usize;
            o.push(self.d_one(f.ty, &p[hl..hl + n])?);
            p = &p[hl + n..];
        }
        Ok(Dv::A(o))
    }
    pub fn store(b: &[u8]) -> R<BTreeMap<u16, Vec<u8>>> {
        let mut m = BTreeMap::new();
        let mut p = b;
        while !p.is_empty() {
            if p.len() < 3 { return Err(()); }
            let id = un(&p[..2]) as u16;
            let w = match p[2] { 8 => 1, 16 => 2, 32 => 4, 64 => 8, _ => return Err(()) };
            if p.len() < 3 + w { return Err(()); }
            let n = un(&p[3..3 + w]);
            if ((p.len() - 3 - w) as u64) < n { return Err(()); }
            let n = n as usize;
            m.insert(id, p[3 + w..3 + w + n].to_vec());
            p = &p[3 + w + n..];
        }
        Ok(m)
    }
    pub fn d_ent(&self, i: usize, b: &[u8]) -> R<Dv> {
        let e = &self.ents[i];
        if e.is_enum {
            if b.len() < 2 { return Err(()); }
            let k = un(&b[..2]) as usize;
            if k >= e.fields.len() { return Err(()); }
            return Ok(Dv::E(k, Box::new(self.d_payload(&e.fields[k], e.fields[k].rep, &b[2..])?)));
        }
        let m = Self::store(b)?;
        let mut o = vec![];
        for f in &e.fields {
            let x = m.get(&f.id).ok_or(())?;
            o.push(if f.opt { if x.is_empty() { Dv::O(None) } else { Dv::O(Some(Box::new(self.d_payload(f, f.rep, x)?))) } } else { self.d_payload(f, f.rep, x)? });
        }
        Ok(Dv::S(o))
    }
    pub fn by_id(&self, id: u32) -> Option<usize> { self.ents.iter().position(|e| e.id == id) }
}
// stream
#[derive(Clone, Debug, PartialEq)]
pub struct Msg { pub ent: usize, pub val: Dv, pub id: u32, pub sig: u16, pub seq: u32, pub ts: u64, pub len: u64 }
impl Ref {
    // what one more chunk does: (left over, messages delivered, error)
    pub fn run(&self, b: &[u8]) -> (Vec<u8>, Vec<Msg>, bool) {
        let mut p = b;
        let mut out = vec![];
        loop {
            if p.len() < 26 { return (p.to_vec(), out, false); }
            let (id, sig, seq, ts, len) = (un(&p[..4]) as u32, un(&p[4..6]) as u16, un(&p[6..10]) as u32, un(&p[10..18]), un(&p[18..26]));
            if ((p.len() - 26) as u64) < len { return (p.to_vec(), out, false); }
            let body = &p[26..26 + len as usize];
            p = &p[26 + len as usize..];
            if sig != 0 { return (p.to_vec(), out, true); }
            match self.by_id(id).and_then(|i| self.d_ent(i, body).ok().map(|v| (i, v))) {
                None => return (p.to_vec(), out, true),
                Some((ent, val)) => out.push(Msg { ent, val, id, sig, seq, ts, len }),
            }
        }
    }
}

// ------------------------------------------------------------------ random data
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}
fn rstr(r: &mut Rng, min: usize) -> String {
    let n = min + match r.below(8) { 0 => 0, 1 => 1, 2 => 300, _ => r.below(12) };
    (0..n).map(|_| match r.below(8) { 0 => 'é', 1 => '😀', 2 => '\u{0}', 3 => '\u{800}', 4 => '"', _ => (b'a' + r.below(26) as u8) as char }).collect()
}
fn rprim(r: &mut Rng, w: usize, k: u8) -> Dv {
    if k == 2 { return Dv::P(vec![r.below(2) as u8]); }
    let b = match r.below(7) {
        0 => vec![0; w], 1 => vec![0xff; w], 2 => le(1, w), 3 => le(1u64 << (8 * w as u32 - 1), w), 4 => le((1u64 << (8 * w as u32 - 1)) - 1, w),
        5 => le(r.next() & 0xff, w), _ => r.bytes(w) };
    Dv::P(b)
}
impl Ref {
    pub fn rone(&self, r: &mut Rng, t: Ty, d: usize, ne: bool) -> Dv {
        match t { Ty::P(w, k) => rprim(r, w, k), Ty::T => Dv::T(rstr(r, ne as usize)), Ty::R(i) => self.rent(r, i, d + 1) }
    }
    // ne: never produce a value with an empty encoding
    pub fn rval(&self, r: &mut Rng, f: &Fld, d: usize, ne: bool) -> Dv {
        if !f.rep { return self.rone(r, f.ty, d, ne); }
        let n = ne as usize + if d > 2 { r.below(2) } else { match r.below(8) { 0 => 0, 1 => 1, 2 if matches!(f.ty, Ty::P(..)) => 300, _ => r.below(4) } };
        Dv::A((0..n).map(|_| self.rone(r, f.ty, d, false)).collect())
    }
    pub fn rent(&self, r: &mut Rng, i: usize, d: usize) -> Dv {
        let e = &self.ents[i];
        if e.is_enum {
            let k = r.below(e.fields.len());
            return Dv::E(k, Box::new(self.rval(r, &e.fields[k], d, false)));
        }
        Dv::S(e.fields.iter().map(|f| {
            if !f.opt { return self.rval(r, f, d, false); }
            if r.below(2) == 0 { return Dv::O(None); }
            let x = self.rval(r, f, d, true);
            // present but encoded as nothing: the known ambiguity, see `known`
            if self.payload(f, f.rep, &x).map(|b| b.is_empty()).unwrap_or(false) { Dv::O(None) } else { Dv::O(Some(Box::new(x))) }
        }).collect())
    }
    // a mutated encoding of a random value
    pub fn rbytes(&self, r: &mut Rng, i: usize) -> Vec<u8> {
        if r.below(10) == 0 { let n = r.below(40); return r.bytes(n); }
        let v = self.rent(r, i, 0);
        let mut b = self.ent(i, &v).unwrap();
        for _ in 0..r.below(4) {
            let n = b.len();
            match r.below(7) {
                0 if n > 0 => { b.truncate(r.below(n)); }
                1 if n > 0 => { let k = r.below(n); b[k] = r.next() as u8; }
                2 if n > 0 => { let k = r.below(n.min(12)); b[k] = [0, 1, 2, 3, 8, 16, 32, 64, 255][r.below(9)]; }
                3 => { let k = r.below(n + 1); let m = r.below(9); let x = r.bytes(m); b.splice(k..k, x); }
                4 if n > 0 => { let k = r.below(n); let m = (k + r.below(10)).min(n); b.drain(k..m); }
                5 if n > 7 => { let k = r.below(n - 7); for j in 0..8 { b[k + j] = 0xff; } }
                6 if n > 0 => { let k = r.below(n); b[k] = b[k].wrapping_add(if r.below(2) == 0 { 1 } else { 255 }); }
                _ => {}
            }
        }
        b
    }
}

// ------------------------------------------------------------------ checks
fn hex(b: &[u8]) -> String { if b.len() > 4000 { format!("{}... ({} bytes)", hex(&b[..4000]), b.len()) } else { b.iter().map(|x| format!("{:02x}", x)).collect() } }
// when the current call began, in milliseconds after the start of the run; 0 when none is running
pub static SINCE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static ROUND: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    SINCE.store(START.with(|s| s.elapsed().as_millis() as u64) + 1, std::sync::atomic::Ordering::SeqCst);
    let r = quiet_(f);
    SINCE.store(0, std::sync::atomic::Ordering::SeqCst);
    r
}
thread_local! { static START: std::time::Instant = std::time::Instant::now(); }
fn quiet_<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}
pub struct Out { n: u64, distinct: HashSet<u64>, samples: Vec<String>, fails: Vec<String> }
impl Out {
    fn case(&mut self, ent: &str, what: &str, b: &[u8]) {
        self.n += 1;
        let mut h = 0xcbf29ce484222325u64;
        for x in ent.bytes().chain(b.iter().cloned()) { h = (h ^ x as u64).wrapping_mul(0x100000001b3); }
        if b.len() > 2 { self.distinct.insert(h); }
        if self.samples.len() < 3 && b.len() > 4 && b.len() < 200 { self.samples.push(format!("{} {} {}", ent, what, hex(b))); }
    }
    fn fail(&mut self, ent: &str, input: String, why: String) { if self.fails.len() < 20 { self.fails.push(format!("{} | input: {} | {}", ent, input, why)); } }
}
fn cut(s: String) -> String { if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s } }
fn dbg<T: std::fmt::Debug>(x: T) -> String { cut(format!("{:?}", x)) }

fn c01(o: &mut Out, x: &Ref, r: &mut Rng) {
    for i in 0..x.ents.len() {
        let e = &x.ents[i];
        let v = x.rent(r, i, 0);
        o.case(e.name, "value with encoding", &x.ent(i, &v).unwrap());
        match quiet(|| (e.encode)(&v)) {
            Err(p) => o.fail(e.name, dbg(&v), format!("encoding: {}", p)),
            Ok(Err(m)) => o.fail(e.name, dbg(&v), format!("encoding is refused: {}", m)),
            Ok(Ok((b, after))) => {
                if after != v { o.fail(e.name, dbg(&v), format!("encoding changes the message to {}", dbg(&after))); }
                match quiet(|| (e.decode)(b.clone())) {
                    Ok(Ok(w)) => if w != v { o.fail(e.name, dbg(&v), format!("decodes to {} (bytes {})", dbg(&w), hex(&b))) },
                    y => o.fail(e.name, dbg(&v), format!("its own encoding {} is not decoded: {}", hex(&b), dbg(&y))),
                }
            }
        }
        // through a packet
        let seq = [0, 1, 10, u32::MAX, r.next() as u32][r.below(5)];
        if let Ok(Ok(p)) = quiet(|| (e.pack)(&v, seq)) {
            match quiet(|| glue::feed(&[p.clone()])) {
                Ok((_, got)) => if got.len() != 1 || got[0].val != v || got[0].ent != i || got[0].seq != seq { o.fail(e.name, dbg(&v), format!("packed, it is delivered as {}", dbg(&got))) },
                Err(m) => o.fail(e.name, dbg(&v), format!("packed and read back: {}", m)),
            }
        } else { o.fail(e.name, dbg(&v), "cannot be packed".into()); }
    }
}
fn c02(o: &mut Out, x: &Ref, r: &mut Rng) {
    for i in 0..x.ents.len() {
        let e = &x.ents[i];
        let v = x.rent(r, i, 0);
        let want = x.ent(i, &v).unwrap();
        o.case(e.name, "value with encoding", &want);
        match quiet(|| (e.encode)(&v)) {
            Ok(Ok((b, _))) => if b != want { o.fail(e.name, dbg(&v), format!("encoded as {} instead of {}", hex(&b), hex(&want))) },
            y => o.fail(e.name, dbg(&v), format!("not encoded: {}", dbg(y.map(|z| z.map(|_| ()))))),
        }
        let seq = r.next() as u32;
        let t0 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        match quiet(|| (e.pack)(&v, seq)) {
            Ok(Ok(p)) => {
                let t1 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                if p.len() < 26 || p != x.packet(i, &v, seq, &p[10..18]).unwrap() { o.fail(e.name, dbg((&v, seq)), format!("packed as {}", hex(&p))); }
                else if un(&p[10..18]) < t0 || un(&p[10..18]) > t1 { o.fail(e.name, dbg((&v, seq)), format!("packed with timestamp {} between {} and {}", un(&p[10..18]), t0, t1)); }
            }
            y => o.fail(e.name, dbg(&v), format!("not packed: {}", dbg(y))),
        }
    }
}
fn same(o: &mut Out, x: &Ref, i: usize, b: Vec<u8>) {
    let e = &x.ents[i];
    let want = x.d_ent(i, &b);
    o.case(e.name, if want.is_ok() { "accepted" } else { "rejected" }, &b);
    match quiet(|| (e.decode)(b.clone())) {
        Err(p) => o.fail(e.name, hex(&b), format!("decoding: {}", p)),
        Ok(Ok(v)) => match want { Ok(w) => if v != w { o.fail(e.name, hex(&b), format!("decoded as {} instead of {}", dbg(&v), dbg(&w))) }, Err(_) => o.fail(e.name, hex(&b), format!("malformed, but decoded as {}", dbg(&v))) },
        Ok(Err(m)) => if let Ok(w) = want { o.fail(e.name, hex(&b), format!("refused ({}), should be {}", m, dbg(&w))) },
    }
}
fn c03(o: &mut Out, x: &Ref, r: &mut Rng) {
    for i in 0..x.ents.len() { let b = x.rbytes(r, i); same(o, x, i, b); }
    // every truncation of one message
    let i = r.below(x.ents.len());
    let v = x.rent(r, i, 2);
    let b = x.ent(i, &v).unwrap();
    if b.len() < 400 { for n in 0..b.len() { same(o, x, i, b[..n].to_vec()); } }
    // a hostile stream
    let mut s = vec![];
    for _ in 0..3 {
        let i = r.below(x.ents.len());
        let body = x.rbytes(r, i);
        s.extend(le(if r.below(5) == 0 { r.next() & 0xff } else { x.ents[i].id as u64 }, 4)); s.extend(le((r.below(6) == 0) as u64, 2)); s.extend(r.bytes(12));
        s.extend(match r.below(8) { 0 => r.bytes(8), 1 => vec![0xff; 8], 2 => le(u64::MAX - 25, 8), 3 => le(i64::MAX as u64, 8), _ => le(body.len() as u64, 8) }); s.extend(body);
    }
    stream(o, x, &[s]);
}
fn c04(o: &mut Out, x: &Ref, r: &mut Rng) {
    for i in 0..x.ents.len() {
        let e = &x.ents[i];
        if e.is_enum { continue; }
        if let Dv::S(fs) = x.rent(r, i, 0) {
            let mut parts: Vec<Vec<u8>> = e.fields.iter().zip(&fs).map(|(f, v)| x.field(f, v).unwrap()).collect();
            let known: HashSet<u16> = e.fields.iter().map(|f| f.id).collect();
            for _ in 0..r.below(4) {
                match r.below(6) {
                    0 if !parts.is_empty() => { let k = r.below(parts.len()); parts.remove(k); }
                    1 | 2 => { // an unknown field
                        let mut id = r.next() as u16; while known.contains(&id) { id = id.wrapping_add(1); }
                        let n = r.below(20); let body = r.bytes(n); let w = [1usize, 2, 4, 8][r.below(4)];
                        let mut p = le(id as u64, 2); p.push(8 * w as u8); p.extend(le(n as u64, w)); p.extend(body);
                        let k = r.below(parts.len() + 1); parts.insert(k, p);
                    }
                    3 if !e.fields.is_empty() => { // the same field again, with another value
                        let k = r.below(e.fields.len()); let f = &e.fields[k];
                        let v = x.rval(r, f, 1, false); let v = if f.opt { Dv::O(Some(Box::new(v))) } else { v };
                        let p = x.field(f, &v).unwrap(); let q = r.below(parts.len() + 1); parts.insert(q, p);
                    }
                    4 if parts.len() > 1 => { let a = r.below(parts.len()); let b = r.below(parts.len()); parts.swap(a, b); }
                    5 if !parts.is_empty() => { // another width of the length
                        let k = r.below(parts.len()); let p = parts[k].clone(); let w = match p[2] { 8 => 1, 16 => 2, 32 => 4, _ => 8 };
                        let n = un(&p[3..3 + w]); let nw = [1usize, 2, 4, 8][r.below(4)];
                        if nw == 8 || n < 1 << (8 * nw as u32) { let mut q = p[..2].to_vec(); q.push(8 * nw as u8); q.extend(le(n, nw)); q.extend(&p[3 + w..]); parts[k] = q; }
                    }
                    _ => { let n = parts.len(); for k in (1..n).rev() { let j = r.below(k + 1); parts.swap(k, j); } }
                }
            }
            same(o, x, i, parts.concat());
        }
    }
}
fn stream(o: &mut Out, x: &Ref, chunks: &[Vec<u8>]) {
    let all = chunks.concat();
    o.case("stream", &format!("in {} chunks", chunks.len()), &all);
    let (mut rest, mut want, mut errs): (Vec<u8>, Vec<Msg>, Vec<bool>) = (vec![], vec![], vec![]);
    for c in chunks { rest.extend(c); let (b, m, e) = x.run(&rest); rest = b; want.extend(m); errs.push(e); }
    match quiet(|| glue::feed(chunks)) {
        Err(p) => o.fail("stream", chunks.iter().map(|c| hex(c)).collect::<Vec<_>>().join(" "), p),
        Ok((st, got)) => {
            let inp = || chunks.iter().map(|c| hex(c)).collect::<Vec<_>>().join(" ");
            if got != want { o.fail("stream", inp(), format!("delivered {} instead of {}", dbg(&got), dbg(&want))); }
            if st.0 != errs { o.fail("stream", inp(), format!("chunks refused {:?} instead of {:?}", st.0, errs)); }
            if st.1 != rest.len() { o.fail("stream", inp(), format!("{} bytes kept instead of {}", st.1, rest.len())); }
        }
    }
}
fn split(r: &mut Rng, s: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![]; let mut p = s;
    let style = r.below(4);
    while !p.is_empty() {
        let n = match style { 0 => 1, 1 => 1 + r.below(30), 2 => 1 + r.below(p.len()), _ => p.len() }.min(p.len());
        out.push(p[..n].to_vec()); p = &p[n..];
        if r.below(20) == 0 { out.push(vec![]); }
    }
    out
}
fn c05(o: &mut Out, x: &Ref, r: &mut Rng) {
    let mut s = vec![];
    let n = match r.below(5) { 0 => 40, _ => r.below(6) };
    for _ in 0..n {
        let i = r.below(x.ents.len()); let v = x.rent(r, i, if n > 10 { 2 } else { 1 });
        let ts = r.bytes(8);
        s.extend(x.packet(i, &v, r.next() as u32, &ts).unwrap());
    }
    if r.below(3) == 0 { let k = r.below(s.len() + 1); s.truncate(k); }
    if s.len() > 20000 { s.truncate(20000); }
    let c = split(r, &s); stream(o, x, &c);
    // interleaved reading
    match quiet(|| glue::feed_interleaved(&c)) {
        Err(p) => o.fail("stream", hex(&s), p),
        Ok(got) => { let w = x.run(&s).1; if got != w { o.fail("stream", hex(&s), format!("reading between chunks yields {} instead of {}", dbg(&got), dbg(&w))); } }
    }
}
fn c06(o: &mut Out, x: &Ref, r: &mut Rng) {
    for i in 0..x.ents.len() {
        let e = &x.ents[i];
        let v = x.rent(r, i, 1);
        if (e.ident)(&v) != (e.id, 0) { o.fail(e.name, dbg(&v), format!("identifies itself as {:?}", (e.ident)(&v))); }
        let seq = [0, 1, u32::MAX, r.next() as u32][r.below(4)];
        let tsb = r.bytes(8);
        let mut p = x.packet(i, &v, seq, &tsb).unwrap();
        match r.below(5) {
            0 => { let s = 1 + r.below(65535); p[4] = s as u8; p[5] = (s >> 8) as u8; }
            1 => { let mut id = r.next() as u32 & [0xff, 0xffff, 0xffffffff][r.below(3)]; while x.by_id(id).is_some() { id = id.wrapping_add(1); } let b = le(id as u64, 4); p[..4].copy_from_slice(&b); }
            2 => { let j = r.below(x.ents.len()); let b = le(x.ents[j].id as u64, 4); p[..4].copy_from_slice(&b); }
            _ => {}
        }
        let mut q = x.packet(i, &v, 7, &[0; 8]).unwrap();
        q.extend(p); q.extend(x.packet(i, &v, 9, &[1; 8]).unwrap());
        let c = if r.below(2) == 0 { vec![q] } else { split(r, &q) };
        stream(o, x, &c);
        match quiet(|| (e.pack)(&v, seq)) {
            Ok(Ok(p)) => if p.len() < 26 || p != x.packet(i, &v, seq, &p[10..18]).unwrap() { o.fail(e.name, dbg((&v, seq)), format!("packed as {}", hex(&p))); },
            y => o.fail(e.name, dbg((&v, seq)), format!("not packed: {}", dbg(y))),
        }
    }
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 || c as u32 > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o += &format!("\\u{:04x}", u); } } c => o.push(c) } } o + "\"" }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, ms) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    if std::env::var("HX_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let x = glue::schema();
    if mode == "known" {
        // present but empty optional fields
        let mut n = 0;
        for i in 0..x.ents.len() {
            let e = &x.ents[i];
            if e.is_enum { continue; }
            for (k, f) in e.fields.iter().enumerate() {
                if !f.opt { continue; }
                let empty = if f.rep { Dv::A(vec![]) } else if f.ty == Ty::T { Dv::T(String::new()) } else { continue };
                let mut r = Rng(77);
                if let Dv::S(mut fs) = x.rent(&mut r, i, 0) {
                    fs[k] = Dv::O(Some(Box::new(empty)));
                    let v = Dv::S(fs);
                    if let Ok(Ok((b, _))) = quiet(|| (e.encode)(&v)) { if let Ok(Ok(w)) = quiet(|| (e.decode)(b)) { if w != v { n += 1; println!("{}.{}", e.name, f.name); } } }
                }
            }
        }
        return;
    }
    let mut o = Out { n: 0, distinct: HashSet::new(), samples: vec![], fails: vec![] };
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..20 { r.next(); }
    let t = std::time::Instant::now();
    let mut rounds = 0;
    let h = std::thread::Builder::new().stack_size(1 << 21);
    let mode = mode.to_string();
    {
        let (mode, t) = (mode.clone(), t);
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = SINCE.load(std::sync::atomic::Ordering::SeqCst);
            if s != 0 && t.elapsed().as_millis() as u64 > s + 20000 {
                println!("{{\"evaluations\": 0, \"distinct\": 0, \"rounds\": 0, \"samples\": [], \"failures\": [{}]}}", js(&format!("a call of round {} of mode {} with seed {} has not returned after 20 s", ROUND.load(std::sync::atomic::Ordering::SeqCst), mode, seed)));
                std::process::exit(0);
            }
        });
    }
    let (o, rounds) = h.spawn(move || {
        while rounds < 30 || (t.elapsed().as_millis() as u64) < ms {
            match mode.as_str() { "C01" => c01(&mut o, &x, &mut r), "C02" => c02(&mut o, &x, &mut r), "C03" => c03(&mut o, &x, &mut r), "C04" => c04(&mut o, &x, &mut r), "C05" => c05(&mut o, &x, &mut r), "C06" => c06(&mut o, &x, &mut r), _ => panic!("mode") }
            rounds += 1;
            ROUND.store(rounds, std::sync::atomic::Ordering::SeqCst);
            if std::env::var("HX_TRACE").is_ok() { eprintln!("round {} done", rounds); }
            if !o.fails.is_empty() { break; }
        }
        if o.fails.is_empty() && mode == "C05" {
            // many small packets in one chunk
            let i = (0..x.ents.len()).min_by_key(|i| { let v = x.rent(&mut Rng(5), *i, 2); x.ent(*i, &v).unwrap().len() }).unwrap();
            let v = x.rent(&mut Rng(5), i, 2);
            let p = x.packet(i, &v, 3, &[0; 8]).unwrap();
            let s: Vec<u8> = std::iter::repeat(p).take(6000).flatten().collect();
            stream(&mut o, &x, &[s]);
        }
        (o, rounds)
    }).unwrap().join().unwrap();
    println!("{{\"evaluations\": {}, \"distinct\": {}, \"rounds\": {}, \"samples\": [{}], \"failures\": [{}]}}", o.n, o.distinct.len(), rounds,
        o.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), o.fails.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
}
