// Workflow files: random well-formed and damaged texts, an independent reader, comparison with the real parser.
use super::*;
use crate::protocol::{store::Store as Protocol, Parser as ProtocolParser};
use crate::workflow::{store::Store, Parser};

const PROTO: &str = "
group Users { struct User { u32 id; str name; } struct Request { str q; } struct Response { User[] users; } struct Err { str error; } }
group Msg { struct Request { str q; } struct Accepted { u64 id; } struct Denied { str reason; } struct Err { str error; } enum Kind { u8 a; str b; } group Deep { struct Item { u8 a; } } }
group Events { struct Message { str m; } struct Connected { str m; } struct Disconnected { str m; } struct Kick_Off { str m; } }
group my_group { struct Ask { u8 a; } struct Reply { u8 a; } }
group Beacons { struct LikeUser { str m; } struct LikeMessage { str m; } }
struct SelfKey { str uuid; }
struct Assigned { str uuid; }
struct Root { u8 a; }
enum Choice { u8 a; str b; }
";
const KNOWN: [&str; 23] = ["Users.User", "Users.Request", "Users.Response", "Users.Err", "Msg.Request", "Msg.Accepted", "Msg.Denied", "Msg.Err", "Msg.Kind", "Msg.Deep.Item", "Events.Message", "Events.Connected", "Events.Disconnected", "Events.Kick_Off", "my_group.Ask", "my_group.Reply", "Beacons.LikeUser", "Beacons.LikeMessage", "SelfKey", "Assigned", "Root", "Choice", "my_group.Ask"];
const UNKNOWN: [&str; 9] = ["Users", "Users.Nobody", "Nobody", "Msg.Deep", "Deep.Item", "Request", "Users.user", "Events.Message.Message", "connected"];
const ODD: [&str; 36] = [";", "{", "}", "?", ".", ",", "!", ">", "(", ")", ":", "#", "\n", " ", "&", "@", "&config", "@beacons", "@connected", "Producer", "SelfKey: Root;", "Consumer: rust;", "AssignedKey", "x", "1", "_", "é", "#é\n", "# { ; > \n", "A B", "> Events.Message;", "(A > Root);", "[", "\u{b}", "@disconnected {", "\r"];

#[derive(Clone, Debug, PartialEq)]
pub struct Conf { prod: Vec<String>, cons: Vec<String>, key: Option<String>, assigned: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub struct Act { conclusion: Option<String>, response: String, broadcasts: Vec<(String, bool)> }
#[derive(Clone, Debug, PartialEq)]
pub struct Req { name: String, err: Option<String>, acts: Vec<Act>, broadcasts: Vec<String> }
#[derive(Clone, Debug, PartialEq)]
pub struct Evt { name: String, broadcasts: Vec<(String, bool)> }
#[derive(Clone, Debug, PartialEq)]
pub enum Decl { C(Conf, Vec<&'static str>), R(Req), B(Vec<String>), E(Evt) }

// ------------------------------------------------------------------ reading
#[derive(Clone, Debug, PartialEq)]
enum Tok { W(String), S(char) }
enum Bad { No(String), Open }
type R<T> = Result<T, Bad>;
fn no<T>(s: &str) -> R<T> { Err(Bad::No(s.to_string())) }
fn tokens(t: &str) -> R<Vec<Tok>> {
    // comments end with the line; they separate like white space
    let mut c: Vec<char> = vec![];
    let mut inside = false;
    for x in t.chars() {
        if inside { if x == '\n' { inside = false; c.push(x); } } else if x == '#' { inside = true; c.push('#'); } else { c.push(x); }
    }
    let mut o: Vec<Tok> = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x.is_ascii_whitespace() || x == '#' { i += 1; continue; }
        if "{}:?;.()>!".contains(x) { o.push(Tok::S(x)); i += 1; continue; }
        let ok = |x: char| x == '_' || x == '@' || x == '&' || x.is_ascii_alphanumeric();
        if !ok(x) || x.is_ascii_digit() { return no("a character that is not supported"); }
        let s = i;
        while i < c.len() && (ok(c[i]) || c[i] == '#') {
            // a comment in the middle of a word ends it with its line
            if c[i] == '#' { break; }
            i += 1;
        }
        o.push(Tok::W(c[s..i].iter().collect()));
    }
    Ok(o)
}
struct P { t: Vec<Tok>, i: usize }
impl P {
    fn is(&self, c: char) -> bool { self.t.get(self.i) == Some(&Tok::S(c)) }
    fn sym(&mut self, c: char) -> R<()> { if self.is(c) { self.i += 1; Ok(()) } else { no(&format!("{} is missing at token {}", c, self.i)) } }
    fn word(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tok::W(w)) => {
                self.i += 1;
                if w.contains('@') || w.contains('&') { return Err(Bad::Open); }
                Ok(w.clone())
            }
            _ => no(&format!("a name is missing at token {}", self.i)),
        }
    }
    fn path(&mut self) -> R<String> { let mut s = self.word()?; while self.is('.') { self.i += 1; s = format!("{}.{}", s, self.word()?); }
        if let Some(Tok::W(_)) = self.t.get(self.i) { return Err(Bad::Open); } Ok(s) }
    fn arrows(&mut self, q: bool) -> R<Vec<(String, bool)>> {
        let mut o = vec![];
        while self.is('>') {
            self.i += 1;
            let p = self.path()?;
            let opt = q && self.is('?');
            if opt { self.i += 1; }
            self.sym(';')?;
            o.push((p, opt));
        }
        Ok(o)
    }
    fn config(&mut self) -> R<Decl> {
        let mut d = Conf { prod: vec![], cons: vec![], key: None, assigned: None };
        let mut order = vec![];
        self.sym('{')?;
        while !self.is('}') {
            let k = self.word()?;
            self.sym(':')?;
            match k.as_str() {
                "Producer" | "Consumer" => {
                    let mut v: Vec<String> = vec![];
                    while !self.is(';') {
                        let w = self.word()?;
                        if w != "rust" && w != "typescript" { return no("an unknown target"); }
                        if v.contains(&w) { return no("a target is named twice"); }
                        v.push(w);
                    }
                    self.i += 1;
                    let l = if k == "Producer" { &mut d.prod } else { &mut d.cons };
                    if v.is_empty() { return no("no target"); }
                    if !l.is_empty() { return no("targets are given twice"); }
                    *l = v;
                }
                "SelfKey" | "AssignedKey" => {
                    let p = self.path()?;
                    self.sym(';')?;
                    let l = if k == "SelfKey" { &mut d.key } else { &mut d.assigned };
                    if l.is_some() { return no("a key is given twice"); }
                    *l = Some(p);
                }
                _ => return no("an unknown item"),
            }
        }
        self.i += 1;
        if d.prod.is_empty() || d.cons.is_empty() { return no("targets are missing"); }
        order.push("HashRequest");
        Ok(Decl::C(d, order))
    }
    fn request(&mut self, mut s: String) -> R<Decl> {
        while self.is('.') { self.i += 1; s = format!("{}.{}", s, self.word()?); }
        if let Some(Tok::W(_)) = self.t.get(self.i) { return Err(Bad::Open); }
        let mut d = Req { name: s, err: None, acts: vec![], broadcasts: vec![] };
        if self.is(';') { self.i += 1; return Ok(Decl::R(d)); }
        if self.is('!') {
            self.i += 1;
            d.err = Some(self.path()?);
            self.sym('{')?;
            while self.is('(') {
                self.i += 1;
                let mut a = Act { conclusion: None, response: self.path()?, broadcasts: vec![] };
                if self.is('>') { self.i += 1; a.conclusion = Some(a.response); a.response = self.path()?; }
                self.sym(')')?;
                if self.is(';') { self.i += 1; }
                else {
                    if !self.is('>') { return no("; is missing"); }
                    // the documentation of the parser shows broadcasts of a lone response, the parser does not take them
                    if a.conclusion.is_none() { return Err(Bad::Open); }
                    a.broadcasts = self.arrows(true)?;
                }
                d.acts.push(a);
            }
            self.sym('}')?;
            if d.acts.is_empty() { return no("no action"); }
            return Ok(Decl::R(d));
        }
        self.sym('{')?;
        d.broadcasts = self.arrows(false)?.into_iter().map(|x| x.0).collect();
        self.sym('}')?;
        if d.broadcasts.is_empty() { return no("no broadcast"); }
        Ok(Decl::R(d))
    }
    fn file(&mut self) -> R<Vec<Decl>> {
        let mut o = vec![];
        while self.i < self.t.len() {
            let w = match &self.t[self.i] { Tok::W(w) => w.clone(), _ => return no("a declaration does not start with a name") };
            self.i += 1;
            if w == "&config" { o.push(self.config()?); }
            else if w == "@beacons" {
                self.sym('{')?;
                let v = self.arrows(false)?;
                self.sym('}')?;
                if v.is_empty() { return no("no beacon"); }
                o.push(Decl::B(v.into_iter().map(|x| x.0).collect()));
            } else if w.starts_with('@') {
                let mut s = w[1..].to_string();
                if s.contains('@') || s.contains('&') { return Err(Bad::Open); }
                if s.is_empty() { return Err(Bad::Open); }
                while self.is('.') { self.i += 1; s = format!("{}.{}", s, self.word()?); }
                if let Some(Tok::W(_)) = self.t.get(self.i) { return Err(Bad::Open); }
                self.sym('{')?;
                let b = self.arrows(true)?;
                self.sym('}')?;
                if b.is_empty() { return no("an event without broadcasts"); }
                o.push(Decl::E(Evt { name: s, broadcasts: b }));
            } else if w.contains('@') || w.contains('&') { return no("an unknown keyword"); }
            else { o.push(self.request(w)?); }
        }
        Ok(o)
    }
}

// ------------------------------------------------------------------ meaning
#[derive(Debug, Default, PartialEq)]
struct Flow { conf: Option<Conf>, reqs: Vec<Req>, evts: Vec<Evt>, beacons: Vec<String> }
enum Meaning { Is(Flow), Syntax(String), Rule(String), Open }
const SVC: &str = "InternalServiceGroup";
fn meaning(t: &str) -> Meaning {
    let d = match tokens(t).and_then(|t| P { t, i: 0 }.file()) { Ok(d) => d, Err(Bad::No(s)) => return Meaning::Syntax(s), Err(Bad::Open) => return Meaning::Open };
    let mut f = Flow::default();
    let known = |p: &str| KNOWN.contains(&p);
    for x in &d { // names of the service group are not specified
        let s = format!("{:?}", x);
        if s.contains(SVC) { return Meaning::Open; }
    }
    for x in d {
        macro_rules! need { ($p:expr, $w:expr) => { if !known($p) { return Meaning::Rule(format!("{} {} is not defined in the protocol", $w, $p)); } } }
        match x {
            Decl::C(c, _) => {
                if let Some(k) = &c.key { need!(k, "the self key"); }
                if let Some(k) = &c.assigned { need!(k, "the assigned key"); }
                if f.conf.is_some() { return Meaning::Rule("the configuration is given twice".into()); }
                f.conf = Some(c);
            }
            Decl::B(v) => for b in v {
                need!(&b, "the beacon");
                if f.beacons.contains(&b) { return Meaning::Rule("a beacon is given twice".into()); }
                f.beacons.push(b);
            },
            Decl::E(e) => {
                if e.name != "connected" && e.name != "disconnected" { need!(&e.name, "the event"); }
                for b in &e.broadcasts { need!(&b.0, "the broadcast"); }
                if f.evts.iter().any(|x| x.name == e.name) { return Meaning::Rule("an event is given twice".into()); }
                f.evts.push(e);
            }
            Decl::R(r) => {
                need!(&r.name, "the request");
                if let Some(e) = &r.err { need!(e, "the error"); }
                for b in &r.broadcasts { need!(b, "the broadcast"); }
                for a in &r.acts {
                    need!(&a.response, "the response");
                    for (k, b) in a.broadcasts.iter().enumerate() {
                        need!(&b.0, "the broadcast");
                        if a.broadcasts[..k].iter().any(|x| x.0 == b.0) { return Meaning::Rule("a broadcast is given twice".into()); }
                    }
                    if a.conclusion.is_none() && r.acts.len() > 1 { return Meaning::Rule("several responses without conclusion".into()); }
                    if a.conclusion.as_ref().map(|c| c.contains('.')).unwrap_or(false) { return Meaning::Open; }
                }
                if f.reqs.iter().any(|x| x.name == r.name) { return Meaning::Rule("a request is given twice".into()); }
                f.reqs.push(r);
            }
        }
    }
    for b in &f.beacons { if f.reqs.iter().any(|r| &r.name == b) { return Meaning::Rule("a beacon is also a request".into()); } }
    Meaning::Is(f)
}
fn expected(mut f: Flow) -> Flow {
    if let Some(c) = f.conf.as_mut() {
        if c.key.is_none() { c.key = Some(format!("{}.SelfKeyRequest", SVC)); }
        if c.assigned.is_none() { c.assigned = Some(format!("{}.AssignedKey", SVC)); }
    }
    f
}
fn services(f: &Flow) -> Vec<&'static str> {
    let mut v = vec![];
    if let Some(c) = &f.conf {
        if c.key.is_none() { v.push("SelfKeyRequest"); }
        v.push("SelfKeyResponse");
        if c.assigned.is_none() { v.push("AssignedKey"); }
        v.extend(["HashRequest", "HashResponse", "BeaconConfirmation", "ConnectConfirmationBeacon"].iter());
    }
    v
}
fn got(s: &Store) -> Flow {
    let tg = |v: &[crate::render::Target]| v.iter().map(|t| match t { crate::render::Target::Rust => "rust".to_string(), crate::render::Target::TypeScript => "typescript".to_string() }).collect();
    let bc = |v: &[crate::workflow::beacon::Broadcast]| v.iter().map(|b| (b.reference.clone(), b.optional)).collect();
    Flow {
        conf: s.config.as_ref().map(|c| Conf { prod: tg(&c.producer), cons: tg(&c.consumer), key: c.self_key.clone(), assigned: c.assigned_key.clone() }),
        reqs: s.requests.iter().map(|r| Req { name: r.request.clone().unwrap_or_default(), err: r.error.clone(), broadcasts: r.broadcasts.clone(),
            acts: r.actions.iter().map(|a| Act { conclusion: a.conclusion.clone(), response: a.response.clone().unwrap_or_default(), broadcasts: bc(&a.broadcast) }).collect() }).collect(),
        evts: s.events.iter().map(|e| Evt { name: e.reference.clone().unwrap_or_default(), broadcasts: bc(&e.broadcasts) }).collect(),
        beacons: s.beacons.iter().map(|b| b.reference.clone()).collect(),
    }
}

// ------------------------------------------------------------------ writing
fn path(r: &mut Rng) -> String { if r.p(1, 120) { r.pick(&UNKNOWN).to_string() } else { r.pick(&KNOWN).to_string() } }
fn gap(r: &mut Rng) -> String {
    match r.n(14) { 0 => " ".into(), 1 => "\n".into(), 2 => "\t".into(), 3 => "\r\n".into(), 4 => " # note > ; { é ∂\n".into(), 5 => "   ".into(), 6 => "#\n".into(), _ => String::new() }
}
fn spaced(r: &mut Rng, t: &[String]) -> String {
    let mut o = String::new();
    let wordy = |s: &str| s.chars().next().map(|c| c.is_ascii_alphanumeric() || c == '_' || c == '@' || c == '&').unwrap_or(false);
    for (k, x) in t.iter().enumerate() {
        let g = gap(r);
        let need = k > 0 && wordy(&t[k - 1]) && wordy(x) && g.is_empty();
        if need { o.push(' '); }
        o.push_str(&g);
        // paths may be spread out as well
        if x.contains('.') && r.p(1, 10) { let v: Vec<String> = x.split('.').map(|s| s.to_string()).collect(); for (j, w) in v.iter().enumerate() { if j > 0 { o.push_str(&gap(r)); o.push('.'); o.push_str(&gap(r)); } o.push_str(w); } }
        else { o.push_str(x); }
    }
    o.push_str(&gap(r));
    if r.p(1, 20) { o.push_str("# the end"); }
    o
}
fn random(r: &mut Rng) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    macro_rules! p { ($($x:expr),*) => { { $( o.push($x.to_string()); )* } } }
    let n = r.n(7);
    let mut order: Vec<usize> = (0..n).map(|_| 1 + r.n(3)).collect();
    if r.p(3, 4) { let k = r.n(order.len() + 1); order.insert(k, 0); }
    if r.p(1, 40) { order.push(0); }
    let mut left: Vec<String> = KNOWN[..22].iter().map(|s| s.to_string()).collect();
    for i in (1..left.len()).rev() { let j = r.n(i + 1); left.swap(i, j); }
    for k in order {
        let mut fresh = |r: &mut Rng, left: &mut Vec<String>| if left.is_empty() || r.p(1, 25) { path(r) } else { left.pop().unwrap() };
        match k {
            0 => {
                p!("&config", "{");
                let mut items: Vec<usize> = vec![];
                if !r.p(1, 40) { items.push(0); }
                if !r.p(1, 40) { items.push(1); }
                if r.p(1, 2) { items.push(2); }
                if r.p(1, 2) { items.push(3); }
                if r.p(1, 40) { let x = r.n(4); items.push(x); }
                for i in (1..items.len()).rev() { let j = r.n(i + 1); items.swap(i, j); }
                for i in items {
                    p!(["Producer", "Consumer", "SelfKey", "AssignedKey"][i], ":");
                    if i < 2 { let v = match r.n(5) { 0 => vec!["rust", "typescript"], 1 => vec!["typescript", "rust"], 2 => vec!["typescript"], _ => vec!["rust"] }; for x in v { p!(x); } } else { let x = path(r); p!(x); }
                    p!(";");
                }
                p!("}");
            }
            1 => {
                let x = fresh(r, &mut left); p!(x);
                match r.n(6) {
                    0 => p!(";"),
                    1 => { p!("{"); for _ in 0..1 + r.n(3) { let x = path(r); p!(">", x, ";"); } p!("}"); }
                    _ => {
                        let e = path(r); p!("!", e, "{");
                        let n = 1 + r.n(3);
                        for i in 0..n {
                            p!("(");
                            let lone = if n == 1 { r.p(1, 2) } else { r.p(1, 80) };
                            if !lone { let c = *r.pick(&["Accept", "Deny", "Case_A", "x"]); p!(c, ">"); }
                            let x = path(r); p!(x, ")");
                            if lone || r.p(1, 3) { p!(";"); }
                            else { let mut seen: Vec<String> = vec![]; for _ in 0..1 + r.n(3) { let x = path(r); if seen.contains(&x) && !r.p(1, 10) { continue; } seen.push(x.clone()); p!(">", x); if r.p(1, 3) { p!("?"); } p!(";"); } }
                            let _ = i;
                        }
                        p!("}");
                    }
                }
            }
            2 => { p!("@beacons", "{"); for _ in 0..1 + r.n(3) { let x = fresh(r, &mut left); p!(">", x, ";"); } p!("}"); }
            _ => {
                let name = match r.n(6) { 0 => "connected".to_string(), 1 => "disconnected".to_string(), _ => fresh(r, &mut left) };
                let parts: Vec<&str> = name.split('.').collect();
                let full = format!("@{}", parts.join("."));
                p!(full, "{");
                for _ in 0..1 + r.n(3) { let x = path(r); p!(">", x); if r.p(1, 3) { p!("?"); } p!(";"); }
                p!("}");
            }
        }
    }
    o
}

// ------------------------------------------------------------------ the real parser
fn parse(r: &Run, base: &Protocol, t: &str) -> (Out<Store>, Option<Protocol>) {
    let f = r.file("case.workflow", t);
    let mut pr = base.clone();
    let out = quiet(|| guarded(|| Parser::new(f.clone())?.parse(&mut pr)));
    (out, Some(pr))
}
extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn open(p: *const u8, f: i32) -> i32; fn close(fd: i32) -> i32; }
fn quiet<T>(f: impl FnOnce() -> T) -> T { f() }
pub fn mute() { unsafe { let n = open(b"/dev/null\0".as_ptr(), 1); dup2(n, 1); close(n); } }

fn paths(p: &Protocol) -> Vec<String> {
    let mut o = vec![];
    let full = |mut g: usize, name: &str| { let mut s = name.to_string(); while g != 0 { match p.groups.iter().find(|x| x.id == g) { Some(x) => { s = format!("{}.{}", x.name, s); g = x.parent; } None => break } } s };
    for s in &p.structs { o.push(full(s.parent, &s.name)); }
    for s in &p.enums { o.push(full(s.parent, &s.name)); }
    o.sort();
    o
}
fn unique(p: &Protocol) -> Option<String> {
    let mut v: Vec<(usize, String)> = vec![];
    for s in &p.structs { v.push((s.id, s.name.clone())); for f in &s.fields { v.push((f.id, format!("{}.{}", s.name, f.name))); } }
    for s in &p.enums { v.push((s.id, s.name.clone())); }
    for s in &p.groups { v.push((s.id, s.name.clone())); }
    v.sort();
    for w in v.windows(2) { if w[0].0 == w[1].0 { return Some(format!("{} and {} share the identifier {}", w[0].1, w[1].1, w[0].0)); } }
    if v.first().map(|x| x.0 == 0).unwrap_or(false) { return Some("an identifier is 0".into()); }
    None
}

pub fn run(r: &mut Run, mode: &str) {
    mute();
    let f = r.file("base.prot", PROTO);
    let base = match guarded(|| ProtocolParser::new(f.clone()).parse().map_err(|e| e.join("; "))) { Out::Ok(s) => s, Out::Rejected(e) | Out::Crash(e) => { r.fail(format!("the protocol of the workflows is not read: {}", e), PROTO); return; } };
    let before = paths(&base);
    let mut k = 0u64;
    while r.more() {
        k += 1;
        let d = { let rng = &mut r.rng; random(rng) };
        let mut t = { let rng = &mut r.rng; spaced(rng, &d) };
        if (k % 3 == 0) != (mode == "W01") { t = proto::damage(&mut r.rng, &t, &ODD); }
        if k % 997 == 0 { let n = 200 + r.rng.n(2000); t = r.rng.pick(&["Root !Root {", "{", "> Root;", "(", "Root.", "@beacons { > Root; }", "x ", "#", "@connected { > Root; } "]).repeat(n); }
        r.case(&t, d.is_empty());
        let (out, pr) = parse(r, &base, &t);
        match (out, meaning(&t)) {
            (Out::Crash(m), _) => { r.note("crash"); if mode == "W01" { r.fail(format!("reading panics: {}", m), &t); } }
            (Out::Rejected(e), Meaning::Is(_)) => {
                r.note("false reject");
                let rule = e.contains("already") || e.contains("defined") || e.contains("also is used") || e.contains("conclusion") || e.contains("only once");
                if mode == "W01" || mode == "W02" || (mode == "W03" && rule) { r.fail(format!("a well-formed workflow is rejected: {}", e), &t); }
            }
            (Out::Rejected(_), _) => r.note("rejected"),
            (Out::Ok(_), Meaning::Syntax(w)) => { r.note("false accept"); if mode == "W01" { r.fail(format!("accepted, although {}", w), &t); } }
            (Out::Ok(_), Meaning::Rule(w)) => { r.note("false accept"); if mode == "W03" { r.fail(format!("accepted, although {}", w), &t); } }
            (Out::Ok(_), Meaning::Open) => r.note("unspecified"),
            (Out::Ok(s), Meaning::Is(w)) => {
                r.note("accepted");
                if mode == "W02" {
                    let svc = services(&w);
                    let w = expected(w);
                    let g = got(&s);
                    if w != g { r.fail(format!("declared {:?}\n read {:?}", w, g), &t); }
                    if let Some(p) = pr.as_ref() {
                        let mut want = before.clone();
                        want.extend(svc.iter().map(|x| format!("{}.{}", SVC, x)));
                        want.sort();
                        if want != paths(p) { r.fail(format!("the protocol is extended by other structs than the services of the workflow: {:?}", paths(p)), &t); }
                        if let Some(m) = unique(p) { r.fail(m, &t); }
                    }
                }
            }
        }
    }
}
