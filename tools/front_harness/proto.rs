// Protocol files: random well-formed and damaged texts, an independent recogniser, comparison with the real parser.
use super::*;
use crate::protocol::{fields::Field, store::Store, types::PrimitiveTypes::ETypes, Parser};

pub const PRIMS: [&str; 15] = ["bool", "char", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "str"];
pub const KEYS: [&str; 3] = ["group", "struct", "enum"];

#[derive(Clone, Debug)]
pub enum Def { Group(String, Vec<Def>), Struct(String, Vec<Fld>), Enum(String, Vec<Var>) }
#[derive(Clone, Debug)]
pub struct Fld { pub ty: Vec<String>, pub rep: bool, pub name: String, pub opt: bool }
#[derive(Clone, Debug)]
pub struct Var { pub ty: Option<Vec<String>>, pub rep: bool, pub name: String }

// ------------------------------------------------------------------ reading
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { W(String, bool), S(char) } // word (directly followed by `;`), symbol
pub fn tokens(t: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == ' ' || x == '\t' || x == '\n' || x == '\r' || x == '\u{c}' { i += 1; continue; }
        if ";{}?.[]".contains(x) { o.push(Tok::S(x)); i += 1; continue; }
        if !(x == '_' || ('a'..='z').contains(&x) || ('A'..='Z').contains(&x)) { return None; }
        let s = i;
        while i < c.len() && (c[i] == '_' || c[i].is_ascii_alphanumeric()) { i += 1; }
        o.push(Tok::W(c[s..i].iter().collect(), i < c.len() && c[i] == ';'));
    }
    Some(o)
}
struct P<'a> { t: &'a [Tok], i: usize }
impl<'a> P<'a> {
    fn word(&mut self) -> Option<String> { if let Some(Tok::W(s, _)) = self.t.get(self.i) { self.i += 1; Some(s.clone()) } else { None } }
    fn sym(&mut self, c: char) -> Option<()> { if self.t.get(self.i) == Some(&Tok::S(c)) { self.i += 1; Some(()) } else { None } }
    fn is(&self, c: char) -> bool { self.t.get(self.i) == Some(&Tok::S(c)) }
    fn path(&mut self) -> Option<Vec<String>> {
        let mut v = vec![self.word()?];
        while self.is('.') { self.i += 1; v.push(self.word()?); }
        Some(v)
    }
    fn rep(&mut self) -> Option<bool> { if self.is('[') { self.i += 1; self.sym(']')?; Some(true) } else { Some(false) } }
    fn defs(&mut self, inner: bool) -> Option<Vec<Def>> {
        let mut o = vec![];
        loop {
            if inner && self.is('}') { self.i += 1; return Some(o); }
            if !inner && self.i == self.t.len() { return Some(o); }
            let k = self.word()?;
            if !KEYS.contains(&k.as_str()) { return None; }
            let name = self.word()?;
            self.sym('{')?;
            o.push(match k.as_str() {
                "group" => Def::Group(name, self.defs(true)?),
                "struct" => {
                    let mut f = vec![];
                    while !self.is('}') {
                        if let Some(Tok::W(w, _)) = self.t.get(self.i) { if KEYS.contains(&w.as_str()) { return None; } }
                        let ty = self.path()?;
                        let rep = self.rep()?;
                        let name = self.word()?;
                        let opt = self.is('?');
                        if opt { self.i += 1; }
                        self.sym(';')?;
                        f.push(Fld { ty, rep, name, opt });
                    }
                    self.sym('}')?;
                    Def::Struct(name, f)
                }
                _ => {
                    let mut f = vec![];
                    while !self.is('}') {
                        if let Some(Tok::W(w, _)) = self.t.get(self.i) { if KEYS.contains(&w.as_str()) { return None; } }
                        if let Some(Tok::W(w, true)) = self.t.get(self.i) {
                            self.i += 2;
                            f.push(Var { ty: None, rep: false, name: w.clone() });
                            continue;
                        }
                        let ty = self.path()?;
                        let rep = self.rep()?;
                        let name = self.word()?;
                        self.sym(';')?;
                        f.push(Var { ty: Some(ty), rep, name });
                    }
                    self.sym('}')?;
                    Def::Enum(name, f)
                }
            });
        }
    }
}
pub fn read(t: &str) -> Option<Vec<Def>> {
    let t = tokens(t)?;
    P { t: &t, i: 0 }.defs(false)
}

// ------------------------------------------------------------------ what a file declares
#[derive(Clone, Debug, PartialEq)]
pub struct Ty { pub prim: Option<String>, pub id: Option<usize>, pub groups: Vec<usize> }
#[derive(Clone, Debug, PartialEq)]
pub struct EF { pub id: usize, pub name: String, pub ty: Ty, pub path: Vec<String>, pub rep: bool, pub opt: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct Ent { pub id: usize, pub kind: char, pub parent: usize, pub name: String, pub path: Vec<String>, pub fields: Vec<EF>, pub kids: [Vec<usize>; 3] }
pub enum Meaning { Is(Vec<Ent>), Reject(String), Unspecified }
struct El { ents: Vec<Ent>, open: Vec<usize>, seq: usize, bad: Option<String>, unspec: bool }
impl El {
    fn find(&mut self, from: usize, p: &[String]) -> Option<Ty> {
        let mut parent = from;
        let mut groups = vec![];
        for w in &p[..p.len() - 1] {
            let g: Vec<usize> = self.ents.iter().filter(|e| e.kind == 'G' && e.parent == parent && e.name == *w).map(|e| e.id).collect();
            // a group that is not closed yet, or two of the same name: not specified
            if g.len() > 1 || g.iter().any(|i| self.open.contains(i)) { self.unspec = true; }
            if g.is_empty() { return None; }
            parent = g[0];
            groups.push(parent);
        }
        let w = &p[p.len() - 1];
        let e: Vec<usize> = self.ents.iter().filter(|e| e.kind != 'G' && e.parent == parent && e.name == *w && !self.open.contains(&e.id)).map(|e| e.id).collect();
        if e.len() > 1 { self.unspec = true; }
        if e.is_empty() { None } else { Some(Ty { prim: None, id: Some(e[0]), groups }) }
    }
    fn ty(&mut self, own: usize, p: &[String]) -> Option<Ty> {
        if p.len() == 1 && PRIMS.contains(&p[0].as_str()) { return Some(Ty { prim: Some(p[0].clone()), id: None, groups: vec![] }); }
        let r = self.find(own, p);
        if r.is_some() { return r; }
        let r = self.find(0, p);
        if r.is_none() && self.bad.is_none() { self.bad = Some(format!("type {} is not defined", p.join("."))); }
        r
    }
    fn defs(&mut self, parent: usize, path: &[String], d: &[Def]) {
        for x in d {
            self.seq += 1;
            let id = self.seq;
            let (k, name, slot) = match x { Def::Group(n, _) => ('G', n, 2), Def::Struct(n, _) => ('S', n, 0), Def::Enum(n, _) => ('E', n, 1) };
            if let Some(g) = self.ents.iter_mut().find(|e| e.id == parent && e.kind == 'G') { g.kids[slot].push(id); }
            let at = self.ents.len();
            self.ents.push(Ent { id, kind: k, parent, name: name.clone(), path: path.to_vec(), fields: vec![], kids: [vec![], vec![], vec![]] });
            self.open.push(id);
            let mut fs: Vec<EF> = vec![];
            match x {
                Def::Group(n, d) => { let mut p = path.to_vec(); p.push(n.clone()); self.defs(id, &p, d); }
                Def::Struct(_, f) => for f in f {
                    self.seq += 1;
                    let fid = self.seq;
                    if let Some(ty) = self.ty(parent, &f.ty) {
                        if fs.iter().any(|g| g.name == f.name) && self.bad.is_none() { self.bad = Some(format!("field {} twice", f.name)); }
                        fs.push(EF { id: fid, name: f.name.clone(), ty, path: f.ty.clone(), rep: f.rep, opt: f.opt });
                    }
                },
                Def::Enum(_, v) => for v in v {
                    match &v.ty {
                        None => fs.push(EF { id: 0, name: v.name.clone(), ty: Ty { prim: Some("str".into()), id: None, groups: vec![] }, path: vec![], rep: false, opt: false }),
                        Some(t) => if let Some(ty) = self.ty(parent, t) { fs.push(EF { id: 0, name: v.name.clone(), ty, path: t.clone(), rep: v.rep, opt: false }); },
                    }
                },
            }
            self.ents[at].fields = fs;
            self.open.retain(|i| *i != id);
        }
    }
}
pub fn meaning(d: &[Def]) -> Meaning {
    let mut e = El { ents: vec![], open: vec![], seq: 0, bad: None, unspec: false };
    e.defs(0, &[], d);
    if e.unspec { Meaning::Unspecified } else if let Some(b) = e.bad { Meaning::Reject(b) } else { Meaning::Is(e.ents) }
}

// ------------------------------------------------------------------ what the real parser made of it
fn prim(t: &ETypes) -> String {
    match t { ETypes::Ebool => "bool", ETypes::Echar => "char", ETypes::Ei8 => "i8", ETypes::Ei16 => "i16", ETypes::Ei32 => "i32", ETypes::Ei64 => "i64", ETypes::Eisize => "isize",
        ETypes::Eu8 => "u8", ETypes::Eu16 => "u16", ETypes::Eu32 => "u32", ETypes::Eu64 => "u64", ETypes::Eusize => "usize", ETypes::Ef32 => "f32", ETypes::Ef64 => "f64", ETypes::Estr => "str" }.to_string()
}
pub fn field(f: &Field) -> EF {
    EF { id: f.id, name: f.name.clone(), ty: Ty { prim: if f.ref_type_id.is_none() { Some(f.kind.clone()) } else { None }, id: f.ref_type_id, groups: f.ref_type_path.clone() }, path: f.get_full_name(), rep: f.repeated, opt: f.optional }
}
pub fn ents(s: &Store) -> Vec<Ent> {
    let mut o = vec![];
    for x in &s.structs { o.push(Ent { id: x.id, kind: 'S', parent: x.parent, name: x.name.clone(), path: x.path.clone(), fields: x.fields.iter().map(field).collect(), kids: [vec![], vec![], vec![]] }); }
    for x in &s.enums {
        let v = x.variants.iter().map(|v| EF { id: 0, name: v.name.clone(), ty: Ty { prim: v.types.as_ref().map(prim), id: v.ref_type_id, groups: v.ref_type_path.clone() }, path: v.type_path.clone(), rep: v.repeated, opt: false }).collect();
        o.push(Ent { id: x.id, kind: 'E', parent: x.parent, name: x.name.clone(), path: x.path.clone(), fields: v, kids: [vec![], vec![], vec![]] });
    }
    for x in &s.groups {
        let path = s.get_path_by_parent(x.parent);
        o.push(Ent { id: x.id, kind: 'G', parent: x.parent, name: x.name.clone(), path, fields: vec![], kids: [x.structs.clone(), x.enums.clone(), x.groups.clone()] });
    }
    o
}
/// order of declaration is kept inside each list
fn ordered(s: &Store) -> bool {
    s.structs.windows(2).all(|w| w[0].id < w[1].id) && s.enums.windows(2).all(|w| w[0].id < w[1].id)
}
pub fn parents_ok(s: &Store) -> Option<String> {
    for x in &s.structs { for f in &x.fields { if f.parent != x.id { return Some(format!("field {} of {} carries parent {}", f.name, x.name, f.parent)); } } }
    None
}
pub fn unique(es: &[Ent]) -> Option<String> {
    let mut seen: HashMap<usize, String> = HashMap::new();
    for e in es {
        let mut all = vec![(e.id, e.name.clone())];
        if e.kind == 'S' { all.extend(e.fields.iter().map(|f| (f.id, format!("{}.{}", e.name, f.name)))); }
        for (i, n) in all {
            if i == 0 { return Some(format!("{} has the identifier 0", n)); }
            if let Some(m) = seen.insert(i, n.clone()) { return Some(format!("{} and {} share the identifier {}", m, n, i)); }
        }
    }
    None
}
/// every reference points to a completed definition with a smaller identifier, through its groups
pub fn grounded(es: &[Ent]) -> Option<String> {
    let by: HashMap<usize, &Ent> = es.iter().map(|e| (e.id, e)).collect();
    for e in es {
        if e.parent != 0 { match by.get(&e.parent) { Some(g) if g.kind == 'G' && g.id < e.id => {} _ => return Some(format!("{} lies in {} which is no group before it", e.name, e.parent)) } }
        for f in &e.fields {
            let t = &f.ty;
            if t.prim.is_some() == t.id.is_some() { return Some(format!("field {} of {} is neither primitive nor a reference: {:?}", f.name, e.name, t)); }
            if let Some(i) = t.id {
                let d = match by.get(&i) { Some(d) if d.kind != 'G' => d, _ => return Some(format!("field {} of {} refers to {} which does not exist", f.name, e.name, i)) };
                if d.id >= e.id { return Some(format!("field {} of {} refers to {} which comes later", f.name, e.name, i)); }
                if d.name != *f.path.last().unwrap_or(&String::new()) { return Some(format!("field {} of {}: type {:?} became {}", f.name, e.name, f.path, d.name)); }
                if t.groups.last().map_or(false, |g| *g != d.parent) { return Some(format!("field {} of {}: path {:?} does not lead to {}", f.name, e.name, t.groups, d.name)); }
            } else if f.path.len() == 1 && f.path[0] != *t.prim.as_ref().unwrap() { return Some(format!("field {} of {}: type {:?} became {:?}", f.name, e.name, f.path, t.prim)); }
        }
    }
    None
}
pub fn difference(want: &[Ent], got: &[Ent]) -> Option<String> {
    let key = |v: &[Ent]| -> Vec<Ent> { let mut v = v.to_vec(); v.sort_by_key(|e| e.id); v };
    let (w, g) = (key(want), key(got));
    for (a, b) in w.iter().zip(g.iter()) { if a != b { return Some(format!("declared {:?}\n but read {:?}", a, b)); } }
    if w.len() != g.len() { return Some(format!("{} definitions are declared, {} are read", w.len(), g.len())); }
    None
}

// ------------------------------------------------------------------ random files
pub struct Gen { pub n: usize, pub names: Vec<String> }
impl Gen {
    fn name(&mut self, r: &mut Rng, p: &str) -> String {
        self.n += 1;
        match r.n(8) {
            0 => format!("{}_{}", p, self.n),
            1 => format!("_{}{}", p, self.n),
            2 => format!("{}{}_", p.to_lowercase(), self.n),
            3 if self.n < 40 => format!("{}", (b'a' + (self.n % 26) as u8) as char).repeat(1 + self.n / 26),
            4 => format!("{}u8{}", p, self.n),
            _ => format!("{}{}", p, self.n),
        }
    }
    fn ty(&self, r: &mut Rng, vis: &[Vec<String>], loc: &[Vec<String>]) -> Vec<String> {
        if r.p(1, 2) || (vis.is_empty() && loc.is_empty()) { return vec![r.pick(&PRIMS).to_string()]; }
        if !loc.is_empty() && (vis.is_empty() || r.p(1, 2)) { r.pick(loc).clone() } else { r.pick(vis).clone() }
    }
    /// `vis`: paths from the root to completed definitions; returns the paths declared here, relative to here
    pub fn defs(&mut self, r: &mut Rng, depth: usize, n: usize, vis: &[Vec<String>], top: bool) -> (Vec<Def>, Vec<Vec<String>>) {
        let mut d = vec![];
        let mut loc: Vec<Vec<String>> = vec![];
        // now and then the names of another scope are used again
        let mut used: Vec<String> = vec![];
        for _ in 0..n {
            let reuse = !self.names.is_empty() && r.p(1, 5);
            let nm = if reuse { let k = r.n(self.names.len()); self.names[k].clone() } else { let p = *r.pick(&["Node", "Msg", "Kind", "G", "x"]); self.name(r, p) };
            if used.contains(&nm) { continue; }
            used.push(nm.clone());
            self.names.push(nm.clone());
            let v: Vec<Vec<String>> = if top { loc.clone() } else { vis.to_vec() };
            let l: Vec<Vec<String>> = if top { vec![] } else { loc.clone() };
            match r.n(10) {
                x if depth > 0 && x <= (if depth > 3 { 5 } else { 2 }) => {
                    let k = if depth > 3 { 1 + r.n(3) } else { r.n(5) };
                    let (s, inner) = self.defs(r, depth - 1, k, &v, false);
                    d.push(Def::Group(nm.clone(), s));
                    for i in inner { let mut p = vec![nm.clone()]; p.extend(i); loc.push(p); }
                }
                3..=5 => {
                    let mut vs = vec![];
                    for k in 0..r.n(7) {
                        let name = format!("{}{}", r.pick(&["One", "v", "Opt_"]), k);
                        if r.p(1, 3) { vs.push(Var { ty: None, rep: false, name }); } else { vs.push(Var { ty: Some(self.ty(r, &v, &l)), rep: r.p(1, 3), name }); }
                    }
                    d.push(Def::Enum(nm.clone(), vs));
                    loc.push(vec![nm]);
                }
                _ => {
                    let mut fs: Vec<Fld> = vec![];
                    for k in 0..r.n(8) {
                        let name = if r.p(1, 8) { r.pick(&["struct", "u8", "enum", "str", "group", "uuid"]).to_string() } else { format!("{}{}", r.pick(&["f", "field_", "Z"]), k) };
                        if fs.iter().any(|f| f.name == name) { continue; }
                        fs.push(Fld { ty: self.ty(r, &v, &l), rep: r.p(1, 3), name, opt: r.p(1, 3) });
                    }
                    d.push(Def::Struct(nm.clone(), fs));
                    loc.push(vec![nm]);
                }
            }
        }
        (d, loc)
    }
}
pub struct Lay<'a> { pub r: &'a mut Rng, pub style: usize }
impl<'a> Lay<'a> {
    fn s(&mut self) -> String { // at least one blank
        match self.style { 0 => " ".into(), _ => { let mut o = String::new(); for _ in 0..1 + self.r.n(3) { o.push(*self.r.pick(&[' ', ' ', '\n', '\t', '\r'])); } o } }
    }
    fn o(&mut self) -> String { if self.style == 0 { String::new() } else if self.r.p(1, 3) { self.s() } else { String::new() } }
    fn path(&mut self, p: &[String]) -> String {
        let mut t = p[0].clone();
        for w in &p[1..] { let (a, b) = (self.o(), self.o()); t += &a; t.push('.'); t += &b; t += w; }
        t
    }
    fn rep(&mut self, b: bool) -> String { if b { let (x, y, z) = (self.o(), self.o(), self.o()); format!("{}[{}]{}", x, y, if self.style == 0 { " ".into() } else { z }) } else { self.s() } }
    pub fn text(&mut self, d: &[Def]) -> String {
        let mut t = String::new();
        for x in d {
            let (k, n) = match x { Def::Group(n, _) => ("group", n), Def::Struct(n, _) => ("struct", n), Def::Enum(n, _) => ("enum", n) };
            let (a, b, c) = (self.s(), self.o(), self.o());
            t += &format!("{}{}{}{}{{{}", k, a, n, b, c);
            match x {
                Def::Group(_, d) => t += &self.text(d),
                Def::Struct(_, f) => for f in f {
                    let (p, r) = (self.path(&f.ty), self.rep(f.rep));
                    let (x, y, z) = (self.o(), self.o(), self.o());
                    t += &format!("{}{}{}{}{}{};{}", p, r, f.name, x, if f.opt { "?" } else { "" }, y, z);
                },
                Def::Enum(_, v) => for v in v {
                    match &v.ty {
                        None => { let z = self.o(); t += &format!("{};{}", v.name, z); }
                        Some(ty) => { let (p, r) = (self.path(ty), self.rep(v.rep)); let (x, z) = (self.o(), self.o()); t += &format!("{}{}{}{};{}", p, r, v.name, x, z); }
                    }
                },
            }
            let z = if self.style == 0 { "\n".to_string() } else { self.o() };
            t += &format!("}}{}", z);
        }
        t
    }
}
/// damage a text: characters, tokens, words, the end
pub fn damage(r: &mut Rng, t: &str, odd: &[&str]) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.n(2) {
        if c.is_empty() { return "x".into(); }
        let k = r.n(c.len());
        match r.n(9) {
            0 => { c.remove(k); }
            1 | 2 => { let s = *r.pick(odd); for (j, x) in s.chars().enumerate() { c.insert(k + j, x); } }
            3 => { let s = *r.pick(odd); c.remove(k); for (j, x) in s.chars().enumerate() { c.insert(k + j, x); } }
            4 => { c.truncate(k); }
            5 => { let l = r.n(12); let e = (k + l).min(c.len()); c.drain(k..e); }
            6 => { let l = r.n(12); let e = (k + l).min(c.len()); let v: Vec<char> = c[k..e].to_vec(); let p = r.n(c.len()); for (j, x) in v.into_iter().enumerate() { c.insert(p + j, x); } }
            _ => { // a word becomes another word of the text
                let s: String = c.iter().collect();
                let w: Vec<(usize, usize)> = words(&c);
                if w.len() > 1 {
                    let (a, b) = (*r.pick(&w), *r.pick(&w));
                    let v: Vec<char> = c[b.0..b.1].to_vec();
                    c.splice(a.0..a.1, v);
                }
            }
        }
    }
    c.into_iter().collect()
}
fn words(c: &[char]) -> Vec<(usize, usize)> {
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_alphabetic() || c[i] == '_' { let s = i; while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; } o.push((s, i)); } else { i += 1; }
    }
    o
}
pub const ODD: [&str; 34] = [";", "{", "}", "?", ".", "[", "]", "[]", " ", "\n", "\t", "\u{c}", "_", "a", "Z", "0", "9", "#", "/", ":", "-", "é", "\u{0}", "\u{80}", "😀", "struct ", "enum ", "group ", "struct A {", "u8 x;", "str;", "\u{b}", "\u{a0}", "a.b c;"];

pub fn parse(r: &Run, t: &str) -> Out<Store> {
    let p = r.file("p.prot", t);
    guarded(move || Parser::new(p).parse().map_err(|e| e.join("; ")))
}
pub fn random(r: &mut Rng) -> (Vec<Def>, String) {
    let mut g = Gen { n: 0, names: vec![] };
    let n = match r.n(10) { 0 => 0, 1 => 1, 9 => 14, k => k };
    let depth = if r.p(1, 4) { 7 } else { 3 };
    let (d, _) = g.defs(r, depth, n, &[], true);
    let style = r.n(3);
    let t = Lay { r, style }.text(&d);
    (d, t)
}
pub fn run(r: &mut Run, mode: &str) {
    let mut k = 0u64;
    while r.more() {
        k += 1;
        let (d, mut t) = { let rng = &mut r.rng; random(rng) };
        let damaged = k % 3 != 0;
        if damaged { t = damage(&mut r.rng, &t, &ODD); }
        if k % 977 == 0 { let n = 200 + r.rng.n(3000); t = r.rng.pick(&["group g {", "{", "struct a { u8", "[", "a.", "enum e { a;", "x ", "struct s { u8 f; } "]).repeat(n); }
        r.case(&t, d.is_empty());
        let out = parse(r, &t);
        let want = match read(&t) { None => Meaning::Reject("the text is not a protocol".into()), Some(d) => meaning(&d) };
        match out {
            Out::Crash(m) => { r.note("crash"); if mode == "P04" { r.fail(format!("parsing panics: {}", m), &t); } }
            Out::Rejected(e) => match want {
                Meaning::Is(_) => { r.note("false reject"); if mode == "P04" || mode == "P03" || (mode == "P02" && e.contains("find type")) { r.fail(format!("a well-formed protocol is rejected: {}", e), &t); } }
                _ => r.note("rejected"),
            },
            Out::Ok(s) => {
                let got = ents(&s);
                match want {
                    Meaning::Reject(w) => {
                        r.note("false accept");
                        let res = w.contains("not defined");
                        let dup = w.contains("twice");
                        if (res && mode == "P02") || (dup && mode == "P03") || (!res && !dup && mode == "P04") { r.fail(format!("accepted, although {}", w), &t); }
                    }
                    Meaning::Unspecified => r.note("unspecified"),
                    Meaning::Is(w) => {
                        r.note("accepted");
                        match mode {
                            "P01" => {
                                let ids = |v: &[Ent]| -> Vec<(usize, char, String, Vec<usize>)> { let mut v: Vec<_> = v.iter().map(|e| (e.id, e.kind, e.name.clone(), e.fields.iter().map(|f| f.id).collect())).collect(); v.sort(); v };
                                if ids(&w) != ids(&got) { r.fail(format!("identifiers do not follow the order of declaration:\n declared {:?}\n read {:?}", ids(&w), ids(&got)), &t); }
                            }
                            "P02" => for (a, b) in w.iter().filter(|e| e.kind != 'G').zip(got.iter().filter(|e| e.kind != 'G')).filter(|(a, b)| a.id == b.id).map(|(a, b)| (a, b)) {
                                let ty = |e: &Ent| -> Vec<(String, Ty)> { e.fields.iter().map(|f| (f.name.clone(), f.ty.clone())).collect() };
                                let b = got.iter().find(|x| x.id == a.id && x.kind == a.kind);
                                if b.map(|b| ty(b)) != Some(ty(a)) { r.fail(format!("types of {}: declared {:?}, read {:?}", a.name, ty(a), b.map(|b| ty(b))), &t); break; }
                            },
                            "P03" => {
                                if let Some(m) = difference(&w, &got) { r.fail(m, &t); }
                                else if !ordered(&s) { r.fail("definitions are not kept in order of declaration".into(), &t); }
                            }
                            _ => {}
                        }
                    }
                }
                if mode == "P01" { if let Some(m) = unique(&got) { r.fail(m, &t); } }
                if mode == "P02" { if let Some(m) = grounded(&got) { r.fail(m, &t); } }
                if mode == "P03" { if let Some(m) = parents_ok(&s) { r.fail(m, &t); } }
            }
        }
    }
}
pub fn dump(p: &Path) {
    match guarded(|| Parser::new(p.to_path_buf()).parse().map_err(|e| e.join("; "))) {
        Out::Ok(s) => println!("{:#?}", ents(&s)),
        Out::Rejected(e) => println!("rejected: {}", e),
        Out::Crash(e) => println!("crash: {}", e),
    }
}
