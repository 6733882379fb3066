//! Slices the sources of the generator to what they do to the file system.
//! Kept: every call that can reach the file system, with its order and the control flow around it, the values that
//! name files (paths and the texts they are built from), flags decided by the state of the file system, and every way
//! to leave a function. Dropped: the computation of the texts which are written. A dropped value becomes `vx_any()`,
//! a dropped condition `vx_flag()`, a loop over dropped data runs any number of times, and a dropped `?`, `return` or
//! panic leaves the function at that place or not.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone)]
struct Func {
    file: usize,
    ty: Option<String>,
    name: String,
    sig: Signature,
    block: Block,
    kept: bool,
    line: usize,
}
struct File_ {
    rel: String,
    module: Vec<String>,
    consts: HashMap<String, String>,
    alias: HashMap<String, Vec<String>>,
    structs: HashMap<String, Vec<(String, Type)>>,
}
struct World {
    files: Vec<File_>,
    funcs: Vec<Func>,
    ralias: HashMap<String, Vec<String>>,
    stubs: BTreeSet<String>,
}
const STD_FS: &[&str] = &["write", "remove_file", "remove_dir", "remove_dir_all", "create_dir", "create_dir_all", "rename", "copy", "hard_link", "set_permissions", "read_to_string", "read", "read_dir", "metadata", "symlink"];
const PATHY: &[&str] = &["join", "with_file_name", "with_extension", "parent"];

fn toks<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn segs(p: &Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}

struct Collect<'a> {
    file: usize,
    funcs: &'a mut Vec<Func>,
    f: &'a mut File_,
    mods: Vec<String>,
    ty: Option<String>,
}
fn use_tree(t: &UseTree, pre: Vec<String>, out: &mut HashMap<String, Vec<String>>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            use_tree(&p.tree, q, out)
        }
        UseTree::Name(n) => {
            let mut q = pre.clone();
            if n.ident == "self" {
                if let Some(l) = pre.last() {
                    out.insert(l.clone(), pre.clone());
                }
            } else {
                q.push(n.ident.to_string());
                out.insert(n.ident.to_string(), q);
            }
        }
        UseTree::Rename(r) => {
            let mut q = pre;
            if r.ident != "self" {
                q.push(r.ident.to_string());
            }
            out.insert(r.rename.to_string(), q);
        }
        UseTree::Group(g) => {
            for x in &g.items {
                use_tree(x, pre.clone(), out)
            }
        }
        _ => {}
    }
}
impl<'a, 'ast> Visit<'ast> for Collect<'a> {
    fn visit_item_mod(&mut self, m: &'ast ItemMod) {
        if m.attrs.iter().any(|a| toks(a).contains("cfg (test)")) {
            return;
        }
        self.mods.push(m.ident.to_string());
        visit::visit_item_mod(self, m);
        self.mods.pop();
    }
    fn visit_item_const(&mut self, c: &'ast ItemConst) {
        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
            let v = s.value();
            if v.len() < 200 && !v.contains('\n') {
                let mut k = self.mods.clone();
                k.push(c.ident.to_string());
                self.f.consts.insert(k.join("::"), v);
            }
        }
    }
    fn visit_item_use(&mut self, u: &'ast ItemUse) {
        use_tree(&u.tree, vec![], &mut self.f.alias);
    }
    fn visit_item_struct(&mut self, s: &'ast ItemStruct) {
        let mut v = vec![];
        for f in &s.fields {
            if let Some(i) = &f.ident {
                v.push((i.to_string(), f.ty.clone()));
            }
        }
        self.f.structs.insert(s.ident.to_string(), v);
    }
    fn visit_item_fn(&mut self, f: &'ast ItemFn) {
        self.funcs.push(Func { file: self.file, ty: None, name: f.sig.ident.to_string(), sig: f.sig.clone(), block: (*f.block).clone(), kept: false, line: f.sig.ident.span().start().line });
    }
    fn visit_item_impl(&mut self, i: &'ast ItemImpl) {
        if let Type::Path(p) = &*i.self_ty {
            self.ty = p.path.segments.last().map(|s| s.ident.to_string());
            for it in &i.items {
                match it {
                    ImplItem::Fn(f) => self.funcs.push(Func { file: self.file, ty: self.ty.clone(), name: f.sig.ident.to_string(), sig: f.sig.clone(), block: f.block.clone(), kept: false, line: f.sig.ident.span().start().line }),
                    ImplItem::Const(c) => {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &c.expr {
                            self.f.consts.insert(format!("Self::{}", c.ident), s.value());
                        }
                    }
                    _ => {}
                }
            }
            self.ty = None;
        }
    }
}

#[derive(Clone, Debug)]
enum Callee {
    Fun(usize),
    Prim(String),
    None,
}

impl World {
    fn expand(&self, file: usize, s: &[String]) -> Vec<String> {
        let mut s = s.to_vec();
        if let Some(a) = self.files[file].alias.get(&s[0]) {
            if a.len() > 1 || a[0] != s[0] {
                let mut q = a.clone();
                q.extend(s[1..].iter().cloned());
                s = q;
            }
        }
        let strip = |s: Vec<String>| -> Vec<String> { s.into_iter().filter(|x| x != "super" && x != "self" && x != "crate").collect() };
        s = strip(s);
        // names given by `use .. as ..` in the module above
        if s.len() <= 2 && !s.is_empty() {
            if let Some(a) = self.ralias.get(&s[0]) {
                let mut q = strip(a.clone());
                q.extend(s[1..].iter().cloned());
                s = q;
            }
        }
        s
    }
    fn pick(&self, file: usize, hint: &[String], cands: Vec<usize>) -> Vec<usize> {
        // candidates are function indices
        let tail = |i: &usize| {
            let m = &self.files[self.funcs[*i].file].module;
            m.len() >= hint.len() && m[m.len() - hint.len()..] == *hint
        };
        let dir = |i: &usize| -> bool {
            let d = |r: &str| r.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
            d(&self.files[self.funcs[*i].file].rel) == d(&self.files[file].rel)
        };
        if hint.is_empty() {
            let own: Vec<usize> = cands.iter().filter(|i| self.funcs[**i].file == file).cloned().collect();
            if !own.is_empty() {
                return own;
            }
        }
        let a: Vec<usize> = cands.iter().filter(|i| tail(i)).cloned().collect();
        let a = if a.is_empty() { cands } else { a };
        let b: Vec<usize> = a.iter().filter(|i| dir(i)).cloned().collect();
        if b.is_empty() {
            a
        } else {
            b
        }
    }
    /// type named by a path in a file -> (file, type)
    fn typ(&self, file: usize, p: &[String]) -> Option<(usize, String)> {
        let s = self.expand(file, p);
        if s.is_empty() {
            return None;
        }
        let name = s.last().unwrap().clone();
        let c: Vec<usize> = (0..self.funcs.len()).filter(|i| self.funcs[*i].ty.as_deref() == Some(&name)).collect();
        let c = self.pick(file, &s[..s.len() - 1], c);
        let mut fs: Vec<usize> = c.iter().map(|i| self.funcs[*i].file).collect();
        fs.dedup();
        if fs.len() == 1 {
            Some((fs[0], name))
        } else {
            None
        }
    }
    fn method(&self, t: &(usize, String), name: &str) -> Option<usize> {
        (0..self.funcs.len()).find(|i| self.funcs[*i].file == t.0 && self.funcs[*i].ty.as_deref() == Some(&t.1) && self.funcs[*i].name == name)
    }
    fn call(&self, file: usize, ty: &Option<String>, p: &[String]) -> Callee {
        let name = p.last().unwrap();
        if p.len() > 1 && p[0] == "Self" {
            if let Some(t) = ty {
                if let Some(i) = self.method(&(file, t.clone()), name) {
                    return Callee::Fun(i);
                }
            }
            return Callee::None;
        }
        let s = self.expand(file, p);
        if s.len() >= 2 {
            let prev = &s[s.len() - 2];
            if (s[0] == "std" || s[0] == "tokio" || s.len() == 2) && prev == "fs" && STD_FS.contains(&name.as_str()) && self.files[file].alias.get("fs").map(|a| a[0] == "std").unwrap_or(true) {
                return Callee::Prim(format!("fs_{}", name));
            }
            if prev == "OpenOptions" && name == "new" {
                return Callee::Prim("open_options".into());
            }
            if prev == "File" && (name == "create" || name == "open" || name == "options" || name == "create_new") {
                return Callee::Prim(format!("file_{}", name));
            }
            if prev == "Command" && name == "new" {
                return Callee::Prim("command".into());
            }
        }
        // a method called by path: Type::f(..)
        if s.len() >= 2 && s[s.len() - 2].starts_with(|c: char| c.is_uppercase()) {
            if let Some(t) = self.typ(file, &p[..p.len() - 1]) {
                if let Some(i) = self.method(&t, name) {
                    return Callee::Fun(i);
                }
            }
            return Callee::None;
        }
        let last = s.last().unwrap().clone();
        let c: Vec<usize> = (0..self.funcs.len()).filter(|i| self.funcs[*i].ty.is_none() && self.funcs[*i].name == last).collect();
        let c = self.pick(file, &s[..s.len() - 1], c);
        if c.len() == 1 {
            return Callee::Fun(c[0]);
        }
        Callee::None
    }
}

fn kept_ty(t: &Type) -> Option<String> {
    match t {
        Type::Reference(r) => {
            let i = kept_ty(&r.elem)?;
            Some(format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, i))
        }
        Type::Paren(p) => kept_ty(&p.elem),
        Type::Tuple(t) if t.elems.is_empty() => Some("()".into()),
        Type::Path(p) => {
            let l = p.path.segments.last()?;
            let n = l.ident.to_string();
            let args: Vec<&Type> = match &l.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t) } else { None }).collect(),
                _ => vec![],
            };
            match n.as_str() {
                "Path" | "PathBuf" => Some("PathBuf".into()),
                "str" => Some("str".into()),
                "String" => Some("String".into()),
                "bool" => Some("bool".into()),
                "Option" => Some(format!("Option<{}>", kept_ty(args.first()?)?)),
                _ => None,
            }
        }
        _ => None,
    }
}
/// type of a result: what is not kept inside is opaque
fn out_ty(t: &Type) -> String {
    if let Some(k) = kept_ty(t) {
        return k;
    }
    if let Type::Path(p) = t {
        if let Some(l) = p.path.segments.last() {
            let args: Vec<&Type> = match &l.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t) } else { None }).collect(),
                _ => vec![],
            };
            if l.ident == "Result" && !args.is_empty() {
                return format!("Result<{}, {}>", out_ty(args[0]), args.get(1).map(|t| out_ty(t)).unwrap_or("VxAny".into()));
            }
            if l.ident == "Option" && !args.is_empty() {
                return format!("Option<{}>", out_ty(args[0]));
            }
        }
    }
    "VxAny".into()
}
fn mentions_path(sig: &Signature) -> bool {
    let t = toks(&sig.output);
    let has = |s: &str| s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "PathBuf" || w == "Path");
    has(&t)
}

#[derive(Clone)]
enum Var {
    Kept(bool),
    Dropped,
    Obj((usize, String), bool),
}
struct Gen<'a> {
    w: &'a World,
    cur: usize,
    scopes: Vec<HashMap<String, Var>>,
    lits: &'a mut BTreeSet<String>,
    losses: Vec<String>,
    ret: String,
    decided: bool,
}

/// does the expression touch files or leave the function (closures apart)?
struct Fx<'a, 'b> {
    g: &'a Gen<'b>,
    hit: bool,
    exits: bool,
    depth: usize,
}
impl<'a, 'b, 'ast> Visit<'ast> for Fx<'a, 'b> {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if !matches!(self.g.callee(c), Callee::None) {
            self.hit = true;
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if self.g.method_callee(m).is_some() || self.g.unknown_effect(m) {
            self.hit = true;
        }
        if let Expr::Path(p) = &*m.receiver {
            if let Some(i) = p.path.get_ident() {
                if matches!(self.g.var(&i.to_string()), Some(Var::Kept(true))) && !known_pure(&m.method.to_string()) {
                    self.hit = true;
                }
            }
        }
        if ["open", "write_all", "exists", "is_file", "is_dir", "try_exists"].contains(&m.method.to_string().as_str()) {
            self.hit = true;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        if let Expr::Path(p) = &*a.left {
            if let Some(i) = p.path.get_ident() {
                if matches!(self.g.var(&i.to_string()), Some(Var::Kept(_))) {
                    self.hit = true;
                }
            }
        }
        if let Expr::Field(f) = &*a.left {
            if self.g.self_field(f).is_some() {
                self.hit = true;
            }
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
        if r.mutability.is_some() {
            if let Expr::Path(p) = &*r.expr {
                if let Some(i) = p.path.get_ident() {
                    if matches!(self.g.var(&i.to_string()), Some(Var::Kept(_))) {
                        self.hit = true;
                    }
                }
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let e = self.exits;
        self.depth += 1;
        visit::visit_expr_closure(self, c);
        self.depth -= 1;
        self.exits = e;
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.exits = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, t: &'ast ExprReturn) {
        self.exits = true;
        visit::visit_expr_return(self, t);
    }
    fn visit_expr_break(&mut self, t: &'ast ExprBreak) {
        self.exits = true;
        visit::visit_expr_break(self, t);
    }
    fn visit_expr_continue(&mut self, t: &'ast ExprContinue) {
        self.exits = true;
        visit::visit_expr_continue(self, t);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if ["panic", "unreachable", "todo", "unimplemented", "stop"].contains(&n.as_str()) {
            self.exits = true;
        }
        if let Ok(v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in &v {
                let mut x = Fx { g: self.g, hit: false, exits: false, depth: 0 };
                x.visit_expr(e);
                self.hit |= x.hit;
                self.exits |= x.exits;
            }
        } else {
            let t = m.tokens.to_string();
            if t.contains('?') || t.contains("return") {
                self.exits = true;
            }
            if t.contains("fs ::") || t.contains("OpenOptions") {
                self.hit = true;
            }
        }
    }
}
fn known_pure(m: &str) -> bool {
    ["join", "exists", "is_file", "is_dir", "clone", "to_path_buf", "to_owned", "to_string", "to_string_lossy", "as_path", "as_str", "as_ref", "as_bytes", "display", "parent", "is_none", "is_some", "is_empty", "len", "to_lowercase", "to_uppercase", "replace", "starts_with", "ends_with", "contains", "iter", "is_ok", "is_err", "unwrap", "file_name", "into", "map", "map_err", "as_os_str", "chars", "trim", "split", "components"].contains(&m)
}

impl<'a> Gen<'a> {
    fn f(&self) -> &Func {
        &self.w.funcs[self.cur]
    }
    fn var(&self, n: &str) -> Option<Var> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn bind(&mut self, n: &str, v: Var) {
        self.scopes.last_mut().unwrap().insert(n.to_string(), v);
    }
    fn callee(&self, c: &ExprCall) -> Callee {
        if let Expr::Path(p) = &*c.func {
            let s = segs(&p.path);
            if s.len() == 1 && self.var(&s[0]).is_some() {
                return Callee::None;
            }
            match self.w.call(self.f().file, &self.f().ty, &s) {
                Callee::Fun(i) if !self.w.funcs[i].kept => Callee::None,
                x => x,
            }
        } else {
            Callee::None
        }
    }
    fn obj(&self, e: &Expr) -> Option<(usize, String)> {
        match e {
            Expr::Paren(p) => self.obj(&p.expr),
            Expr::Reference(p) => self.obj(&p.expr),
            Expr::Path(p) => {
                let i = p.path.get_ident()?.to_string();
                if i == "self" {
                    return Some((self.f().file, self.f().ty.clone()?));
                }
                match self.var(&i) {
                    Some(Var::Obj(t, _)) => Some(t),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = segs(&p.path);
                    if s.len() > 1 && (s.last().unwrap() == "new" || s.last().unwrap() == "default") {
                        if s[0] == "Self" {
                            return Some((self.f().file, self.f().ty.clone()?));
                        }
                        return self.w.typ(self.f().file, &s[..s.len() - 1]);
                    }
                }
                None
            }
            Expr::Struct(s) => {
                let s = segs(&s.path);
                if s[0] == "Self" {
                    return Some((self.f().file, self.f().ty.clone()?));
                }
                self.w.typ(self.f().file, &s)
            }
            _ => None,
        }
    }
    fn method_callee(&self, m: &ExprMethodCall) -> Option<usize> {
        let t = self.obj(&m.receiver)?;
        let i = self.w.method(&t, &m.method.to_string())?;
        if self.w.funcs[i].kept {
            Some(i)
        } else {
            None
        }
    }
    /// a method of a kept name on something whose type is not known here
    fn unknown_effect(&self, m: &ExprMethodCall) -> bool {
        let n = m.method.to_string();
        if self.obj(&m.receiver).is_some() {
            return false;
        }
        if n == "write_all" {
            return false;
        }
        // only functions which take a path and belong to a type
        self.w.funcs.iter().any(|f| f.kept && f.ty.is_some() && f.name == n && f.sig.inputs.len() == m.args.len() + 1 && toks(&f.sig.inputs).contains("Path"))
    }
    fn self_field(&self, f: &ExprField) -> Option<String> {
        if let (Expr::Path(p), Member::Named(n)) = (&*f.base, &f.member) {
            if p.path.is_ident("self") {
                let t = self.f().ty.clone()?;
                let fl = self.w.files[self.f().file].structs.get(&t)?;
                let (_, ty) = fl.iter().find(|x| n == &x.0)?;
                kept_ty(ty)?;
                return Some(format!("vx_self.{}", n));
            }
        }
        None
    }
    fn fx(&self, e: &Expr) -> (bool, bool) {
        let mut v = Fx { g: self, hit: false, exits: false, depth: 0 };
        v.visit_expr(e);
        (v.hit, v.exits)
    }
    fn fx_stmt(&self, e: &Stmt) -> (bool, bool) {
        let mut v = Fx { g: self, hit: false, exits: false, depth: 0 };
        v.visit_stmt(e);
        (v.hit, v.exits)
    }
    fn lit(&mut self, s: &str) -> String {
        self.lits.insert(s.to_string());
        format!("{:?}", s)
    }
    fn err(&self) -> String {
        if self.ret.starts_with("Result<") {
            "return Err(vx_any());".into()
        } else if self.ret.starts_with("Option<") {
            "return None;".into()
        } else if self.ret == "()" {
            "return;".into()
        } else {
            "return vx_any();".into()
        }
    }
    fn val(&mut self, e: &Expr) -> String {
        if let Some(c) = self.ex(e) {
            return c;
        }
        let f = self.effects(e);
        if f.is_empty() {
            "vx_any()".into()
        } else {
            format!("{{ {} vx_any() }}", f)
        }
    }
    fn text(&mut self, e: &Expr, why: &str) -> String {
        if let Some(c) = self.ex(e) {
            return c;
        }
        self.losses.push(format!("{}: {}", why, toks(e).chars().take(60).collect::<String>()));
        let f = self.effects(e);
        format!("{{ {} vx_any_text() }}", f)
    }
    fn flag(&mut self, e: &Expr) -> String {
        if let Some(c) = self.ex(e) {
            return c;
        }
        if self.fx(e).0 {
            self.losses.push(format!("condition: {}", toks(e).chars().take(80).collect::<String>()));
        }
        let f = self.effects(e);
        if f.is_empty() {
            "vx_flag()".into()
        } else {
            format!("{{ {} vx_flag() }}", f)
        }
    }
    fn fun(&mut self, i: usize, recv: Option<&Expr>, args: Vec<&Expr>) -> String {
        let f = self.w.funcs[i].clone();
        let mut out = vec![];
        let has_self = f.sig.receiver().is_some();
        if has_self && has_fields(self.w, &f) {
            match recv {
                Some(Expr::Path(p)) if p.path.is_ident("self") => out.push("vx_self".to_string()),
                Some(Expr::Path(p)) if p.path.get_ident().map(|i| matches!(self.var(&i.to_string()), Some(Var::Obj(_, true)))).unwrap_or(false) => out.push(if f.sig.receiver().unwrap().mutability.is_some() { format!("&mut {}", toks(p)) } else { format!("&{}", toks(p)) }),
                _ => out.push("vx_any()".into()),
            }
        }
        let mut it = args.into_iter();
        if has_self && recv.is_none() {
            if let Some(e) = it.next() {
                let _ = self.effects(e);
            }
        }
        let types: Vec<Option<String>> = f.sig.inputs.iter().filter_map(|x| if let FnArg::Typed(t) = x { Some(kept_ty(&t.ty)) } else { None }).collect();
        for (k, a) in it.enumerate() {
            match types.get(k) {
                Some(Some(t)) => {
                    let c = if t.contains("Path") || t.contains("str") { self.ex(a) } else { Some(self.val(a)) };
                    match c {
                        Some(c) => out.push(c),
                        None => {
                            self.losses.push(format!("argument of {}: {}", f.name, toks(a).chars().take(60).collect::<String>()));
                            let x = self.effects(a);
                            out.push(format!("{{ {} vx_any() }}", x));
                        }
                    }
                }
                _ => {
                    let x = self.effects(a);
                    out.push(format!("{{ {} VxAny::vx_new() }}", x));
                }
            }
        }
        out.push("Tracked(vx_w)".into());
        format!("{}({})", mangle(self.w, i), out.join(", "))
    }
    fn ex(&mut self, e: &Expr) -> Option<String> {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) if s.value().len() < 200 && !s.value().contains('\n') => Some(self.lit(&s.value())),
                Lit::Bool(b) => Some(b.value.to_string()),
                _ => None,
            },
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if n == "None" {
                        return Some(n);
                    }
                    return match self.var(&n) {
                        Some(Var::Kept(_)) => Some(n),
                        Some(_) => None,
                        None => self.konst(&[n]),
                    };
                }
                self.konst(&segs(&p.path))
            }
            Expr::Field(f) => self.self_field(f),
            Expr::Paren(p) => self.ex(&p.expr).map(|c| format!("({})", c)),
            Expr::Group(p) => self.ex(&p.expr),
            Expr::Reference(r) => {
                let c = self.ex(&r.expr)?;
                if c.starts_with('"') {
                    return Some(c);
                }
                Some(format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, c))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => {
                    let c = self.ex(&u.expr)?;
                    Some(format!("!{}", c))
                }
                _ => None,
            },
            Expr::Binary(b) => match b.op {
                BinOp::And(_) | BinOp::Or(_) => {
                    let (lh, rh) = (self.fx(&b.left), self.fx(&b.right));
                    let l = self.ex(&b.left);
                    let keep = l.is_some() || rh.0 || rh.1 || lh.0 || self.is_ex(&b.right);
                    if !keep {
                        return None;
                    }
                    let l = match l {
                        Some(l) => l,
                        None => self.flag(&b.left),
                    };
                    let r = self.flag(&b.right);
                    Some(format!("({} {} {})", l, if matches!(b.op, BinOp::And(_)) { "&&" } else { "||" }, r))
                }
                BinOp::Eq(_) | BinOp::Ne(_) => {
                    let lit = |e: &Expr| if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = e { Some(b.value) } else { None };
                    let (e, v) = match (lit(&b.left), lit(&b.right)) {
                        (None, Some(v)) => (&b.left, v),
                        (Some(v), None) => (&b.right, v),
                        _ => return None,
                    };
                    let c = self.ex(e)?;
                    Some(format!("({} {} {})", c, if matches!(b.op, BinOp::Eq(_)) { "==" } else { "!=" }, v))
                }
                _ => None,
            },
            Expr::Try(t) => {
                let c = self.ex(&t.expr)?;
                if self.ret.starts_with("Option<") {
                    Some(format!("(match {} {{ Some(vx_v) => vx_v, None => {{ return None; }} }})", c))
                } else {
                    Some(format!("(match {} {{ Ok(vx_v) => vx_v, Err(_) => {{ {} }} }})", c, self.err()))
                }
            }
            Expr::Call(c) => {
                let args: Vec<&Expr> = c.args.iter().collect();
                match self.callee(c) {
                    Callee::Fun(i) => return Some(self.fun(i, None, args)),
                    Callee::Prim(p) => {
                        let mut out: Vec<String> = vec![];
                        for (k, a) in args.iter().enumerate() {
                            out.push(if k == 0 || p == "fs_rename" || p == "fs_copy" {
                                match self.ex(a) {
                                    Some(x) => format!("vx_path({})", x),
                                    None => {
                                        self.losses.push(format!("path: {}", toks(a)));
                                        let f = self.effects(a);
                                        format!("{{ {} vx_any_path() }}", f)
                                    }
                                }
                            } else if p == "fs_write" {
                                // what is written: a text the slice follows, or anything
                                match self.ex(a) {
                                    Some(x) => format!("{}{}", x, if x.ends_with(".vx_bytes()") { "" } else { ".vx_bytes()" }),
                                    None => {
                                        self.losses.push(format!("content: {}", toks(a)));
                                        let f = self.effects(a);
                                        format!("{{ {} vx_any_bytes() }}", f)
                                    }
                                }
                            } else {
                                let x = self.effects(a);
                                format!("{{ {} VxAny::vx_new() }}", x)
                            });
                        }
                        out.push("Tracked(vx_w)".into());
                        return Some(format!("vx_{}({})", p, out.join(", ")));
                    }
                    Callee::None => {}
                }
                if let Expr::Path(p) = &*c.func {
                    let s = segs(&p.path).join("::");
                    match (s.as_str(), args.len()) {
                        ("Ok", 1) | ("Err", 1) | ("Some", 1) => {
                            let v = if let Expr::Tuple(t) = args[0] { if t.elems.is_empty() { "()".to_string() } else { self.val(args[0]) } } else { self.val(args[0]) };
                            if v == "vx_any()" && !self.decided {
                                return None;
                            }
                            return Some(format!("{}({})", s, v));
                        }
                        ("String::from", 1) => {
                            let a = self.ex(args[0])?;
                            return Some(format!("vx_string({})", a));
                        }
                        ("PathBuf::from", 1) | ("Path::new", 1) => {
                            let a = match self.ex(args[0]) {
                                Some(a) => a,
                                None => self.text(args[0], "path"),
                            };
                            return Some(format!("vx_path({})", a));
                        }
                        _ => {}
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                if let Some(i) = self.method_callee(m) {
                    let args: Vec<&Expr> = m.args.iter().collect();
                    return Some(self.fun(i, Some(&m.receiver), args));
                }
                let n = m.method.to_string();
                if self.unknown_effect(m) && !self.is_ex(&m.receiver) {
                    return Some(format!("vx_unresolved_{}()", n));
                }
                let r = self.ex(&m.receiver)?;
                let a: Vec<&Expr> = m.args.iter().collect();
                let r1 = if r.starts_with('&') { format!("({})", r) } else { r.clone() };
                match (n.as_str(), a.len()) {
                    ("join", 1) | ("with_file_name", 1) | ("with_extension", 1) => {
                        let t = self.text(a[0], &n);
                        Some(format!("{}.vx_{}({})", r1, n, t))
                    }
                    ("push", 1) => {
                        let t = self.text(a[0], "push");
                        Some(format!("{}.vx_push({})", r1, t))
                    }
                    ("exists", 0) | ("is_file", 0) | ("is_dir", 0) => Some(format!("{}.vx_{}(Tracked(vx_w))", r1, n)),
                    ("clone", 0) => Some(format!("{}.vx_clone()", r1)),
                    ("to_path_buf", 0) => Some(format!("{}.vx_clone()", r1)),
                    ("as_path", 0) | ("as_str", 0) => Some(format!("{}.vx_same()", r1)),
                    ("to_owned", 0) | ("to_string", 0) if r.starts_with('"') => Some(format!("vx_string({})", r)),
                    ("to_owned", 0) => Some(format!("{}.vx_owned()", r1)),
                    ("to_string", 0) => Some(format!("{}.vx_owned()", r1)),
                    ("as_bytes", 0) => Some(format!("{}.vx_bytes()", r1)),
                    ("parent", 0) => Some(format!("{}.vx_parent()", r1)),
                    ("take", 0) | ("is_none", 0) | ("is_some", 0) | ("is_ok", 0) | ("is_err", 0) | ("as_ref", 0) => Some(format!("{}.{}()", r1, n)),
                    ("map_err", 1) => {
                        let x = self.fx(a[0]);
                        if x.0 {
                            return Some("vx_unsupported_closure()".into());
                        }
                        Some(format!("vx_map_err({})", r))
                    }
                    ("ok", 0) | ("err", 0) => Some(format!("{}.{}()", r1, n)),
                    ("write", 1) | ("create", 1) | ("truncate", 1) | ("append", 1) | ("read", 1) | ("create_new", 1) if r.starts_with("vx_open_options") || r.contains("vx_open_options(") => {
                        let b = self.val(a[0]);
                        Some(format!("{}.vx_{}({})", r1, n, b))
                    }
                    ("open", 1) if r.contains("vx_open_options(") => {
                        let b = self.ex(a[0]).unwrap_or("vx_any_path()".into());
                        Some(format!("{}.vx_open(vx_path({}), Tracked(vx_w))", r1, b))
                    }
                    ("write_all", 1) => {
                        let b = self.val(a[0]);
                        Some(format!("{}.vx_write_all({}, Tracked(vx_w))", r1, b))
                    }
                    ("flush", 0) | ("sync_all", 0) => Some(format!("{}.vx_flush(Tracked(vx_w))", r1)),
                    _ => None,
                }
            }
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) => self.value(e, false),
            _ => None,
        }
    }
    fn is_ex(&mut self, e: &Expr) -> bool {
        let (l, n) = (self.lits.clone(), self.losses.len());
        let r = self.ex(e).is_some();
        *self.lits = l;
        self.losses.truncate(n);
        r
    }
    fn konst(&mut self, s: &[String]) -> Option<String> {
        let fl = &self.w.files[self.f().file];
        let k = s.join("::");
        let v = fl.consts.get(&k).cloned().or_else(|| if s.len() == 1 { None } else { fl.consts.get(&s[1..].join("::")).cloned().filter(|_| s[0] == "self" || s[0] == "Self") })?;
        Some(self.lit(&v))
    }
    /// value of an if, match or block; with `any` what is not kept is any value of the type asked for
    fn value(&mut self, e: &Expr, any: bool) -> Option<String> {
        match e {
            Expr::Paren(p) => self.value(&p.expr, any),
            Expr::If(i) => {
                let els = &i.else_branch.as_ref()?.1;
                self.scopes.push(HashMap::new());
                let head = self.cond(&i.cond);
                let a = self.block_value(&i.then_branch, any);
                self.scopes.pop();
                let a = a?;
                let b = self.value(els, any)?;
                Some(format!("{} {} else {{ {} }}", head, a, b))
            }
            Expr::Block(b) => self.block_value(&b.block, any),
            Expr::Match(m) => {
                let s = self.ex(&m.expr);
                if s.is_none() && self.fx(&m.expr).0 {
                    self.losses.push(format!("condition: {}", toks(&m.expr).chars().take(80).collect::<String>()));
                }
                let pre = if s.is_none() { self.effects(&m.expr) } else { String::new() };
                let mut arms = vec![];
                let n = m.arms.len();
                for (k, arm) in m.arms.iter().enumerate() {
                    self.scopes.push(HashMap::new());
                    let p = if s.is_some() { self.pat(&arm.pat, true) } else { self.pat(&arm.pat, false); Some(String::new()) };
                    let g = match &arm.guard {
                        Some((_, g)) => Some(self.flag(g)),
                        None => None,
                    };
                    let v = match &*arm.body {
                        Expr::Block(_) | Expr::If(_) | Expr::Match(_) => self.value(&arm.body, any),
                        x if diverges(x) => Some(format!("{{ {} }}", self.stmt_expr(x))),
                        x => match self.ex(x) {
                            Some(c) => Some(c),
                            None if any => Some(self.val(x)),
                            None => None,
                        },
                    };
                    self.scopes.pop();
                    let (p, v) = (p?, v?);
                    if s.is_some() {
                        arms.push(format!("{}{} => {{ {} }}", p, g.map(|g| format!(" if {}", g)).unwrap_or_default(), v));
                    } else {
                        arms.push(format!("{} => {{ {} }}", if k + 1 == n { "_".to_string() } else { k.to_string() }, v));
                    }
                }
                Some(match s {
                    Some(s) => format!("match {} {{ {} }}", s, arms.join(" ")),
                    None => format!("{{ {} match vx_choice() {{ {} }} }}", pre, arms.join(" ")),
                })
            }
            x if diverges(x) => Some(format!("{{ {} }}", self.stmt_expr(x))),
            x => match self.ex(x) {
                Some(c) => Some(c),
                None if any => Some(self.val(x)),
                None => None,
            },
        }
    }
    fn block_value(&mut self, b: &Block, any: bool) -> Option<String> {
        self.scopes.push(HashMap::new());
        let mut out = String::new();
        let n = b.stmts.len();
        let mut tail = None;
        for (k, s) in b.stmts.iter().enumerate() {
            if k + 1 == n {
                match s {
                    Stmt::Expr(e, None) if !diverges(e) => {
                        tail = Some(self.value(e, any));
                        break;
                    }
                    Stmt::Macro(m) if m.semi_token.is_none() && !toks(&m.mac.path).contains("panic") && !toks(&m.mac.path).contains("unreachable") => {
                        tail = Some(if any { Some("vx_any()".into()) } else { None });
                        break;
                    }
                    _ => {}
                }
            }
            out.push_str(&self.stmt(s));
            out.push('\n');
        }
        self.scopes.pop();
        match tail {
            Some(Some(t)) => Some(format!("{{ {} {} }}", out, t)),
            Some(None) => None,
            None => Some(format!("{{ {} }}", out)),
        }
    }
    /// head of an `if`: binds the names of the pattern in the current scope
    fn cond(&mut self, c: &Expr) -> String {
        if let Expr::Let(l) = c {
            if let Some(s) = self.ex(&l.expr) {
                if let Some(p) = self.pat(&l.pat, true) {
                    return format!("if let {} = {}", p, s);
                }
            }
            if self.fx(&l.expr).0 {
                self.losses.push(format!("condition: {}", toks(&l.expr).chars().take(80).collect::<String>()));
            }
            let f = self.effects(&l.expr);
            self.pat(&l.pat, false);
            return if f.is_empty() { "if vx_flag()".into() } else { format!("if {{ {} vx_flag() }}", f) };
        }
        format!("if {}", self.flag(c))
    }
    /// binds the names of a pattern; None if it cannot be kept
    fn pat(&mut self, p: &Pat, keep: bool) -> Option<String> {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if n.starts_with(|c: char| c.is_uppercase()) {
                    return Some(n);
                }
                self.bind(&n, if keep { Var::Kept(i.mutability.is_some()) } else { Var::Dropped });
                Some(if keep { format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, n) } else { "_".into() })
            }
            Pat::Wild(_) => Some("_".into()),
            Pat::Paren(p) => self.pat(&p.pat, keep),
            Pat::Reference(p) => self.pat(&p.pat, keep).map(|x| format!("&{}", x)),
            Pat::Type(p) => self.pat(&p.pat, keep),
            Pat::Tuple(t) => {
                if t.elems.is_empty() {
                    return Some("()".into());
                }
                for x in &t.elems {
                    self.pat(x, false);
                }
                None
            }
            Pat::TupleStruct(t) => {
                let n = t.path.segments.last()?.ident.to_string();
                let keep2 = keep && ["Ok", "Err", "Some"].contains(&n.as_str());
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.pat(x, keep2 && n != "Err"));
                }
                if !keep2 {
                    return None;
                }
                let v: Option<Vec<String>> = if n == "Err" { Some(vec!["_".into()]) } else { v.into_iter().collect() };
                Some(format!("{}({})", n, v?.join(", ")))
            }
            Pat::Path(p) => {
                let n = toks(&p.path);
                if n == "None" {
                    Some(n)
                } else {
                    None
                }
            }
            Pat::Lit(l) => match &l.lit {
                Lit::Bool(b) => Some(b.value.to_string()),
                _ => None,
            },
            Pat::Or(o) => {
                let v: Vec<Option<String>> = o.cases.iter().map(|x| self.pat(x, keep)).collect();
                let v: Option<Vec<String>> = v.into_iter().collect();
                Some(v?.join(" | "))
            }
            Pat::Struct(s) => {
                for f in &s.fields {
                    self.pat(&f.pat, false);
                }
                None
            }
            _ => None,
        }
    }
    fn block(&mut self, b: &Block) -> String {
        self.scopes.push(HashMap::new());
        let mut out = String::from("{\n");
        for s in &b.stmts {
            out.push_str(&self.stmt(s));
            out.push('\n');
        }
        self.scopes.pop();
        out.push('}');
        out
    }
    fn stmt(&mut self, s: &Stmt) -> String {
        match s {
            Stmt::Local(l) => self.local(l),
            Stmt::Expr(e, _) => self.stmt_expr(e),
            Stmt::Macro(m) => self.mac(&m.mac),
            Stmt::Item(Item::Fn(_)) => "vx_unsupported_item();".into(),
            Stmt::Item(_) => String::new(),
        }
    }
    fn mac(&mut self, m: &Macro) -> String {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let mut out = String::new();
        if let Ok(v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in &v {
                out.push_str(&self.effects(e));
            }
        } else {
            let t = m.tokens.to_string();
            if t.contains("fs ::") || t.contains("OpenOptions") {
                out.push_str("vx_unsupported_macro();");
            } else if t.contains('?') {
                out.push_str(&format!("if vx_flag() {{ {} }}", self.err()));
            }
        }
        if ["panic", "unreachable", "todo", "unimplemented", "stop"].contains(&n.as_str()) {
            out.push_str(&if self.ret == "()" { "return;".to_string() } else { "return vx_any();".to_string() });
        }
        out
    }
    fn local(&mut self, l: &Local) -> String {
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => (&*t.pat, kept_ty(&t.ty)),
            p => (p, None),
        };
        let Some(init) = &l.init else {
            if let Pat::Ident(i) = pat {
                let n = i.ident.to_string();
                if let Some(t) = ty {
                    self.bind(&n, Var::Kept(true));
                    return format!("let mut {}: {} = vx_any();", n, t);
                }
                self.bind(&n, Var::Dropped);
            }
            return String::new();
        };
        if let Some((_, els)) = &init.diverge {
            if let Some(c) = self.ex(&init.expr) {
                self.scopes.push(HashMap::new());
                let e = self.value(els, true);
                self.scopes.pop();
                // `let Some(x) = e else { .. }`
                if let Pat::TupleStruct(t) = pat {
                    let n = t.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    if let (Some(Pat::Ident(i)), true, Some(e)) = (t.elems.first(), ["Ok", "Some"].contains(&n.as_str()), e) {
                        self.bind(&i.ident.to_string(), Var::Kept(i.mutability.is_some()));
                        return format!("let {}{} = match {} {{ {}(vx_v) => vx_v, _ => {} }};", if i.mutability.is_some() { "mut " } else { "" }, i.ident, c, n, e);
                    }
                }
                return "vx_unsupported_let_else();".into();
            }
            let f = self.effects(&init.expr);
            let b = self.stmt_expr(els);
            self.pat(pat, false);
            return format!("{} if vx_flag() {{ {} }}", f, b);
        }
        if let Pat::Ident(i) = pat {
            let n = i.ident.to_string();
            let m = i.mutability.is_some();
            if let Some(t) = self.obj(&init.expr) {
                if !matches!(&*init.expr, Expr::Path(_)) {
                    let mut out = String::new();
                    if let Expr::Call(c) = &*init.expr {
                        for a in &c.args {
                            out.push_str(&self.effects(a));
                        }
                    }
                    let fields = has_fields_ty(self.w, t.0, &t.1);
                    if fields {
                        out.push_str(&format!("let mut {}: {} = vx_any();", n, sname(self.w, t.0, &t.1)));
                    }
                    self.bind(&n, Var::Obj(t, fields));
                    return out;
                }
            }
            let d = self.decided;
            self.decided = false;
            let c = self.ex(&init.expr);
            self.decided = d;
            if let Some(c) = c {
                if !matches!(c.as_str(), "None") || ty.is_some() {
                    self.bind(&n, Var::Kept(m));
                    return format!("let {}{}{} = {};", if m { "mut " } else { "" }, n, ty.map(|t| format!(": {}", t)).unwrap_or_default(), c);
                }
            }
            if self.fx(&init.expr).0 {
                self.losses.push(format!("value: {}", toks(&init.expr).chars().take(80).collect::<String>()));
            }
            let f = self.effects(&init.expr);
            if let Some(t) = ty {
                if !t.starts_with('&') {
                    self.bind(&n, Var::Kept(m));
                    return format!("{} let {}{}: {} = vx_any();", f, if m { "mut " } else { "" }, n, t);
                }
            }
            self.bind(&n, Var::Dropped);
            return f;
        }
        let f = self.effects(&init.expr);
        self.pat(pat, false);
        f
    }
    fn stmt_expr(&mut self, e: &Expr) -> String {
        let (hit, exits) = self.fx(e);
        if !hit && !exits {
            return String::new();
        }
        match e {
            Expr::If(i) => {
                self.scopes.push(HashMap::new());
                let h = self.cond(&i.cond);
                let b = self.block(&i.then_branch);
                self.scopes.pop();
                let els = match &i.else_branch {
                    Some((_, x)) => match &**x {
                        Expr::Block(b) => format!(" else {}", self.block(&b.block)),
                        y => format!(" else {{ {} }}", self.stmt_expr(y)),
                    },
                    None => String::new(),
                };
                format!("{} {}{}", h, b, els)
            }
            Expr::Block(b) => self.block(&b.block),
            Expr::Unsafe(b) => self.block(&b.block),
            Expr::Match(m) => {
                let s = self.ex(&m.expr);
                let mut ok = s.is_some();
                let mut arms = vec![];
                for _ in 0..2 {
                    arms.clear();
                    let n = m.arms.len();
                    let mut good = true;
                    for (k, arm) in m.arms.iter().enumerate() {
                        self.scopes.push(HashMap::new());
                        let p = self.pat(&arm.pat, ok);
                        let g = match &arm.guard {
                            Some((_, g)) => Some(self.flag(g)),
                            None => None,
                        };
                        let body = self.stmt_expr(&arm.body);
                        self.scopes.pop();
                        if ok && p.is_none() {
                            good = false;
                            break;
                        }
                        let p = if ok { p.unwrap() } else if k + 1 == n { "_".into() } else { k.to_string() };
                        arms.push(format!("{}{} => {{ {} }}", p, g.map(|g| format!(" if {}", g)).unwrap_or_default(), body));
                    }
                    if good {
                        break;
                    }
                    ok = false;
                }
                if ok {
                    format!("match {} {{ {} }}", s.unwrap(), arms.join("\n"))
                } else {
                    if self.fx(&m.expr).0 {
                        self.losses.push(format!("condition: {}", toks(&m.expr).chars().take(80).collect::<String>()));
                    }
                    let f = self.effects(&m.expr);
                    format!("{} match vx_choice() {{ {} }}", f, arms.join("\n"))
                }
            }
            Expr::ForLoop(l) => {
                let f = self.effects(&l.expr);
                self.scopes.push(HashMap::new());
                self.pat(&l.pat, false);
                let b = self.block(&l.body);
                self.scopes.pop();
                format!("{} while vx_flag() VX_INV {}", f, b)
            }
            Expr::While(l) => {
                if let Expr::Let(x) = &*l.cond {
                    self.scopes.push(HashMap::new());
                    if let Some(s) = self.ex(&x.expr) {
                        if let Some(p) = self.pat(&x.pat, true) {
                            let b = self.block(&l.body);
                            self.scopes.pop();
                            return format!("loop VX_INV {{ match {} {{ {} => {} _ => {{ break; }} }} }}", s, p, b);
                        }
                    }
                    let f = self.effects(&x.expr);
                    self.pat(&x.pat, false);
                    let b = self.block(&l.body);
                    self.scopes.pop();
                    return format!("loop VX_INV {{ {} if vx_flag() {{ break; }} {} }}", f, b);
                }
                let c = self.flag(&l.cond);
                let b = self.block(&l.body);
                format!("while {} VX_INV {}", c, b)
            }
            Expr::Loop(l) => {
                let b = self.block(&l.body);
                format!("loop VX_INV {}", b)
            }
            Expr::Return(r) => {
                let Some(x) = &r.expr else { return "return;".into() };
                let d = self.decided;
                self.decided = true;
                let v = self.value(x, true).unwrap_or("vx_any()".into());
                self.decided = d;
                format!("return {};", v)
            }
            Expr::Break(b) => {
                let f = b.expr.as_ref().map(|x| self.effects(x)).unwrap_or_default();
                if b.label.is_some() {
                    return "vx_unsupported_label();".into();
                }
                format!("{} break;", f)
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return "vx_unsupported_label();".into();
                }
                "continue;".into()
            }
            Expr::Assign(a) => {
                let left = match &*a.left {
                    Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|n| matches!(self.var(n), Some(Var::Kept(_)))),
                    Expr::Field(f) => self.self_field(f),
                    _ => None,
                };
                match left {
                    Some(n) => {
                        let d = self.decided;
                        self.decided = true;
                        let v = self.value(&a.right, true).unwrap_or("vx_any()".into());
                        self.decided = d;
                        format!("{} = {};", n, v)
                    }
                    None => self.effects(&a.right),
                }
            }
            Expr::Macro(m) => self.mac(&m.mac),
            Expr::Paren(p) => self.stmt_expr(&p.expr),
            _ => self.effects(e),
        }
    }
    fn effects(&mut self, e: &Expr) -> String {
        let (hit, exits) = self.fx(e);
        if !hit && !exits {
            return String::new();
        }
        match e {
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Assign(_) | Expr::Macro(_) | Expr::Unsafe(_) => return self.stmt_expr(e),
            _ => {}
        }
        let d = self.decided;
        self.decided = false;
        let k = self.ex(e);
        self.decided = d;
        if let Some(c) = k {
            return format!("let _ = {};", c);
        }
        let mut out = String::new();
        match e {
            Expr::MethodCall(m) => {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(i) = p.path.get_ident() {
                        if matches!(self.var(&i.to_string()), Some(Var::Kept(true))) && !known_pure(&m.method.to_string()) {
                            self.losses.push(format!("{}.{}", i, m.method));
                            for a in &m.args {
                                out.push_str(&self.effects(a));
                            }
                            out.push_str(&format!("{} = vx_any();", i));
                            return out;
                        }
                    }
                }
                out.push_str(&self.effects(&m.receiver));
                for a in &m.args {
                    out.push_str(&self.effects(a));
                }
            }
            Expr::Call(c) => {
                for a in &c.args {
                    out.push_str(&self.effects(a));
                }
            }
            Expr::Try(t) => {
                out.push_str(&self.effects(&t.expr));
                out.push_str(&format!("if vx_flag() {{ {} }}", self.err()));
            }
            Expr::Binary(b) => {
                out.push_str(&self.effects(&b.left));
                let r = self.effects(&b.right);
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && !r.is_empty() {
                    out.push_str(&format!("if vx_flag() {{ {} }}", r));
                } else {
                    out.push_str(&r);
                }
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Expr::Path(p) = &*r.expr {
                        if let Some(i) = p.path.get_ident() {
                            if matches!(self.var(&i.to_string()), Some(Var::Kept(_))) {
                                self.losses.push(format!("&mut {}", i));
                                return format!("{} = vx_any();", i);
                            }
                        }
                    }
                }
                out.push_str(&self.effects(&r.expr))
            }
            Expr::Paren(r) => out.push_str(&self.effects(&r.expr)),
            Expr::Unary(r) => out.push_str(&self.effects(&r.expr)),
            Expr::Cast(r) => out.push_str(&self.effects(&r.expr)),
            Expr::Field(r) => out.push_str(&self.effects(&r.base)),
            Expr::Index(r) => {
                out.push_str(&self.effects(&r.expr));
                out.push_str(&self.effects(&r.index));
            }
            Expr::Tuple(t) => {
                for x in &t.elems {
                    out.push_str(&self.effects(x));
                }
            }
            Expr::Array(t) => {
                for x in &t.elems {
                    out.push_str(&self.effects(x));
                }
            }
            Expr::Struct(s) => {
                for f in &s.fields {
                    out.push_str(&self.effects(&f.expr));
                }
            }
            Expr::Let(l) => out.push_str(&self.effects(&l.expr)),
            Expr::Closure(_) => out.push_str("vx_unsupported_closure();"),
            _ => out.push_str("vx_unsupported();"),
        }
        out
    }
}
fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Macro(m) => ["panic", "unreachable", "todo", "unimplemented", "stop"].contains(&m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default().as_str()),
        _ => false,
    }
}
fn has_fields_ty(w: &World, file: usize, ty: &str) -> bool {
    w.files[file].structs.get(ty).map(|v| v.iter().any(|(_, t)| kept_ty(t).is_some())).unwrap_or(false)
}
fn has_fields(w: &World, f: &Func) -> bool {
    f.ty.as_ref().map(|t| has_fields_ty(w, f.file, t)).unwrap_or(false)
}
fn sname(w: &World, file: usize, ty: &str) -> String {
    format!("VxS_{}__{}", w.files[file].rel.trim_end_matches(".rs").replace(|c: char| !c.is_alphanumeric(), "_"), ty)
}
fn mangle(w: &World, i: usize) -> String {
    let f = &w.funcs[i];
    format!("{}__{}{}", w.files[f.file].rel.trim_end_matches(".rs").replace(|c: char| !c.is_alphanumeric(), "_"), f.ty.as_ref().map(|t| format!("{}__", t)).unwrap_or_default(), f.name)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let conf: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let root = conf["root"].as_str().unwrap();
    let mut w = World { files: vec![], funcs: vec![], ralias: HashMap::new(), stubs: BTreeSet::new() };
    let mut clash: BTreeSet<String> = BTreeSet::new();
    for f in conf["files"].as_array().unwrap() {
        let rel = f.as_str().unwrap().to_string();
        let src = match std::fs::read_to_string(format!("{}/{}", root, rel)) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("{}: {}", rel, e);
                std::process::exit(3);
            }
        };
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("{}: {}", rel, e);
                std::process::exit(3);
            }
        };
        let mut module: Vec<String> = rel.trim_end_matches(".rs").split('/').map(String::from).collect();
        if ["mod", "render", "parser"].contains(&module.last().unwrap().as_str()) && module.len() > 1 && rel != "helpers/render.rs" {
            let l = module.pop().unwrap();
            if rel == "workflow/render/render.rs" || rel == "protocol/render/render.rs" {
                let _ = l;
            }
        }
        let mut fl = File_ { rel, module, consts: HashMap::new(), alias: HashMap::new(), structs: HashMap::new() };
        let idx = w.files.len();
        let mut c = Collect { file: idx, funcs: &mut w.funcs, f: &mut fl, mods: vec![], ty: None };
        c.visit_file(&file);
        for (k, v) in &fl.alias {
            if v.last() != Some(k) {
                if let Some(o) = w.ralias.get(k) {
                    if o != v {
                        clash.insert(k.clone());
                    }
                }
                w.ralias.insert(k.clone(), v.clone());
            }
        }
        w.files.push(fl);
    }
    for k in clash {
        w.ralias.remove(&k);
    }
    for s in conf["stubs"].as_array().map(|v| v.clone()).unwrap_or_default() {
        w.stubs.insert(s.as_str().unwrap().to_string());
    }
    for i in 0..w.funcs.len() {
        let m = mangle(&w, i);
        if mentions_path(&w.funcs[i].sig) || w.stubs.contains(&m) {
            w.funcs[i].kept = true;
        }
    }
    let mut lits = BTreeSet::new();
    // least fixpoint of "can reach the file system"
    loop {
        let mut add = vec![];
        for i in 0..w.funcs.len() {
            if w.funcs[i].kept {
                continue;
            }
            let mut g = Gen { w: &w, cur: i, scopes: vec![HashMap::new()], lits: &mut lits, losses: vec![], ret: String::new(), decided: false };
            for x in &w.funcs[i].sig.inputs {
                if let FnArg::Typed(t) = x {
                    if let Pat::Ident(id) = &*t.pat {
                        bind_param(&mut g, &id.ident.to_string(), &t.ty, false);
                    }
                }
            }
            for s in &w.funcs[i].block.stmts {
                if let Stmt::Local(l) = s {
                    if let (Pat::Ident(id), Some(x)) = (match &l.pat { Pat::Type(t) => &*t.pat, p => p }, &l.init) {
                        if let Some(t) = g.obj(&x.expr) {
                            g.bind(&id.ident.to_string(), Var::Obj(t, false));
                        }
                    }
                }
            }
            if w.funcs[i].block.stmts.iter().any(|s| g.fx_stmt(s).0) {
                add.push(i);
            }
        }
        if add.is_empty() {
            break;
        }
        for i in add {
            w.funcs[i].kept = true;
        }
    }
    lits.clear();
    let contracts = conf["contracts"].as_object().cloned().unwrap_or_default();
    let default = conf["default"].as_object().cloned().unwrap();
    let probes = conf["probes"].as_bool().unwrap_or(false);
    let mut out = String::new();
    let mut report = vec![];
    let mut structs: BTreeMap<String, String> = BTreeMap::new();
    let mut body = String::new();
    for i in 0..w.funcs.len() {
        if !w.funcs[i].kept {
            continue;
        }
        let f = w.funcs[i].clone();
        let m = mangle(&w, i);
        let ret = match &f.sig.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => {
                let t = out_ty(t);
                if t == "Self" { "VxAny".into() } else { t }
            }
        };
        let mut g = Gen { w: &w, cur: i, scopes: vec![HashMap::new()], lits: &mut lits, losses: vec![], ret: ret.clone(), decided: true };
        let mut params = vec![];
        let mut ghosts = String::new();
        if let Some(r) = f.sig.receiver() {
            if has_fields(&w, &f) {
                let t = f.ty.clone().unwrap();
                params.push(format!("vx_self: &{}{}", if r.mutability.is_some() { "mut " } else { "" }, sname(&w, f.file, &t)));
                let mut s = String::new();
                for (n, ty) in &w.files[f.file].structs[&t] {
                    if let Some(k) = kept_ty(ty) {
                        s.push_str(&format!("pub {}: {}, ", n, k));
                    }
                }
                structs.insert(sname(&w, f.file, &t), s);
            }
        }
        let mut names = vec![];
        for (k, x) in f.sig.inputs.iter().enumerate() {
            if let FnArg::Typed(t) = x {
                let (n, mt) = match &*t.pat {
                    Pat::Ident(id) => (id.ident.to_string(), id.mutability.is_some()),
                    _ => (format!("vx_p{}", k), false),
                };
                let ty = kept_ty(&t.ty);
                bind_param(&mut g, &n, &t.ty, mt);
                match ty {
                    Some(t) => {
                        if mt {
                            // a parameter which is changed: the contract speaks of the value it had
                            params.push(format!("vx_in_{}: {}", n, t));
                            ghosts.push_str(&format!("let ghost vx_g_{} = vx_in_{}; let mut {} = vx_in_{};\n", n, n, n, n));
                            names.push(format!("{}=vx_in_{}", n, n));
                        } else {
                            params.push(format!("{}: {}", n, t));
                            names.push(n.clone());
                        }
                    }
                    None => params.push(format!("vx_d{}: VxAny", k)),
                }
            }
        }
        params.push("Tracked(vx_w): Tracked<&mut VxFs>".into());
        let key = m.clone();
        let c = contracts.get(&key).and_then(|v| v.as_object()).cloned();
        let listed = c.is_some();
        let c = c.unwrap_or(default.clone());
        let txt = |k: &str| c.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
        let inv = txt("inv");
        let stub = w.stubs.contains(&m);
        let line = out.matches('\n').count() + body.matches('\n').count();
        let _ = line;
        body.push_str(&format!("// {}:{} {}\n", w.files[f.file].rel, f.line, f.name));
        if stub {
            body.push_str(&format!("#[verifier::external_body]\npub fn {}({}) -> (vx_r: {})\n{}\n{{ unimplemented!() }}\n\n", m, params.join(", "), ret, txt("clauses")));
            report.push(json!({"fn": m, "file": w.files[f.file].rel, "line": f.line, "listed": listed, "stub": true, "losses": [], "calls": []}));
            continue;
        }
        let b = g.block_value(&f.block, true).unwrap_or("{ vx_unsupported() }".into());
        let losses = g.losses.clone();
        let calls: BTreeSet<String> = w.funcs.iter().enumerate().filter(|(_, f)| f.kept).map(|(j, _)| mangle(&w, j)).filter(|n| b.contains(&format!("{}(", n))).collect();
        let b = b.replace("VX_INV", &format!("\ninvariant {}\n", if inv.is_empty() { "true".to_string() } else { inv.clone() }));
        let whole = format!("{} {}", b, txt("clauses"));
        let mut hints = txt("start");
        let mut odd = vec![];
        for (k, l) in lits.iter().enumerate() {
            if !whole.contains(&format!("{:?}", l)) {
                continue;
            }
            let _ = k;
            match parts(l) {
                Some(_) => hints.push_str(&format!("{}(); ", lit_name(l))),
                None => odd.push(l.clone()),
            }
        }
        if probes {
            body.push_str(&format!("#[verifier::external_body]\npub fn {}({}) -> (vx_r: {})\n{}\n{{ unimplemented!() }}\n\n", m, params.join(", "), ret, txt("clauses")));
        }
        body.push_str(&format!(
            "#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\npub fn {}{}({}) -> (vx_r: {})\n{}\n{{\n{}let ghost vx_w0 = vx_w@; proof {{ {} }}\n{}\n}}\n\n",
            if probes { "vx_probe__" } else { "" },
            m,
            params.join(", "),
            ret,
            if probes { "ensures false,".to_string() } else { txt("clauses") },
            ghosts,
            hints,
            b
        ));
        report.push(json!({"fn": m, "file": w.files[f.file].rel, "line": f.line, "listed": listed, "stub": false, "losses": losses, "calls": calls, "odd": odd}));
    }
    for (n, s) in structs {
        out.push_str(&format!("pub struct {} {{ {} }}\n", n, s));
    }
    out.push_str(&body);
    let mut bad = vec![];
    let mut all = vec![];
    for l in &lits {
        match parts(l) {
            Some(p) => {
                let v = if p.is_empty() { "Seq::<Seq<char>>::empty()".to_string() } else { format!("seq![{}]", p.iter().map(|x| format!("{:?}@", x)).collect::<Vec<_>>().join(", ")) };
                out.push_str(&format!("#[verifier::external_body]\npub proof fn {}()\n    ensures vx_parts({:?}@) == {},\n{{}}\n", lit_name(l), l, v));
                all.push(format!("{}();", lit_name(l)));
            }
            None => bad.push(l.clone()),
        }
    }
    if probes {
        out.push_str(&format!("pub proof fn vx_probe__vx_lits()\n    ensures false,\n{{ {} }}\n", all.join(" ")));
    }
    let prelude = std::fs::read_to_string(conf["prelude"].as_str().unwrap()).unwrap();
    std::fs::write(conf["out"].as_str().unwrap(), format!("{}\n{}\n}}\nfn main() {{}}\n", prelude, out)).unwrap();
    std::fs::write(conf["report"].as_str().unwrap(), serde_json::to_string_pretty(&json!({"functions": report, "literals": lits, "not_plain": bad})).unwrap()).unwrap();
}
/// the components of a plain relative path
fn parts(l: &str) -> Option<Vec<&str>> {
    let p: Vec<&str> = l.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
    if l.starts_with('/') || p.contains(&"..") || l.contains('\\') {
        return None;
    }
    Some(p)
}
fn lit_name(l: &str) -> String {
    let mut h: u64 = 1469598103934665603;
    for b in l.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    format!("vx_lit_{:016x}", h)
}
fn bind_param(g: &mut Gen, n: &str, t: &Type, m: bool) {
    if kept_ty(t).is_some() {
        g.bind(n, Var::Kept(m));
        return;
    }
    let mut t = t;
    while let Type::Reference(r) = t {
        t = &r.elem;
    }
    if let Type::Path(p) = t {
        if let Some(o) = g.w.typ(g.f().file, &segs(&p.path)) {
            g.bind(n, Var::Obj(o, false));
            return;
        }
    }
    g.bind(n, Var::Dropped);
}
