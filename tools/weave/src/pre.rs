//! Rewritings of a whole source file before contracts are woven in.
//!  async:    `async fn f(a)` becomes `fn f(a, W)`, `f(a).await` becomes `f(a, W)`: one task owns the state, so an
//!            await is a call; W is the ghost record of what the program did to its surroundings.
//!  select!:   one of its arms completes; the futures of the others may have run or not (those that can be
//!            dropped without a trace, `recv`, `cancelled` and `sleep`, have not).
//!  spawn:    `spawn(async move { .. })` runs its body at that place; the body shares nothing with the spawning task.
//!  join!:     its blocks run one after another (a block that can leave the function stops the rewriting); what the
//!            others do shows in what comes out of the channels and in the tokens, which is arbitrary in any case.
//!  map_err:  `x.map_err(f)` becomes a `match` (its definition); likewise `map` of an Option.
use serde_json::{Map, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Pre<'a> {
    src: &'a str,
    asy: bool,
    inline: bool,
    param: String,
    arg: String,
    edits: Vec<(usize, usize, String)>,
    world_methods: Vec<String>,
    world_fns: Vec<String>,
    ctor_maps: bool,
    notes: Vec<String>,
}

fn br(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

struct Arm {
    pat: syn::Pat,
    fut: syn::Expr,
    body: syn::Expr,
}
struct Arms(Vec<Arm>);
impl syn::parse::Parse for Arms {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            let pat = syn::Pat::parse_multi_with_leading_vert(i)?;
            i.parse::<syn::Token![=]>()?;
            let fut: syn::Expr = i.parse()?;
            i.parse::<syn::Token![=>]>()?;
            let body: syn::Expr = i.parse()?;
            v.push(Arm { pat, fut, body });
            if i.peek(syn::Token![,]) {
                i.parse::<syn::Token![,]>()?;
            }
        }
        Ok(Arms(v))
    }
}
fn traceless(e: &syn::Expr, more: &[String]) -> bool {
    match e {
        syn::Expr::MethodCall(m) => m.method == "recv" || m.method == "cancelled" || more.contains(&m.method.to_string()),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "sleep").unwrap_or(false)),
        _ => false,
    }
}
struct Tasks(Vec<syn::ExprAsync>);
impl syn::parse::Parse for Tasks {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let l = i.parse_terminated(syn::ExprAsync::parse, syn::Token![,])?;
        Ok(Tasks(l.into_iter().collect()))
    }
}
struct Leaves(bool);
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = m.tokens.to_string();
        if t.contains("return") || t.contains('?') {
            self.0 = true;
        }
    }
}
// `?` and `return` of an async block that is awaited where it is written
struct Asyncs {
    edits: Vec<(usize, usize, String)>,
}
impl<'ast> Visit<'ast> for Asyncs {
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        let (lo, _) = br(t.span());
        let (qlo, qhi) = br(t.question_token.span());
        self.edits.push((lo, lo, "(match ".into()));
        self.visit_expr(&t.expr);
        self.edits.push((qlo, qhi, " { Ok(vx_o) => vx_o, Err(vx_e) => { vx_res = Some(Err(vx_e)); break 'vx_async; } })".into()));
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        let (lo, hi) = br(r.span());
        match &r.expr {
            Some(e) => {
                let (elo, ehi) = br(e.span());
                self.edits.push((lo, elo, "{ vx_res = Some(".into()));
                self.visit_expr(e);
                self.edits.push((ehi, hi, "); break 'vx_async; }".into()));
            }
            None => self.edits.push((lo, hi, "{ vx_res = Some(()); break 'vx_async; }".into())),
        }
    }
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, _: &'ast syn::Macro) {}
}
struct InMacros(bool);
impl<'ast> Visit<'ast> for InMacros {
    fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {
        self.0 = true;
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let log = m.path.segments.last().map(|s| ["debug", "warn", "error", "trace", "info"].contains(&s.ident.to_string().as_str())).unwrap_or(false);
        let t = m.tokens.to_string();
        if !log && (t.contains("return") || t.contains('?') || t.contains("break")) || t.contains("await") {
            self.0 = true;
        }
    }
}
struct Selects<'a> {
    src: &'a str,
    more: Vec<String>,
    edits: Vec<(usize, usize, String)>,
}
impl<'ast, 'a> Visit<'ast> for Selects<'a> {
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        if m.mac.path.segments.last().map(|s| s.ident == "join").unwrap_or(false) {
            let Ok(Tasks(tasks)) = syn::parse2::<Tasks>(m.mac.tokens.clone()) else { return };
            let mut leaves = Leaves(false);
            for t in &tasks {
                leaves.visit_block(&t.block);
            }
            if leaves.0 || tasks.len() < 2 {
                return;
            }
            // only the words around the blocks go: what is in them is rewritten in turn
            let (lo, hi) = br(m.span());
            let mut at = lo;
            for (n, t) in tasks.iter().enumerate() {
                let (blo, bhi) = br(t.block.span());
                self.edits.push((at, blo, if n == 0 { "(".into() } else { ", ".into() }));
                at = bhi;
            }
            self.edits.push((at, hi, ")".into()));
            return;
        }
        if !m.mac.path.segments.last().map(|s| s.ident == "select").unwrap_or(false) {
            return;
        }
        let Ok(Arms(arms)) = syn::parse2::<Arms>(m.mac.tokens.clone()) else { return };
        let t = |s: proc_macro2::Span| self.src[br(s).0..br(s).1].to_string();
        let mut o = String::from("(match vx_choice() { ");
        for (n, a) in arms.iter().enumerate() {
            o += &if n + 1 == arms.len() { "_ => { ".to_string() } else { format!("{} => {{ ", n) };
            for (k, b) in arms.iter().enumerate() {
                if k != n && !traceless(&b.fut, &self.more) {
                    o += &format!("if vx_choice() == 0 {{ let _ = {}.await; }} ", t(b.fut.span()));
                }
            }
            o += &format!("let {} = {}.await; {} }} ", t(a.pat.span()), t(a.fut.span()), t(a.body.span()));
        }
        let (lo, hi) = br(m.span());
        self.edits.push((lo, hi, o + "})"));
    }
    fn visit_expr_await(&mut self, w: &'ast syn::ExprAwait) {
        if let syn::Expr::Async(a) = &*w.base {
            let mut m = InMacros(false);
            m.visit_block(&a.block);
            if m.0 {
                // in a later round
                visit::visit_expr_await(self, w);
                return;
            }
            let (lo, hi) = br(w.span());
            let (blo, bhi) = br(a.block.span());
            let mut leaves = Leaves(false);
            leaves.visit_block(&a.block);
            if !leaves.0 {
                self.edits.push((lo, blo, String::new()));
                self.edits.push((bhi, hi, String::new()));
            } else {
                let mut v = Asyncs { edits: vec![] };
                self.edits.push((lo, blo, "{ let mut vx_res = None; 'vx_async: loop { let vx_v = ".into()));
                v.visit_block(&a.block);
                self.edits.extend(v.edits);
                self.edits.push((bhi, hi, "; vx_res = Some(vx_v); break 'vx_async; } vx_taken(vx_res) }".into()));
            }
            return;
        }
        visit::visit_expr_await(self, w);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.segments.last().map(|s| s.ident == "spawn").unwrap_or(false) && c.args.len() == 1 {
                if let syn::Expr::Async(a) = &c.args[0] {
                    let (lo, hi) = br(c.span());
                    let (blo, bhi) = br(a.block.span());
                    self.edits.push((lo, blo, String::new()));
                    self.edits.push((bhi, hi, String::new()));
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
}
fn apply(src: &str, mut edits: Vec<(usize, usize, String)>) -> String {
    edits.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.cmp(&b.1)));
    let (mut out, mut pos) = (String::new(), 0);
    for (lo, hi, t) in edits {
        if lo < pos {
            continue;
        }
        out.push_str(&src[pos..lo]);
        out.push_str(&t);
        let (want, have) = (src[lo..hi].matches('\n').count(), t.matches('\n').count());
        for _ in have..want {
            out.push('\n');
        }
        pos = hi;
    }
    out.push_str(&src[pos..]);
    out
}

impl<'a> Pre<'a> {
    fn arg_at(&mut self, open: usize, close: usize) {
        // close: offset of `)`
        let inner = self.src[open + 1..close].trim();
        let sep = if inner.is_empty() || inner.ends_with(',') { "" } else { ", " };
        // after the last token, before white space
        let end = open + 1 + self.src[open + 1..close].trim_end().len();
        self.edits.push((end, end, format!("{}{}", sep, self.arg)));
    }
    fn sig(&mut self, s: &syn::Signature) {
        if !self.asy {
            return;
        }
        if let Some(a) = &s.asyncness {
            let (lo, mut hi) = br(a.span());
            while self.src[hi..].starts_with(|c: char| c.is_whitespace()) {
                hi += 1;
            }
            self.edits.push((lo, hi, String::new()));
            let (plo, phi) = br(s.paren_token.span.span());
            let inner = self.src[plo + 1..phi - 1].trim();
            let sep = if inner.is_empty() || inner.ends_with(',') { "" } else { ", " };
            let end = plo + 1 + self.src[plo + 1..phi - 1].trim_end().len();
            self.edits.push((end, end, format!("{}{}", sep, self.param)));
            self.notes.push(format!("async fn {}", s.ident));
        }
    }
}

impl<'ast, 'a> Visit<'ast> for Pre<'a> {
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        self.sig(&f.sig);
        visit::visit_item_fn(self, f);
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.sig(&f.sig);
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        if self.asy && !matches!(&*a.base, syn::Expr::Async(_)) {
            let (_, bhi) = br(a.base.span());
            let (_, hi) = br(a.span());
            match &*a.base {
                syn::Expr::Call(c) => {
                    let (lo, e) = br(c.paren_token.span.span());
                    self.arg_at(lo, e - 1);
                    self.edits.push((bhi, hi, String::new()));
                    for x in c.args.iter() {
                        self.visit_expr(x);
                    }
                    return;
                }
                syn::Expr::MethodCall(c) => {
                    let (lo, e) = br(c.paren_token.span.span());
                    self.visit_expr(&c.receiver);
                    for x in c.args.iter() {
                        self.visit_expr(x);
                    }
                    self.arg_at(lo, e - 1);
                    self.edits.push((bhi, hi, String::new()));
                    return;
                }
                _ => self.edits.push((bhi, hi, format!(".vx_await({})", self.arg))),
            }
        }
        visit::visit_expr_await(self, a);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let (lo, hi) = br(p.span());
            let name: String = self.src[lo..hi].split_whitespace().collect();
            if self.asy && self.world_fns.contains(&name) {
                let (lo, e) = br(c.paren_token.span.span());
                self.arg_at(lo, e - 1);
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if self.asy && self.world_methods.contains(&m.method.to_string()) {
            self.visit_expr(&m.receiver);
            for x in m.args.iter() {
                self.visit_expr(x);
            }
            let (lo, e) = br(m.paren_token.span.span());
            self.arg_at(lo, e - 1);
            return;
        }
        let name = m.method.to_string();
        let opt = match &*m.receiver {
            syn::Expr::MethodCall(r) => ["vx_as_deref_mut", "as_deref_mut", "as_deref", "get", "get_mut", "as_ref", "as_mut", "take", "first", "last"].contains(&r.method.to_string().as_str()),
            _ => false,
        };
        let ctor = self.ctor_maps && name == "map" && m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments.last().unwrap().ident.to_string().starts_with(|c: char| c.is_uppercase()));
        if self.inline && m.args.len() == 1 && (name == "map_err" || (name == "map" && opt) || ctor) {
            let (rlo, rhi) = br(m.receiver.span());
            let (_, hi) = br(m.span());
            let (pass, hit, wrap, post) = if name == "map_err" { ("Ok(vx_o) => Ok(vx_o)", "Err", "Err", "") } else { ("None => None", "Some", "Some", "") };
            let _ = post;
            match &m.args[0] {
                syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                    let pat = match &c.inputs[0] {
                        syn::Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    let (plo, phi) = br(pat.span());
                    let (blo, bhi) = br(c.body.span());
                    let body = &self.src[blo..bhi];
                    let flow = body.contains("return") || body.contains('?') || body.contains("break") || body.contains("continue");
                    if !flow {
                        self.edits.push((rlo, rlo, "(match ".into()));
                        self.edits.push((rhi, blo, format!(" {{ {}, {}({}) => {}(", pass, hit, &self.src[plo..phi], wrap)));
                        self.edits.push((bhi, hi, ") })".into()));
                        self.notes.push(name.clone());
                        visit::visit_expr(self, &m.receiver);
                        visit::visit_expr(self, &c.body);
                        return;
                    }
                }
                syn::Expr::Path(p) => {
                    let (plo, phi) = br(p.span());
                    self.edits.push((rlo, rlo, "(match ".into()));
                    self.edits.push((rhi, plo, format!(" {{ {}, {}(vx_e) => {}(", pass, hit, wrap)));
                    self.edits.push((phi, hi, "(vx_e)) })".into()));
                    self.notes.push(name.clone());
                    visit::visit_expr(self, &m.receiver);
                    return;
                }
                _ => {}
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

pub fn rewrite(src: String, rules: &Map<String, Value>) -> (String, Vec<String>) {
    let on = |k: &str| rules.get(k).and_then(|v| v.as_bool()).unwrap_or(false);
    let mut src = src;
    let mut subs = vec![];
    if let Some(a) = rules.get("subst").and_then(|v| v.as_array()) {
        for x in a {
            if let (Some(f), Some(t)) = (x.get(0).and_then(|v| v.as_str()), x.get(1).and_then(|v| v.as_str())) {
                if src.contains(f) {
                    src = src.replace(f, t);
                    subs.push(format!("{} => {}", f, t));
                }
            }
        }
    }
    let (asy, inline) = (on("erase_async"), on("inline_maps"));
    if !asy && !inline {
        return (src, subs);
    }
    if asy && on("selects") {
        let more: Vec<String> = rules.get("traceless").and_then(|v| v.as_array()).map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        // what is in a macro shows only once the macro is gone
        for _ in 0..8 {
            let Ok(file) = syn::parse_file(&src) else { break };
            let mut v = Selects { src: &src, more: more.clone(), edits: vec![] };
            v.visit_file(&file);
            let n = v.edits.len();
            let e = std::mem::take(&mut v.edits);
            if n == 0 {
                break;
            }
            src = apply(&src, e);
            subs.push(format!("{} rewritings of select!, join!, spawn and awaited blocks", n));
        }
    }
    let Ok(file) = syn::parse_file(&src) else { return (src, subs) };
    let list = |k: &str| -> Vec<String> { rules.get(k).and_then(|v| v.as_array()).map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default() };
    let text = |k: &str, d: &str| rules.get(k).and_then(|v| v.as_str()).unwrap_or(d).to_string();
    let mut p = Pre {
        src: &src,
        asy,
        inline,
        param: text("world_param", "Tracked(vx_w): Tracked<&mut crate::VxWorld>"),
        arg: text("world_arg", "Tracked(vx_w)"),
        edits: vec![],
        world_methods: list("world_methods"),
        world_fns: list("world_fns"),
        ctor_maps: on("inline_ctor_maps"),
        notes: vec![],
    };
    p.visit_file(&file);
    let mut edits = std::mem::take(&mut p.edits);
    let mut notes = std::mem::take(&mut p.notes);
    notes.extend(subs);
    // insertions at one offset: outer ones were pushed first and must come first
    let mut idx: Vec<usize> = (0..edits.len()).collect();
    idx.sort_by(|a, b| edits[*a].0.cmp(&edits[*b].0).then(edits[*a].1.cmp(&edits[*b].1)).then(a.cmp(b)));
    let mut out = String::new();
    let mut pos = 0;
    for i in idx {
        let (lo, hi, t) = std::mem::take(&mut edits[i]);
        if lo < pos {
            continue;
        }
        out.push_str(&src[pos..lo]);
        out.push_str(&t);
        // keep the line structure
        let want = src[lo..hi].matches('\n').count();
        let have = t.matches('\n').count();
        for _ in have..want {
            out.push('\n');
        }
        pos = hi;
    }
    out.push_str(&src[pos..]);
    (out, notes)
}
