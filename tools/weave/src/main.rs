//! weave: mechanical extraction of functions from Rust sources into a Verus file.
//!
//! usage: weave RULES.json OUT.rs REPORT.json
//!
//! The executable text of every kept item is copied byte for byte from the source
//! file; the only differences are the span edits listed in REPORT.json ("edits"):
//!   insert  - ghost text (contracts, invariants, proof blocks, spec members)
//!   rename  - a method/path/macro renamed to a wrapper with a contract
//!   drop    - an item/attribute/derive removed
//! Anything a rule names and the source no longer has is reported in "lost".
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Map, Value};
mod pre;
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn toks<T: ToTokens>(t: &T) -> String {
    squash(&t.to_token_stream().to_string())
}

#[derive(Clone)]
struct Edit {
    lo: usize,
    hi: usize,
    text: String,
    kind: &'static str,
    note: String,
    seq: usize,
}

struct FnInfo {
    key: String,
    lo: usize,
    hi: usize,
    contracted: bool,
    loops: usize,
    kept: bool,
    fingerprint: String,
}

struct Cx<'a> {
    src: &'a str,
    rules: &'a Map<String, Value>,
    edits: Vec<Edit>,
    used: HashSet<String>,
    lost: Vec<String>,
    fns: Vec<FnInfo>,
    uncontracted: Vec<String>,
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

impl<'a> Cx<'a> {
    fn ins(&mut self, at: usize, text: String, note: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { lo: at, hi: at, text, kind: "insert", note: note.into(), seq });
    }
    fn rep(&mut self, sp: (usize, usize), text: String, kind: &'static str, note: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { lo: sp.0, hi: sp.1, text, kind, note: note.into(), seq });
    }
    fn strs(&self, key: &str) -> Vec<String> {
        self.rules
            .get(key)
            .and_then(|v| v.as_array())
            .map(|a| a.iter().filter_map(|x| x.as_str().map(squash)).collect())
            .unwrap_or_default()
    }
    fn map(&self, key: &str) -> BTreeMap<String, String> {
        self.rules
            .get(key)
            .and_then(|v| v.as_object())
            .map(|o| {
                o.iter()
                    .filter_map(|(k, v)| v.as_str().map(|s| (squash(k), s.to_string())))
                    .collect()
            })
            .unwrap_or_default()
    }
    fn rule(&mut self, key: &str) -> Option<Map<String, Value>> {
        let items = self.rules.get("items")?.as_object()?;
        let k = squash(key);
        for (name, v) in items {
            if squash(name) == k {
                self.used.insert(k);
                return v.as_object().cloned();
            }
        }
        None
    }
}

fn impl_key(i: &syn::ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => format!("impl {} for {}", toks(p), toks(&*i.self_ty)),
        None => format!("impl {}", toks(&*i.self_ty)),
    }
}

#[derive(Default)]
struct Scan {
    loops: Vec<LoopInfo>,
    closures: Vec<ClosureInfo>,
    lets: Vec<(String, String)>,
    stmts: Vec<(String, (usize, usize))>,
    methods: Vec<(String, (usize, usize), usize, (usize, usize))>,
    paths: Vec<(String, (usize, usize))>,
    macros: Vec<(String, (usize, usize), (usize, usize), bool)>,
    casts: usize,
    slices: Vec<((usize, usize), (usize, usize), Option<(usize, usize)>, Option<(usize, usize)>)>,
    eqs: Vec<(bool, (usize, usize), (usize, usize))>,
}
#[derive(Clone)]
struct LoopInfo {
    kind: &'static str,
    span: (usize, usize),
    body: (usize, usize),
    expr: Option<(usize, usize)>,
    pat: String,
}
#[derive(Clone)]
struct ClosureInfo {
    span: (usize, usize),
    body: (usize, usize),
    body_text: String,
    is_block: bool,
    params: Vec<String>,
    pats: Vec<((usize, usize), bool)>,
    has_ret: bool,
    ctx: String,
}
impl<'ast> Visit<'ast> for Scan {
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.loops.push(LoopInfo {
            kind: "for",
            span: br(l.span()),
            body: br(l.body.brace_token.span.span()),
            expr: Some(br(l.expr.span())),
            pat: toks(&*l.pat),
        });
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.loops.push(LoopInfo {
            kind: "while",
            span: br(l.span()),
            body: br(l.body.brace_token.span.span()),
            expr: Some(br(l.cond.span())),
            pat: String::new(),
        });
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.loops.push(LoopInfo {
            kind: "loop",
            span: br(l.span()),
            body: br(l.body.brace_token.span.span()),
            expr: None,
            pat: String::new(),
        });
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closures.push(ClosureInfo {
            span: br(c.span()),
            body: br(c.body.span()),
            body_text: c.body.to_token_stream().to_string(),
            is_block: matches!(&*c.body, syn::Expr::Block(_)),
            params: c.inputs.iter().map(toks).collect(),
            pats: c.inputs.iter().map(|p| (br(p.span()), matches!(p, syn::Pat::Ident(_) | syn::Pat::Type(_) | syn::Pat::Wild(_)))).collect(),
            has_ret: !matches!(c.output, syn::ReturnType::Default),
            ctx: String::new(),
        });
        visit::visit_expr_closure(self, c);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let name = match &l.pat {
            syn::Pat::Ident(i) => i.ident.to_string(),
            syn::Pat::Type(t) => match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                p => toks(p),
            },
            p => toks(p),
        };
        self.lets.push((name, toks(l)));
        visit::visit_local(self, l);
    }
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        if let Some(n) = first_ident(&l.pat) {
            self.lets.push((n, toks(l)));
        }
        visit::visit_expr_let(self, l);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if let Some(n) = first_ident(&a.pat) {
            self.lets.push((n, format!("arm{}", toks(&a.pat))));
        }
        visit::visit_arm(self, a);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts.push((toks(s), br(s.span())));
        visit::visit_stmt(self, s);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.methods.push((m.method.to_string(), br(m.method.span()), m.args.len(), br(m.receiver.span())));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        match e.op {
            syn::BinOp::Eq(_) => self.eqs.push((true, br(e.left.span()), br(e.right.span()))),
            syn::BinOp::Ne(_) => self.eqs.push((false, br(e.left.span()), br(e.right.span()))),
            _ => {}
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        if let syn::Expr::Range(r) = &*i.index {
            if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                self.slices.push((br(i.span()), br(i.expr.span()), r.start.as_ref().map(|e| br(e.span())), r.end.as_ref().map(|e| br(e.span()))));
            }
        }
        visit::visit_expr_index(self, i);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        self.paths.push((toks(p), br(p.span())));
        // f::<T>: also by its name alone
        if let Some(syn::PathSegment { ident, arguments: syn::PathArguments::AngleBracketed(a) }) = p.segments.last() {
            if a.colon2_token.is_some() {
                let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                self.paths.push((names.join("::"), (br(p.span()).0, br(ident.span()).1)));
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let (lo, hi) = br(m.path.span());
        let b = br(m.delimiter.span().join());
        self.macros.push((toks(&m.path), (lo, hi), b, false));
        visit::visit_macro(self, m);
        // the elements of vec![..] are ordinary expressions
        if toks(&m.path) == "vec" {
            use syn::punctuated::Punctuated;
            if let Ok(es) = m.parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let es: &'static Punctuated<syn::Expr, syn::Token![,]> = Box::leak(Box::new(es));
                for e in es.iter() {
                    self.visit_expr(e);
                }
            }
        }
    }
}

#[derive(Default)]
struct Nested {
    depth: usize,
    found: Option<(String, (usize, usize))>,
}
impl<'ast> Visit<'ast> for Nested {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.depth += 1;
        visit::visit_block(self, b);
        self.depth -= 1;
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if self.depth > 0 && self.found.is_none() {
            self.found = Some((f.sig.ident.to_string(), br(f.span())));
        }
        let d = std::mem::replace(&mut self.depth, 0);
        visit::visit_item_fn(self, f);
        self.depth = d;
    }
}

fn first_ident(p: &syn::Pat) -> Option<String> {
    struct F(Option<String>);
    impl<'a> Visit<'a> for F {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            let t = i.ident.to_string();
            if self.0.is_none() && t.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                self.0 = Some(t);
            }
        }
    }
    let mut f = F(None);
    f.visit_pat(p);
    f.0
}

fn subst(text: &str, env: &HashMap<String, String>) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("${") {
        out.push_str(&rest[..i]);
        let j = rest[i..].find('}').ok_or("unterminated ${")? + i;
        let name = &rest[i + 2..j];
        match env.get(name) {
            Some(v) => out.push_str(v),
            None => return Err(format!("no binding for ${{{}}}", name)),
        }
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

/// tiny matcher: pattern pieces separated by `@` (any text) with one `(*)` capturing an identifier
fn let_matches(pat: &str, text: &str) -> bool {
    let pat = squash(pat);
    let mut pos = 0usize;
    let pieces: Vec<&str> = pat.split('@').collect();
    for (i, p) in pieces.iter().enumerate() {
        if i == 0 {
            if !text.starts_with(p) {
                return false;
            }
            pos = p.len();
        } else if i == pieces.len() - 1 {
            if p.is_empty() {
                return true;
            }
            return text.len() >= pos + p.len() && text.ends_with(p);
        } else {
            match text[pos..].find(p) {
                Some(k) => pos += k + p.len(),
                None => return false,
            }
        }
    }
    pos == text.len()
}

impl<'a> Cx<'a> {
    fn sget(m: &Map<String, Value>, k: &str) -> Option<String> {
        m.get(k).and_then(|v| match v {
            Value::String(s) => Some(s.clone()),
            Value::Array(a) => Some(a.iter().filter_map(|x| x.as_str()).collect::<Vec<_>>().join("\n")),
            _ => None,
        })
    }

    fn do_fn(&mut self, key: &str, sig: &syn::Signature, block: Option<&syn::Block>, whole: (usize, usize), semi: Option<usize>) {
        let rule = self.rule(key);
        let mut env: HashMap<String, String> = HashMap::new();
        let mut n = 0;
        for a in sig.inputs.iter() {
            if let syn::FnArg::Typed(t) = a {
                let nm = match &*t.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    p => toks(p),
                };
                env.insert(format!("p{}", n), nm);
                n += 1;
            }
        }
        let mut scan = Scan::default();
        if let Some(b) = block {
            scan.visit_block(b);
        }
        self.fns.push(FnInfo {
            key: key.to_string(),
            lo: whole.0,
            hi: whole.1,
            contracted: rule.is_some(),
            loops: scan.loops.len(),
            kept: true,
            fingerprint: block.map(toks).unwrap_or_default(),
        });
        if rule.is_none() {
            self.uncontracted.push(key.to_string());
        }
        let r = rule.unwrap_or_default();
        // bindings
        let stubbed = self.strs("stub").iter().any(|k| squash(k) == squash(key));
        if let (Some(b), false) = (r.get("binds").and_then(|v| v.as_object()), stubbed) {
            let mut taken: HashSet<usize> = HashSet::new();
            for (var, pat) in b {
                let pats: Vec<String> = match pat {
                    Value::String(s) => vec![s.clone()],
                    Value::Array(a) => a.iter().filter_map(|x| x.as_str().map(String::from)).collect(),
                    _ => vec![],
                };
                let mut found = None;
                'o: for p in &pats {
                    for (i, (name, text)) in scan.lets.iter().enumerate() {
                        if taken.contains(&i) {
                            continue;
                        }
                        // the name itself is replaced by `$` for matching
                        let skip = if text.starts_with("letmut") { 6 } else { 3 }.min(text.len());
                        let t = if let Some(k) = text[skip..].find(name.as_str()).map(|k| k + skip) {
                            format!("{}${}", &text[..k], &text[k + name.len()..])
                        } else {
                            text.clone()
                        };
                        if let_matches(p, &t) {
                            found = Some((i, name.clone()));
                            break 'o;
                        }
                    }
                }
                match found {
                    Some((i, name)) => {
                        taken.insert(i);
                        env.insert(var.clone(), name);
                    }
                    None => self.lost.push(format!("{}: no let matching {:?} for {}", key, pats, var)),
                }
            }
        }
        let apply = |cx: &mut Self, text: &str| -> Option<String> {
            match subst(text, &env) {
                Ok(t) => Some(t),
                Err(e) => {
                    cx.lost.push(format!("{}: {}", key, e));
                    None
                }
            }
        };
        // return name
        if let Some(ret) = Self::sget(&r, "ret") {
            match &sig.output {
                syn::ReturnType::Type(_, ty) => {
                    let (lo, hi) = br(ty.span());
                    self.ins(lo, format!("({}: ", ret), "ret");
                    self.ins(hi, ")".into(), "ret");
                }
                syn::ReturnType::Default => {}
            }
        }
        if let Some(at) = Self::sget(&r, "attrs") {
            let lo = br(sig.span()).0;
            // before visibility: use start of the whole item
            let _ = lo;
            self.ins(whole.0, format!("{}\n", at), "attr");
        }
        let clause_pos = match (block, semi) {
            (Some(b), _) => Some(br(b.brace_token.span.span()).0),
            (None, Some(s)) => Some(s),
            _ => None,
        };
        if let (Some(c), Some(pos)) = (Self::sget(&r, "clauses"), clause_pos) {
            if let Some(t) = apply(self, &c) {
                self.ins(pos, format!("\n{}\n", t), "contract");
            }
        }
        if let (Some(b), true) = (block, self.strs("stub").iter().any(|k| squash(k) == squash(key))) {
            // not verified in this run: the contract is assumed and reported as such
            self.ins(whole.0, "#[verifier::external_body]\n".into(), "stub");
            self.rep(br(b.brace_token.span.span()), "{ unimplemented!() }".into(), "stub", "body not verified");
            return;
        }
        if let Some(b) = block {
            let (blo, bhi) = br(b.brace_token.span.span());
            if let Some(t) = Self::sget(&r, "start").and_then(|t| apply(self, &t)) {
                self.ins(blo + 1, format!("\n{}\n", t), "ghost");
            }
            if let Some(t) = Self::sget(&r, "end").and_then(|t| apply(self, &t)) {
                // before the tail expression if it is the result
                let unit = matches!(sig.output, syn::ReturnType::Default);
                match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if !unit => {
                        let pos = br(e.span()).0;
                        self.ins(pos, format!("\n{}\n", t), "ghost");
                    }
                    Some(syn::Stmt::Expr(_, None)) => self.ins(bhi - 1, format!(";\n{}\n", t), "ghost"),
                    _ => self.ins(bhi - 1, format!("\n{}\n", t), "ghost"),
                }
            }
            if let Some(t) = Self::sget(&r, "tail_wrap").and_then(|t| apply(self, &t)) {
                // let vx_tail = <tail>; proof; vx_tail
                if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
                    let (lo, hi) = br(e.span());
                    self.ins(lo, "let vx_tail = ".into(), "ghost");
                    self.ins(hi, format!(";\n{}\nvx_tail", t), "ghost");
                } else {
                    self.lost.push(format!("{}: no tail expression", key));
                }
            }
            // loops
            if let Some(ls) = r.get("loops").and_then(|v| v.as_array()).cloned() {
                let opt = r.get("loops_optional").and_then(|v| v.as_bool()).unwrap_or(false);
                if ls.len() != scan.loops.len() && !opt {
                    self.lost.push(format!("{}: rule has {} loops, source has {}", key, ls.len(), scan.loops.len()));
                }
                for (i, l) in ls.iter().enumerate() {
                    let Some(lm0) = l.as_object() else { continue };
                    let Some(info) = scan.loops.get(i).cloned() else { continue };
                    let mut lmm = lm0.clone();
                    if let Some(k) = lm0.get("kinds").and_then(|v| v.get(info.kind)).and_then(|v| v.as_object()) {
                        for (a, b) in k {
                            lmm.insert(a.clone(), b.clone());
                        }
                    }
                    let lm = &lmm;
                    if let Some(k) = Self::sget(lm, "kind") {
                        if k != info.kind {
                            self.lost.push(format!("{}: loop {} is `{}`, rule expects `{}`", key, i, info.kind, k));
                            continue;
                        }
                    }
                    let mut env2 = env.clone();
                    env2.insert("pat".into(), info.pat.clone());
                    let apply2 = |cx: &mut Self, text: &str| -> Option<String> {
                        match subst(text, &env2) {
                            Ok(t) => Some(t),
                            Err(e) => {
                                cx.lost.push(format!("{}: {}", key, e));
                                None
                            }
                        }
                    };
                    let desugar = lm.get("desugar").and_then(|v| v.as_bool()).unwrap_or(false) && info.kind == "for";
                    if desugar {
                        // for P in E { .. }  ->  { let mut it = E; loop { let P = match it.next() { .. }; .. } }
                        let it = Self::sget(lm, "iter").unwrap_or("vx_it".into());
                        let e = info.expr.unwrap();
                        let head = self.src[info.span.0..e.0].trim().to_string();
                        let pat = head.strip_prefix("for").and_then(|h| h.trim().strip_suffix("in")).map(|h| h.trim().to_string());
                        match pat {
                            Some(pat) => {
                                let ex = self.src[e.0..e.1].to_string();
                                self.rep((info.span.0, info.body.0), format!("{{ let mut {it} = {ex}; let ghost mut vx_k: int = 0; loop ", it = it, ex = ex), "rename", "for loop desugared");
                                self.ins(info.body.0 + 1, format!(" let vx_nx = {it}.next(); let {pat} = match vx_nx {{ Some(vx_x) => vx_x, None => break }};", it = it, pat = pat), "desugar");
                                self.ins(info.span.1, " }".into(), "desugar");
                            }
                            None => self.lost.push(format!("{}: loop {} cannot be desugared", key, i)),
                        }
                    }
                    if let (Some(it), Some(e), false) = (Self::sget(lm, "iter"), info.expr, desugar) {
                        self.ins(e.0, format!("{}: ", it), "ghost-iterator");
                    }
                    if let Some(t) = Self::sget(lm, "before").and_then(|t| apply2(self, &t)) {
                        self.ins(info.span.0, format!("{}\n", t), "ghost");
                    }
                    if let Some(t) = Self::sget(lm, "clauses").and_then(|t| apply2(self, &t)) {
                        self.ins(info.body.0, format!("\n{}\n", t), "invariant");
                    }
                    if let Some(t) = Self::sget(lm, "start").and_then(|t| apply2(self, &t)) {
                        self.ins(info.body.0 + 1, format!("\n{}\n", t), "ghost");
                    }
                    if desugar {
                        self.ins(info.body.0 + 1, " proof { vx_k = vx_k + 1; }\n".into(), "ghost");
                    }
                    if let Some(t) = Self::sget(lm, "end").and_then(|t| apply2(self, &t)) {
                        self.ins(info.body.1 - 1, format!("\n{}\n", t), "ghost");
                    }
                    if let Some(t) = Self::sget(lm, "after").and_then(|t| apply2(self, &t)) {
                        self.ins(info.span.1, format!("\n{}\n", t), "ghost");
                    }
                }
            } else if !scan.loops.is_empty() && (self.rules.get("loops_need_rules").and_then(|v| v.as_bool()).unwrap_or(true) || (r.contains_key("clauses") && !r.contains_key("free"))) {
                self.lost.push(format!("{}: source has {} loop(s) and no rule for them", key, scan.loops.len()));
            }
            // statement anchors
            if let Some(as_) = r.get("anchors").and_then(|v| v.as_array()).cloned() {
                for a in as_ {
                    let Some(am) = a.as_object() else { continue };
                    let pat = Self::sget(am, "stmt").unwrap_or_default();
                    let pat = subst(&pat, &env).unwrap_or(pat);
                    let nth = am.get("nth").and_then(|v| v.as_u64()).unwrap_or(0) as usize;
                    let all = am.get("all").and_then(|v| v.as_bool()).unwrap_or(false);
                    let hits: Vec<(usize, usize)> = scan
                        .stmts
                        .iter()
                        .filter(|(t, _)| let_matches(&pat, t))
                        .map(|(_, s)| *s)
                        .collect();
                    if hits.is_empty() || (!all && hits.len() <= nth) {
                        if !am.get("optional").and_then(|v| v.as_bool()).unwrap_or(false) {
                            self.lost.push(format!("{}: no statement matching {:?}", key, pat));
                        }
                        continue;
                    }
                    let chosen: Vec<(usize, usize)> = if all { hits } else { vec![hits[nth]] };
                    for h in chosen {
                        if let Some(t) = Self::sget(am, "before").and_then(|t| apply(self, &t)) {
                            self.ins(h.0, format!("{}\n", t), "ghost");
                        }
                        if let Some(t) = Self::sget(am, "after").and_then(|t| apply(self, &t)) {
                            self.ins(h.1, format!("\n{}\n", t), "ghost");
                        }
                    }
                }
            }
            self.rewrites(&scan, key, &r);
        }
    }

    fn rewrites(&mut self, scan: &Scan, key: &str, r: &Map<String, Value>) {
        let methods = self.map("methods");
        // a call chain `.a().b(..)` becomes one call with a contract
        let chains = self.map("chains");
        let mut chained: Vec<(usize, usize)> = vec![];
        for (m, sp, _, recv) in &scan.methods {
            for (a, asp, n, _) in &scan.methods {
                if *n == 0 && asp.1 <= recv.1 && asp.1 > recv.0 && squash(&self.src[asp.1..recv.1]) == "()" {
                    if let Some(to) = chains.get(&format!("{}.{}", a, m)) {
                        chained.push(*sp);
                        chained.push(*asp);
                        self.rep((asp.0, sp.1), to.clone(), "rename", &format!("chain {}().{}", a, m));
                    }
                }
            }
        }
        for (m, sp, _, _) in &scan.methods {
            if chained.contains(sp) {
                continue;
            }
            if let Some(n) = methods.get(m) {
                self.rep(*sp, n.clone(), "rename", &format!("method {}", m));
            }
        }
        // text[a..b] -> a function with a contract
        if let Some(m) = r.get("slices").and_then(|v| v.as_object()).cloned() {
            for (whole, e, a, b) in scan.slices.clone() {
                let k = match (a.is_some(), b.is_some()) { (true, true) => "range", (true, false) => "from", (false, true) => "to", _ => "full" };
                let Some(n) = m.get(k).and_then(|v| v.as_str()) else { continue };
                self.rep((whole.0, whole.0), format!("(*{}(&", n), "rename", "text slice");
                match (a, b) {
                    (Some(a), Some(b)) => { self.rep((e.1, a.0), ", ".into(), "rename", "["); self.rep((a.1, b.0), ", ".into(), "rename", ".."); self.rep((b.1, whole.1), "))".into(), "rename", "]"); }
                    (Some(a), None) => { self.rep((e.1, a.0), ", ".into(), "rename", "["); self.rep((a.1, whole.1), "))".into(), "rename", "..]"); }
                    (None, Some(b)) => { self.rep((e.1, b.0), ", ".into(), "rename", "[.."); self.rep((b.1, whole.1), "))".into(), "rename", "]"); }
                    _ => {}
                }
            }
        }
        // comparison of texts -> a function with a contract
        let operands = self.strs("text_operands");
        for (is, l, r) in scan.eqs.clone() {
            let texts = [squash(&self.src[l.0..l.1]), squash(&self.src[r.0..r.1])];
            if texts.iter().any(|t| operands.iter().any(|o| t.trim_start_matches(|c| c == '&' || c == '*').starts_with(o.as_str()))) {
                self.ins(l.0, format!("{}vx_text_eq(&(", if is { "" } else { "!" }), "rename");
                self.rep((l.1, r.0), "), &(".into(), "rename", if is { "==" } else { "!=" });
                self.ins(r.1, "))".into(), "rename");
            }
        }
        let paths = self.map("paths");
        let mut done: Vec<(usize, usize)> = vec![];
        for (p, sp) in &scan.paths {
            if let Some(n) = paths.get(p) {
                if done.iter().any(|d| sp.0 < d.1 && d.0 < sp.1) {
                    continue;
                }
                done.push(*sp);
                self.rep(*sp, n.clone(), "rename", &format!("path {}", p));
            }
        }
        let macros = self.map("macros");
        for (m, sp, body, _) in &scan.macros {
            if m == "vec" {
                if let Some(n) = macros.get("vec;") {
                    let t = &self.src[body.0..body.1];
                    let mut depth = 0i32;
                    let mut semi = false;
                    for ch in t.chars() {
                        match ch {
                            '(' | '[' | '{' => depth += 1,
                            ')' | ']' | '}' => depth -= 1,
                            ';' if depth == 1 => semi = true,
                            _ => {}
                        }
                    }
                    if semi {
                        // only the macro name
                        self.rep((sp.0, sp.0 + 3), n.clone(), "rename", "vec![v; n]");
                    }
                }
                continue;
            }
            if let Some(n) = macros.get(m) {
                self.rep(*sp, n.clone(), "rename", &format!("macro {}!", m));
            }
        }
        // closures: contracts of the rule, one per closure in order; a pattern parameter becomes a `let`
        let rules: Vec<Value> = match r.get("closures") {
            Some(Value::Array(c)) => {
                if c.len() != scan.closures.len() {
                    self.lost.push(format!("{}: rule has {} closures, source has {}", key, c.len(), scan.closures.len()));
                }
                c.clone()
            }
            _ => {
                // a contract written for a body without closures says nothing about what these return
                if !scan.closures.is_empty() && r.contains_key("clauses") && !r.contains_key("free") {
                    self.lost.push(format!("{}: source has {} closure(s) and no rule for them", key, scan.closures.len()));
                }
                vec![]
            }
        };
        for (i, info) in scan.closures.iter().enumerate() {
            let mut lets = String::new();
            for (k, (sp, ident)) in info.pats.iter().enumerate() {
                if !ident {
                    let src = self.src[sp.0..sp.1].to_string();
                    match src.strip_prefix('&') {
                        Some(id) if id.chars().all(|c| c.is_alphanumeric() || c == '_') => lets.push_str(&format!("let {} = *vx_c{}; ", id, k)),
                        _ => lets.push_str(&format!("let {} = vx_c{}; ", src, k)),
                    }
                    self.rep(*sp, format!("vx_c{}", k), "rename", "closure pattern becomes a let");
                }
            }
            let empty = Map::new();
            let cm = rules.get(i).and_then(|c| c.as_object()).unwrap_or(&empty);
            let ret = Self::sget(cm, "ret");
            let text = Self::sget(cm, "clauses");
            if let Some(t) = text {
                let mut t = t;
                if t == "auto" {
                    t = format!("ensures vxr == ({{ {}{} }})", lets, &self.src[info.body.0..info.body.1]);
                }
                for (k, p) in info.params.iter().enumerate() {
                    let nm = if info.pats[k].1 { p.split(':').next().unwrap_or(p).to_string() } else { format!("vx_c{}", k) };
                    t = t.replace(&format!("${{c{}}}", k), &nm);
                }
                let ret = ret.unwrap_or("vxr: bool".into());
                self.ins(info.body.0, format!("-> ({}) {} ", ret, t), "closure-contract");
                if !info.is_block {
                    self.ins(info.body.0, format!("{{ {}", lets), "closure-block");
                    self.ins(info.body.1, " }".into(), "closure-block");
                } else if !lets.is_empty() {
                    self.ins(info.body.0 + 1, lets.clone(), "closure-block");
                }
            } else if !lets.is_empty() {
                self.ins(info.body.0, format!("{{ {}", lets), "closure-block");
                self.ins(info.body.1, " }".into(), "closure-block");
            }
        }
    }

    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        self.attrs_of("", attrs)
    }
    fn attrs_of(&mut self, key: &str, attrs: &[syn::Attribute]) {
        let mut drop_derives: HashSet<String> = self.strs("drop_derives").into_iter().collect();
        if let Some(a) = self.rule(key).as_ref().and_then(|r| r.get("drop_derives")).and_then(|v| v.as_array()) {
            drop_derives.extend(a.iter().filter_map(|x| x.as_str().map(|t| t.to_string())));
        }
        let drop_attrs: HashSet<String> = self.strs("drop_attrs").into_iter().collect();
        for a in attrs {
            let (lo, hi) = br(a.span());
            if a.path().is_ident("derive") {
                let mut keep = vec![];
                let mut dropped = vec![];
                if let Ok(list) = a.parse_args_with(
                    syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated,
                ) {
                    for p in list {
                        let t = toks(&p);
                        if drop_derives.contains(&t) {
                            dropped.push(t)
                        } else {
                            keep.push(t)
                        }
                    }
                }
                if !dropped.is_empty() {
                    let text = if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
                    self.rep((lo, hi), text, "drop", &format!("derive {}", dropped.join(",")));
                }
            } else if drop_attrs.contains(&toks(a.path())) || drop_attrs.contains("*") {
                self.rep((lo, hi), String::new(), "drop", &format!("attribute {}", toks(a.path())));
            }
        }
    }

    fn items(&mut self, items: &[syn::Item], prefix: &str, keep: &Option<HashSet<String>>) {
        let drops: HashSet<String> = self.strs("drop").into_iter().collect();
        let types_only = self.rules.get("types_only").and_then(|v| v.as_bool()).unwrap_or(false);
        for it in items {
            let whole = br(it.span());
            if types_only && !matches!(it, syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Mod(_)) {
                self.rep(whole, String::new(), "drop", "not a type");
                continue;
            }
            let kept = |k: &str| -> bool {
                match keep {
                    None => !drops.contains(&squash(k)),
                    Some(s) => {
                        let q = squash(k);
                        s.iter().any(|x| *x == q || x.starts_with(&format!("{}::", q)))
                    }
                }
            };
            match it {
                syn::Item::Fn(f) => {
                    let key = format!("{}fn {}", prefix, f.sig.ident);
                    if !kept(&key) {
                        self.rep(whole, String::new(), "drop", &key);
                        continue;
                    }
                    self.attrs(&f.attrs);
                    self.do_fn(&key, &f.sig, Some(&f.block), whole, None);
                }
                syn::Item::Struct(s) => {
                    let key = format!("{}struct {}", prefix, s.ident);
                    if !kept(&key) {
                        self.rep(whole, String::new(), "drop", &key);
                        continue;
                    }
                    self.attrs(&s.attrs);
                    if let Some(t) = self.rule(&key).as_ref().and_then(|r| Self::sget(r, "attrs")) {
                        let at = if let syn::Visibility::Inherited = s.vis { br(s.struct_token.span()).0 } else { br(s.vis.span()).0 };
                        self.ins(at, format!("{}\n", t), "attr");
                    }
                    if self.rules.get("publish").and_then(|v| v.as_bool()).unwrap_or(false) {
                        if let syn::Visibility::Inherited = s.vis {
                            self.ins(br(s.struct_token.span()).0, "pub ".to_string(), "visibility");
                        }
                        for f in s.fields.iter() {
                            if let syn::Visibility::Inherited = f.vis {
                                let at = match &f.ident { Some(i) => br(i.span()).0, None => br(f.ty.span()).0 };
                                self.ins(at, "pub ".to_string(), "visibility");
                            }
                        }
                    }
                    let mut scan = Scan::default();
                    scan.visit_item_struct(s);
                    self.rewrites(&scan, &key, &Map::new());
                    if let Some(r) = self.rule(&key) {
                        if let Some(t) = Self::sget(&r, "after") {
                            self.ins(whole.1, format!("\n{}\n", t), "ghost");
                        }
                    }
                }
                syn::Item::Enum(s) => {
                    let key = format!("{}enum {}", prefix, s.ident);
                    if !kept(&key) {
                        self.rep(whole, String::new(), "drop", &key);
                        continue;
                    }
                    self.attrs_of(&key, &s.attrs);
                    for v in &s.variants {
                        self.attrs(&v.attrs);
                    }
                    if let Some(t) = self.rule(&key).as_ref().and_then(|r| Self::sget(r, "attrs")) {
                        let at = if let syn::Visibility::Inherited = s.vis { br(s.enum_token.span()).0 } else { br(s.vis.span()).0 };
                        self.ins(at, format!("{}\n", t), "attr");
                    }
                    if self.rules.get("publish").and_then(|v| v.as_bool()).unwrap_or(false) {
                        if let syn::Visibility::Inherited = s.vis {
                            self.ins(br(s.enum_token.span()).0, "pub ".to_string(), "visibility");
                        }
                    }
                    let mut scan = Scan::default();
                    scan.visit_item_enum(s);
                    self.rewrites(&scan, &key, &Map::new());
                    if let Some(r) = self.rule(&key) {
                        if let Some(t) = Self::sget(&r, "after") {
                            self.ins(whole.1, format!("\n{}\n", t), "ghost");
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    let key = format!("{}trait {}", prefix, t.ident);
                    if !kept(&key) {
                        self.rep(whole, String::new(), "drop", &key);
                        continue;
                    }
                    self.attrs(&t.attrs);
                    if let Some(r) = self.rule(&key) {
                        if let Some(s) = Self::sget(&r, "supertraits") {
                            // after ident+generics, before where / {
                            if t.supertraits.is_empty() {
                                let pos = if t.generics.params.is_empty() {
                                    br(t.ident.span()).1
                                } else {
                                    br(t.generics.gt_token.unwrap().span()).1
                                };
                                self.ins(pos, format!(": {}", s), "supertrait");
                            } else {
                                let pos = br(t.supertraits.last().unwrap().span()).1;
                                self.ins(pos, format!(" + {}", s), "supertrait");
                            }
                        }
                        if let Some(b) = r.get("bounds").and_then(|v| v.as_object()) {
                            for p in t.generics.type_params() {
                                if let Some(x) = b.get(&p.ident.to_string()).and_then(|v| v.as_str()) {
                                    let pos = br(p.span()).1;
                                    let sep = if p.bounds.is_empty() { ": " } else { " + " };
                                    self.ins(pos, format!("{}{}", sep, x), "bound");
                                }
                            }
                        }
                        if let Some(m) = Self::sget(&r, "members") {
                            self.ins(br(t.brace_token.span.span()).0 + 1, format!("\n{}\n", m), "spec-member");
                        }
                        if let Some(x) = Self::sget(&r, "after") {
                            self.ins(whole.1, format!("\n{}\n", x), "ghost");
                        }
                    }
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            let k = format!("{}::fn {}", key, f.sig.ident);
                            self.attrs(&f.attrs);
                            let semi = f.semi_token.map(|s| br(s.span()).0);
                            self.do_fn(&k, &f.sig, f.default.as_ref(), br(f.span()), semi);
                        }
                    }
                }
                syn::Item::Impl(im) => {
                    let key = format!("{}{}", prefix, impl_key(im));
                    if !kept(&key) {
                        self.rep(whole, String::new(), "drop", &key);
                        continue;
                    }
                    self.attrs(&im.attrs);
                    if let Some(r) = self.rule(&key) {
                        if let Some(b) = r.get("bounds").and_then(|v| v.as_object()) {
                            for p in im.generics.type_params() {
                                if let Some(x) = b.get(&p.ident.to_string()).and_then(|v| v.as_str()) {
                                    let pos = br(p.span()).1;
                                    let sep = if p.bounds.is_empty() { ": " } else { " + " };
                                    self.ins(pos, format!("{}{}", sep, x), "bound");
                                }
                            }
                        }
                        if let Some(m) = Self::sget(&r, "members") {
                            self.ins(br(im.brace_token.span.span()).0 + 1, format!("\n{}\n", m), "spec-member");
                        }
                        if let Some(x) = Self::sget(&r, "after") {
                            self.ins(whole.1, format!("\n{}\n", x), "ghost");
                        }
                        if let Some(x) = Self::sget(&r, "before") {
                            self.ins(whole.0, format!("{}\n", x), "ghost");
                        }
                    }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let k = format!("{}::fn {}", key, f.sig.ident);
                            let fw = br(f.span());
                            if let Some(s) = keep {
                                let q = squash(&k);
                                if !s.contains(&q) && !s.contains(&squash(&key)) {
                                    self.rep(fw, String::new(), "drop", &k);
                                    continue;
                                }
                            } else if drops.contains(&squash(&k)) {
                                self.rep(fw, String::new(), "drop", &k);
                                continue;
                            }
                            self.attrs(&f.attrs);
                            self.do_fn(&k, &f.sig, Some(&f.block), fw, None);
                        }
                    }
                }
                syn::Item::Mod(m) => {
                    let key = format!("{}mod {}", prefix, m.ident);
                    if !kept(&key) {
                        self.rep(whole, String::new(), "drop", &key);
                        continue;
                    }
                    self.attrs(&m.attrs);
                    if let Some((b, its)) = &m.content {
                        let ext = self.rules.get("mod_prelude").and_then(|v| v.as_str()).unwrap_or("").to_string();
                        if !ext.is_empty() {
                            self.ins(br(b.span.span()).0 + 1, format!("\n{}\n", ext), "use");
                        }
                        if let Some(r) = self.rule(&key) {
                            if let Some(t) = Self::sget(&r, "start") {
                                self.ins(br(b.span.span()).0 + 1, format!("\n{}\n", t), "use");
                            }
                        }
                        self.items(its, &format!("{}{}::", prefix, m.ident), keep);
                    } else {
                        self.rep(whole, String::new(), "drop", &key);
                    }
                }
                syn::Item::Use(u) => {
                    let t = toks(u);
                    let du = self.strs("drop_uses");
                    if keep.is_some() || du.iter().any(|d| t.contains(d.as_str())) {
                        self.rep(whole, String::new(), "drop", &t);
                    }
                }
                syn::Item::Const(c) => {
                    let key = format!("{}const {}", prefix, c.ident);
                    if !kept(&key) {
                        self.rep(whole, String::new(), "drop", &key);
                        continue;
                    }
                    if let Some(r) = self.rule(&key) {
                        if let Some(t) = Self::sget(&r, "attrs") {
                            self.ins(whole.0, format!("{}\n", t), "attr");
                        }
                        if let Some(t) = Self::sget(&r, "ensures") {
                            // `const X: T = e;` -> `exec const X: T ensures .. { hint e }`
                            let hint = Self::sget(&r, "hint").unwrap_or_default();
                            self.ins(br(c.const_token.span()).0, "exec ".into(), "exec-const");
                            self.rep(br(c.eq_token.span()), format!("ensures {} {{ {} ", t, hint), "contract", "const");
                            self.rep(br(c.semi_token.span()), " }".into(), "contract", "const");
                            self.fns.push(FnInfo { key: key.clone(), lo: whole.0, hi: whole.1, contracted: true, loops: 0, kept: true, fingerprint: toks(c) });
                        }
                    }
                    if let syn::Type::Reference(rf) = &*c.ty {
                        if rf.lifetime.is_none() {
                            let at = br(rf.and_token.span()).1;
                            self.ins(at, "'static ".into(), "elided-lifetime");
                        }
                    }
                    let mut scan = Scan::default();
                    scan.visit_item_const(c);
                    self.rewrites(&scan, &key, &Map::new());
                }
                other => {
                    let key = format!("{}{}", prefix, toks(other).chars().take(40).collect::<String>());
                    if keep.is_some() {
                        self.rep(whole, String::new(), "drop", &key);
                    }
                }
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rules: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("rules")).expect("rules json");
    let mut out = String::new();
    let mut report_fns = vec![];
    let mut lost: Vec<String> = vec![];
    let mut edits_out = vec![];
    let mut uncontracted = vec![];
    let g = |k: &str| rules.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
    out.push_str(&g("header"));
    let line_of = |s: &str| s.bytes().filter(|b| *b == b'\n').count() + 1;
    for srcrule in rules.get("sources").and_then(|v| v.as_array()).cloned().unwrap_or_default() {
        let path = srcrule.get("path").and_then(|v| v.as_str()).unwrap_or("").to_string();
        let src = match std::fs::read_to_string(&path) {
            Ok(s) => s,
            Err(e) => {
                lost.push(format!("cannot read {}: {}", path, e));
                continue;
            }
        };
        let mut merged0 = rules.as_object().unwrap().clone();
        for (k, v) in srcrule.as_object().unwrap() {
            merged0.insert(k.clone(), v.clone());
        }
        let (mut src, notes) = pre::rewrite(src, &merged0);
        for n in notes {
            edits_out.push(json!({"file": path, "kind": "rewrite", "note": n}));
        }
        let mut hoisted: Vec<String> = vec![];
        let file = loop {
            match syn::parse_file(&src) {
                Ok(f) => {
                    // functions nested in function bodies are moved to the end of the file
                    let mut n = Nested::default();
                    n.visit_file(&f);
                    if let Some((nm, (lo, hi))) = n.found {
                        if hoisted.contains(&nm) || hoisted.len() > 40 {
                            lost.push(format!("{}: nested function {} twice", path, nm));
                            break Some(f);
                        }
                        edits_out.push(json!({"file": path, "kind": "hoist", "note": format!("nested item {}", nm)}));
                        hoisted.push(nm);
                        let t = src[lo..hi].to_string();
                        let blank: String = t.chars().filter(|c| *c == '\n').collect();
                        src = format!("{}{}{}\n{}\n", &src[..lo], blank, &src[hi..], t);
                        continue;
                    }
                    break Some(f);
                }
                Err(e) => {
                    lost.push(format!("cannot parse {}: {}", path, e));
                    break None;
                }
            }
        };
        let Some(file) = file else { continue };
        let mut merged = rules.as_object().unwrap().clone();
        for (k, v) in srcrule.as_object().unwrap() {
            merged.insert(k.clone(), v.clone());
        }
        let mut cx = Cx {
            src: &src,
            rules: &merged,
            edits: vec![],
            used: HashSet::new(),
            lost: vec![],
            fns: vec![],
            uncontracted: vec![],
        };
        // file-level attributes
        for a in &file.attrs {
            let sp = br(a.span());
            cx.rep(sp, String::new(), "drop", "file attribute");
        }
        let keep: Option<HashSet<String>> = merged
            .get("keep")
            .and_then(|v| v.as_array())
            .map(|a| a.iter().filter_map(|x| x.as_str().map(squash)).collect());
        let prefix = merged.get("prefix").and_then(|v| v.as_str()).unwrap_or("").to_string();
        cx.items(&file.items, &prefix, &keep);
        if let Some(k) = &keep {
            // every kept selector must exist
            let mut have: HashSet<String> = HashSet::new();
            for e in &cx.fns {
                have.insert(squash(&e.key));
            }
            for want in k {
                if want.contains("fn") && !have.contains(want) && !have.iter().any(|h| h.starts_with(want.as_str())) {
                    cx.lost.push(format!("{}: function {} not found", path, want));
                }
            }
        }
        if let Some(items) = merged.get("items").and_then(|v| v.as_object()) {
            for (k, v) in items {
                let opt = v.get("optional").and_then(|x| x.as_bool()).unwrap_or(false);
                let file_of = v.get("file").and_then(|x| x.as_str());
                if let Some(f) = file_of {
                    if !path.ends_with(f) {
                        continue;
                    }
                }
                if !cx.used.contains(&squash(k)) && !opt {
                    if rules.get("sources").and_then(|v| v.as_array()).map(|a| a.len()).unwrap_or(0) == 1 || file_of.is_some() {
                        cx.lost.push(format!("{}: contract for `{}` has no target", path, k));
                    }
                }
            }
        }
        // apply edits
        let mut edits = std::mem::take(&mut cx.edits);
        // edits strictly inside a dropped range disappear
        let drops: Vec<(usize, usize)> = edits.iter().filter(|e| e.kind == "drop" && e.hi > e.lo && e.text.is_empty() && !e.note.starts_with("attribute ") && !e.note.starts_with("derive ")).map(|e| (e.lo, e.hi)).collect();
        edits.retain(|e| {
            !drops.iter().any(|d| d.0 <= e.lo && e.hi <= d.1 && !(d.0 == e.lo && d.1 == e.hi))
        });
        edits.sort_by(|a, b| a.lo.cmp(&b.lo).then((a.hi > a.lo).cmp(&(b.hi > b.lo))).then(a.seq.cmp(&b.seq)));
        let mut pos = 0usize;
        let base = out.len();
        let _ = base;
        let mut map: Vec<(usize, usize)> = vec![]; // (src offset, out offset)
        out.push_str(&format!("\n// ---- from {} ----\n", path));
        out.push_str(merged.get("pre").and_then(|v| v.as_str()).unwrap_or(""));
        for e in &edits {
            if e.lo < pos {
                // nested in an already replaced range
                if e.hi <= pos {
                    continue;
                }
                lost.push(format!("overlapping edit {} at {}", e.note, e.lo));
                continue;
            }
            map.push((pos, out.len()));
            out.push_str(&src[pos..e.lo]);
            map.push((e.lo, out.len()));
            out.push_str(&e.text);
            pos = e.hi;
            let (a, _) = (line_of(&src[..e.lo]), 0);
            if e.kind != "insert" {
                edits_out.push(json!({"file": path, "line": a, "kind": e.kind, "note": e.note, "was": src[e.lo..e.hi].chars().take(80).collect::<String>(), "now": e.text.chars().take(80).collect::<String>()}));
            } else {
                edits_out.push(json!({"file": path, "line": a, "kind": e.note}));
            }
        }
        map.push((pos, out.len()));
        out.push_str(&src[pos..]);
        out.push_str(merged.get("post").and_then(|v| v.as_str()).unwrap_or(""));
        let to_out = |o: usize| -> usize {
            let mut best = (0usize, 0usize);
            for m in &map {
                if m.0 <= o {
                    best = *m;
                } else {
                    break;
                }
            }
            best.1 + (o - best.0)
        };
        for f in &cx.fns {
            let lo = line_of(&out[..to_out(f.lo).min(out.len())]);
            let hi = line_of(&out[..to_out(f.hi).min(out.len())]);
            report_fns.push(json!({"key": f.key, "file": path, "src_line": line_of(&src[..f.lo]), "line_lo": lo, "line_hi": hi, "contract": f.contracted, "loops": f.loops, "kept": f.kept, "body": f.fingerprint.len()}));
        }
        lost.extend(cx.lost);
        uncontracted.extend(cx.uncontracted);
    }
    out.push_str(&g("footer"));
    std::fs::write(&args[2], &out).expect("write out");
    let rep = json!({"functions": report_fns, "lost": lost, "uncontracted": uncontracted, "edits": edits_out});
    std::fs::write(&args[3], serde_json::to_string_pretty(&rep).unwrap()).expect("write report");
}
