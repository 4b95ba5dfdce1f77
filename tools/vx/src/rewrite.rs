//! The syntactic rewrites. Each one is counted, and the counts are reported in the evidence.
use crate::spec::FnSpec;
use crate::Found;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Stats {
    pub loops: usize,
    pub bare: usize,
}

const LOG_MACROS: &[&str] = &["debug", "info", "trace", "warn", "error", "println", "eprintln", "print"];

fn method_rename(n: &str) -> Option<&'static str> {
    Some(match n {
        "iter" => "v_iter",
        "iter_mut" => "v_iter_mut",
        "windows" => "v_windows",
        "into_iter" => "v_into_iter",
        "extend" => "v_extend",
        "last" => "v_last",
        "last_mut" => "v_last_mut",
        "sort_by_key" => "v_sort_by_key",
        "reverse" => "v_reverse",
        "overflowing_add" => "v_overflowing_add",
        "drain" => "v_drain",
        "hash" => "v_hash",
        "start_bound" => "v_start_bound",
        "end_bound" => "v_end_bound",
        "char_indices" => "v_char_indices",
        _ => return None,
    })
}

pub struct Rw<'a> {
    spec: &'a FnSpec,
    counts: &'a mut BTreeMap<String, usize>,
    assoc: HashMap<String, Type>,
    fresh: usize,
    loops: usize,
    ifs: usize,
    matches: usize,
    closures: usize,
    calls: HashMap<String, usize>,
    pending: Vec<Vec<String>>,
    ghosts: Vec<String>,
    used: BTreeSet<String>,
    used_loops: BTreeSet<usize>,
    used_clos: BTreeSet<usize>,
    pub loop_text: BTreeMap<usize, String>,
    aliases: HashMap<String, Expr>,
    used_in_closure: BTreeSet<String>,
    pub lost: Vec<String>,
    hoisted: Vec<String>,
}

fn macro_name(m: &Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}

fn parse_args(m: &Macro) -> Option<Vec<Expr>> {
    m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
        .ok()
        .map(|p| p.into_iter().collect())
}

/// raw mutable pointers bound outside and offset inside a closure
fn closure_ptrs(b: &Block) -> BTreeSet<String> {
    #[derive(Default)]
    struct V {
        depth: usize,
        bound: BTreeSet<String>,
        used: BTreeSet<String>,
    }
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_local(&mut self, l: &'ast Local) {
            if let (Pat::Ident(pi), Some(init), 0) = (&l.pat, &l.init, self.depth) {
                if matches!(&*init.expr, Expr::MethodCall(m) if m.method == "as_mut_ptr") {
                    self.bound.insert(pi.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if let (true, Expr::Path(p)) = (self.depth > 0 && m.method == "add", &*m.receiver) {
                if let Some(i) = p.path.get_ident() {
                    self.used.insert(i.to_string());
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
            self.depth += 1;
            syn::visit::visit_expr_closure(self, c);
            self.depth -= 1;
        }
    }
    let mut v = V::default();
    syn::visit::Visit::visit_block(&mut v, b);
    v.bound.intersection(&v.used).cloned().collect()
}

/// does the loop body contain a `break` that leaves this loop?
fn has_own_break(b: &Block, label: Option<&str>) -> bool {
    struct V<'a> {
        depth: usize,
        label: Option<&'a str>,
        found: bool,
    }
    impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> {
        fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
            match &b.label {
                None => {
                    if self.depth == 0 {
                        self.found = true
                    }
                }
                Some(l) => {
                    if Some(l.ident.to_string().as_str()) == self.label {
                        self.found = true
                    }
                }
            }
        }
        fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
            self.depth += 1;
            syn::visit::visit_expr_loop(self, l);
            self.depth -= 1;
        }
        fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
            self.depth += 1;
            syn::visit::visit_expr_while(self, l);
            self.depth -= 1;
        }
        fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
            self.depth += 1;
            syn::visit::visit_expr_for_loop(self, l);
            self.depth -= 1;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V { depth: 0, label, found: false };
    syn::visit::Visit::visit_block(&mut v, b);
    v.found
}

/// if e is `X.as_ptr()` / `X.as_mut_ptr()` return X
fn ptr_base(e: &Expr, al: &HashMap<String, Expr>) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "as_ptr" || m.method == "as_mut_ptr" => Some((*m.receiver).clone()),
        Expr::Path(p) => p.path.get_ident().and_then(|i| al.get(&i.to_string()).cloned()),
        Expr::Paren(p) => ptr_base(&p.expr, al),
        _ => None,
    }
}
/// if e is `PTR.add(i)` (or PTR itself) return (X, i)
fn ptr_add(e: &Expr, al: &HashMap<String, Expr>) -> Option<(Expr, Expr)> {
    match e {
        Expr::MethodCall(m) if m.method == "add" && m.args.len() == 1 => {
            let b = ptr_base(&m.receiver, al)?;
            Some((b, m.args[0].clone()))
        }
        Expr::Paren(p) => ptr_add(&p.expr, al),
        _ => ptr_base(e, al).map(|b| (b, parse_quote!(0usize))),
    }
}

pub static PROBES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl<'a> Rw<'a> {
    fn count(&mut self, s: &str) {
        *self.counts.entry(s.to_string()).or_default() += 1;
    }
    fn fresh_ident(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        Ident::new(&format!("__{}{}", p, self.fresh), Span::call_site())
    }
    fn ghost_stmt(&mut self, text: &str) -> Stmt {
        let n = self.ghosts.len();
        self.ghosts.push(text.to_string());
        let lit = LitInt::new(&n.to_string(), Span::call_site());
        parse_quote!(__vx_ghost!(#lit);)
    }
    fn anchor(&mut self, name: &str) -> Option<Stmt> {
        if let Some(t) = self.spec.anchors.get(name) {
            self.used.insert(name.to_string());
            let t = t.clone();
            Some(self.ghost_stmt(&t))
        } else {
            None
        }
    }
    fn insert_start(&mut self, b: &mut Block, name: &str) {
        if name == "body.start" || name.starts_with("loop") {
            if let Some(s) = self.probe(name) {
                b.stmts.insert(0, s);
            }
        }
        if let Some(s) = self.anchor(name) {
            b.stmts.insert(0, s);
        }
    }
    /// reachability probe: an assertion that must fail, or the context is contradictory
    fn probe(&mut self, name: &str) -> Option<Stmt> {
        if std::env::var("VX_PROBE").is_err() || self.spec.opts.iter().any(|o| o == &format!("no-probe {}", name)) {
            return None;
        }
        let id = PROBES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Some(self.ghost_stmt(&format!("proof {{ if vprobe({}) {{ assert(false); }} }} //PROBE {} {}", id, self.spec.key, name)))
    }
    fn insert_end(&mut self, b: &mut Block, name: &str) {
        if name == "body.end" {
            if let Some(s) = self.probe(name) {
                let n = b.stmts.len();
                match b.stmts.last() {
                    Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => b.stmts.insert(n - 1, s),
                    Some(Stmt::Expr(Expr::Return(_), _)) => b.stmts.insert(n - 1, s),
                    _ => b.stmts.push(s),
                }
            }
        }
        if let Some(s) = self.anchor(name) {
            let n = b.stmts.len();
            if name.starts_with("loop") {
                // a loop body has no value: its tail is a statement
                if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            match b.stmts.last() {
                Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => {
                    // before the tail expression; statement-like tails keep the ghost code after
                    b.stmts.insert(n - 1, s)
                }
                _ => b.stmts.push(s),
            }
        }
    }

    /// removes reference patterns: `&x` => fresh `r` plus `let x = *r;`
    fn deref_pat(&mut self, p: &mut Pat, lets: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let id = self.fresh_ident("r");
                self.count("reference pattern -> explicit dereference");
                match &*r.pat {
                    Pat::Tuple(t) => {
                        for (i, q) in t.elems.iter().enumerate() {
                            let ix = Index::from(i);
                            match q {
                                Pat::Ident(pi) => {
                                    let n = &pi.ident;
                                    if pi.by_ref.is_some() {
                                        lets.push(parse_quote!(let #n = &#id.#ix;));
                                    } else {
                                        lets.push(parse_quote!(let #n = #id.#ix;));
                                    }
                                }
                                Pat::Wild(_) => {}
                                q => {
                                    let mut q = q.clone();
                                    let mut more = vec![];
                                    self.deref_pat(&mut q, &mut more);
                                    lets.push(parse_quote!(let #q = #id.#ix;));
                                    lets.extend(more);
                                }
                            }
                        }
                    }
                    Pat::Wild(_) => {}
                    q => {
                        lets.push(parse_quote!(let #q = *#id;));
                    }
                }
                *p = parse_quote!(#id);
            }
            Pat::Tuple(t) => {
                for e in t.elems.iter_mut() {
                    self.deref_pat(e, lets);
                }
            }
            Pat::TupleStruct(t) => {
                for e in t.elems.iter_mut() {
                    self.deref_pat(e, lets);
                }
            }
            Pat::Struct(t) => {
                for e in t.fields.iter_mut() {
                    self.deref_pat(&mut e.pat, lets);
                }
            }
            Pat::Paren(q) => self.deref_pat(&mut q.pat, lets),
            Pat::Type(q) => self.deref_pat(&mut q.pat, lets),
            _ => {}
        }
    }

    fn call_seen(&mut self, name: &str) {
        let n = self.calls.entry(name.to_string()).or_insert(0);
        let key = format!("{}#{}", name, *n);
        *n += 1;
        if let Some(f) = self.pending.last_mut() {
            f.push(key);
        }
    }

    fn macro_expr(&mut self, m: &mut Macro) -> Option<Expr> {
        let n = macro_name(m);
        match n.as_str() {
            "assert" | "debug_assert" => {
                let mut a = parse_args(m)?;
                self.count("assert! -> proof obligation (call of a function that requires the condition)");
                self.visit_expr_mut(&mut a[0]);
                let c = &a[0];
                Some(parse_quote!(vassert(#c)))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                let mut a = parse_args(m)?;
                self.count("assert! -> proof obligation (call of a function that requires the condition)");
                self.visit_expr_mut(&mut a[0]);
                self.visit_expr_mut(&mut a[1]);
                let (x, y) = (&a[0], &a[1]);
                if n == "assert_ne" {
                    Some(parse_quote!(vassert(#x != #y)))
                } else {
                    Some(parse_quote!(vassert(#x == #y)))
                }
            }
            "panic" | "unimplemented" | "unreachable" | "todo" => {
                self.count("panic! -> call of a function that requires false");
                Some(parse_quote!(vpanic()))
            }
            "format" => {
                self.count("format! -> opaque string");
                Some(parse_quote!(vfmt()))
            }
            "write" | "writeln" => {
                let mut a = parse_args(m)?;
                if a.len() < 2 {
                    return None;
                }
                let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = &a[1] else { return None };
                let mut fmt = f.value();
                if n == "writeln" {
                    fmt.push('\n');
                }
                let mut next = 2;
                let mut text = String::new();
                let mut chain: Expr = parse_quote!(VFmt::new());
                let cs: Vec<char> = fmt.chars().collect();
                let mut i = 0;
                while i <= cs.len() {
                    let c = cs.get(i).copied();
                    if (c == Some('{') || c == Some('}')) && cs.get(i + 1) == cs.get(i) {
                        text.push(c.unwrap());
                        i += 2;
                        continue;
                    }
                    match c {
                        Some('{') | None => {
                            if !text.is_empty() {
                                chain = parse_quote!(#chain.v_lit(#text));
                                text.clear();
                            }
                            if c.is_none() {
                                break;
                            }
                            let mut name = String::new();
                            i += 1;
                            while *cs.get(i)? != '}' {
                                name.push(cs[i]);
                                i += 1;
                            }
                            i += 1;
                            let arg: Expr = if name.is_empty() {
                                if next >= a.len() {
                                    return None;
                                }
                                self.visit_expr_mut(&mut a[next]);
                                next += 1;
                                a[next - 1].clone()
                            } else {
                                parse_str(&name).ok()?
                            };
                            chain = parse_quote!(#chain.v_arg(&#arg));
                        }
                        Some(x) => {
                            text.push(x);
                            i += 1;
                        }
                    }
                }
                self.visit_expr_mut(&mut a[0]);
                let o = a[0].clone();
                self.count("write!/writeln! -> one write of the concatenated pieces of the format string");
                Some(parse_quote!(#o.v_write(#chain)))
            }
            "vec" => {
                // rewrite the arguments
                if let Ok(mut r) = m.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                }) {
                    self.visit_expr_mut(&mut r.0);
                    self.visit_expr_mut(&mut r.1);
                    let (x, y) = r;
                    return Some(parse_quote!(vec![#x; #y]));
                }
                let mut a = parse_args(m)?;
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                if a.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                Some(parse_quote!(vec![#(#a),*]))
            }
            _ => None,
        }
    }

    fn desugar_for(&mut self, f: ExprForLoop) -> Vec<Stmt> {
        let id = self.loops;
        self.loops += 1;
        self.count("for loop -> loop over an explicit iterator");
        let label = f.label.clone();
        let lname = label.as_ref().map(|l| l.name.ident.to_string());
        let own_break = has_own_break(&f.body, lname.as_deref());
        let mut pat = *f.pat;
        let mut expr = *f.expr;
        let mut body = f.body;
        let it = format_ident!("vit{}", id);
        let x = format_ident!("__vx{}", id);
        let mut pre: Vec<Stmt> = vec![];
        // for P in E.iter_mut()  (E a place): index loop
        if let Expr::MethodCall(m) = &expr {
            if m.method == "iter_mut" && !self.spec.opts.iter().any(|o| o == "own-iter-mut") {
                self.count("for over iter_mut() -> index loop borrowing each element");
                let mut base = (*m.receiver).clone();
                // X[a..b].iter_mut(): the elements from a to b, which must be in range
                let simple = |e: &Option<Box<Expr>>| e.as_ref().map_or(true, |n| matches!(&**n, Expr::Path(_) | Expr::Lit(_)));
                let mut part: Option<(Option<Expr>, Option<Expr>)> = None;
                if let Expr::Index(ix) = &base {
                    if let Expr::Range(r) = &*ix.index {
                        if matches!(&r.limits, RangeLimits::HalfOpen(_)) && simple(&r.start) && simple(&r.end) {
                            part = Some((r.start.as_ref().map(|e| (**e).clone()), r.end.as_ref().map(|e| (**e).clone())));
                            let b = (*ix.expr).clone();
                            base = b;
                        }
                    }
                }
                self.visit_expr_mut(&mut base);
                let q = pat.clone();
                pat = parse_quote!(#x);
                let j = format_ident!("__j{}", id);
                body.stmts.insert(0, parse_quote!(let #q = &mut #base[#j];));
                body.stmts.insert(0, parse_quote!(let #j = #x;));
                match part {
                    None => expr = parse_quote!((0..#base.len())),
                    Some((a, b)) => {
                        let from = a.is_some();
                        let a = a.unwrap_or(parse_quote!(0));
                        let b = match b {
                            Some(n) => {
                                pre.push(parse_quote!(vassert(#n <= #base.len());));
                                n
                            }
                            None => parse_quote!(#base.len()),
                        };
                        if from {
                            pre.push(parse_quote!(vassert(#a <= #b);));
                        }
                        expr = parse_quote!((#a..#b));
                    }
                }
            } else {
                self.visit_expr_mut(&mut expr);
            }
        } else {
            self.visit_expr_mut(&mut expr);
        }
        if let Expr::Paren(p) = &expr {
            expr = (*p.expr).clone();
        }
        if let Expr::Range(r) = &expr {
            let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
            let f = match r.limits {
                RangeLimits::HalfOpen(_) => quote!(vrange),
                RangeLimits::Closed(_) => quote!(vrange_incl),
            };
            pre.push(parse_quote!(let mut #it = #f(#a, #b);));
        } else {
            pre.push(parse_quote!(let mut #it = #expr.v_into_iter();));
        }
        let g = format!("let ghost vs{id} = vit{id}@; let ghost mut vk{id}: int = 0;", id = id);
        pre.push(self.ghost_stmt(&g));
        if let Some(s) = self.anchor(&format!("loop{}.before", id)) {
            pre.push(s);
        }
        let mut lets = vec![];
        self.deref_pat(&mut pat, &mut lets);
        self.visit_block_mut(&mut body);
        self.insert_end(&mut body, &format!("loop{}.end", id));
        self.insert_start(&mut body, &format!("loop{}.start", id));
        for l in lets.into_iter().rev() {
            body.stmts.insert(0, l);
        }
        let simple = matches!(&pat, Pat::Ident(p) if p.ident == x);
        if !simple {
            body.stmts.insert(0, parse_quote!(let #pat = #x;));
        }
        let g = format!("proof {{ assert(__vx{id} == vs{id}[vk{id}]); vk{id} = vk{id} + 1; }}", id = id);
        let gs = self.ghost_stmt(&g);
        body.stmts.insert(0, gs);
        let user = self.spec.loops.get(&id).cloned().unwrap_or_default();
        self.used_loops.insert(id);
        let (uinv, rest) = split_inv(&user);
        let ens = if own_break { String::new() } else { format!("    ensures vk{id} == vs{id}.len(),\n", id = id) };
        // `ensures`/`invariant` order: invariant, ensures, decreases
        let text = format!(
            "    invariant\n        0 <= vk{id} <= vs{id}.len(), vit{id}@ =~= vs{id}.skip(vk{id}),\n{}\n{}{}    decreases vs{id}.len() - vk{id},\n",
            uinv, rest, ens, id = id
        );
        self.loop_text.insert(id, text);
        let lit = LitInt::new(&id.to_string(), Span::call_site());
        let lp: Stmt = parse_quote!(#label loop { __vx_inv!(#lit); match #it.next() { None => { break; } Some(#x) => #body } };);
        pre.push(lp);
        if let Some(s) = self.anchor(&format!("loop{}.after", id)) {
            pre.push(s);
        }
        pre
    }

    fn desugar_while_let(&mut self, w: ExprWhile) -> Expr {
        // cond is Expr::Let
        let id = self.loops;
        self.loops += 1;
        self.count("while let -> loop with match");
        let label = w.label.clone();
        let Expr::Let(l) = *w.cond else { unreachable!() };
        let mut pat = *l.pat;
        let mut e = *l.expr;
        self.visit_expr_mut(&mut e);
        let mut body = w.body;
        let mut lets = vec![];
        self.deref_pat(&mut pat, &mut lets);
        self.visit_block_mut(&mut body);
        self.insert_end(&mut body, &format!("loop{}.end", id));
        self.insert_start(&mut body, &format!("loop{}.start", id));
        for l in lets.into_iter().rev() {
            body.stmts.insert(0, l);
        }
        let lit = LitInt::new(&id.to_string(), Span::call_site());
        self.used_loops.insert(id);
        let user = self.spec.loops.get(&id).cloned().unwrap_or_default();
        self.loop_text.insert(id, user);
        let stop: Vec<Stmt> = self.anchor(&format!("loop{}.stop", id)).into_iter().collect();
        let top: Vec<Stmt> = self.anchor(&format!("loop{}.top", id)).into_iter().collect();
        parse_quote!(#label loop { __vx_inv!(#lit); #(#top)* match #e { #pat => #body, _ => { #(#stop)* break; } } })
    }
}

/// user loop text: `invariant ...` clauses first, then optional `invariant_except_break`/`ensures`
fn split_inv(u: &str) -> (String, String) {
    let t = u.trim();
    let t = t.strip_prefix("invariant").unwrap_or(t);
    if let Some(p) = t.find("\n    ensures") {
        (t[..p].to_string(), t[p..].to_string())
    } else {
        (t.to_string(), String::new())
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = Vec::new();
        for mut s in stmts {
            // dropped statements
            match &mut s {
                Stmt::Macro(m) if LOG_MACROS.contains(&macro_name(&m.mac).as_str()) => {
                    self.count("logging/printing macro dropped");
                    continue;
                }
                Stmt::Item(_) => {
                    self.count("local item hoisted to module level");
                    continue;
                }
                Stmt::Local(l) => {
                    // raw pointer alias
                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &mut l.init) {
                        if let Expr::MethodCall(m) = &mut *init.expr {
                            if m.method == "as_mut_ptr" && self.used_in_closure.contains(&pi.ident.to_string()) {
                                self.count("raw mutable pointer captured by a closure -> slot cells");
                                m.method = format_ident!("slot_cells");
                            } else if m.method == "as_mut_ptr" || m.method == "as_ptr" {
                                self.count("raw pointer alias inlined");
                                self.aliases.insert(pi.ident.to_string(), (*m.receiver).clone());
                                continue;
                            }
                        }
                    }
                }
                Stmt::Expr(Expr::Macro(m), _) if LOG_MACROS.contains(&macro_name(&m.mac).as_str()) => {
                    self.count("logging/printing macro dropped");
                    continue;
                }
                _ => {}
            }
            self.pending.push(vec![]);
            let mut produced: Vec<Stmt> = Vec::new();
            let mut loop_after: Option<Stmt> = None;
            match &mut s {
                Stmt::Macro(m) => {
                    if let Some(e) = self.macro_expr(&mut m.mac) {
                        if m.semi_token.is_some() || !matches!(macro_name(&m.mac).as_str(), "vec" | "format" | "panic" | "unimplemented" | "unreachable") {
                            produced.push(parse_quote!(#e;));
                        } else {
                            produced.push(Stmt::Expr(e, None));
                        }
                    } else {
                        produced.push(s);
                    }
                }
                Stmt::Expr(Expr::ForLoop(_), _) => {
                    let Stmt::Expr(Expr::ForLoop(f), _) = s else { unreachable!() };
                    produced = self.desugar_for(f);
                }
                Stmt::Expr(e, semi) if matches!(e, Expr::While(_) | Expr::Loop(_)) => {
                    let id = self.loops;
                    if let Some(x) = self.anchor(&format!("loop{}.before", id)) {
                        out.push(x);
                    }
                    loop_after = self.anchor(&format!("loop{}.after", id));
                    if matches!(e, Expr::While(_)) {
                        *semi = Some(Default::default());
                    }
                    self.visit_expr_mut(e);
                    produced.push(s);
                }
                Stmt::Local(l) => {
                    if let Some(n) = pat_ident(&l.pat) {
                        self.call_seen(&format!("let:{}", n));
                    }
                    self.visit_stmt_mut(&mut s);
                    let mut lets = vec![];
                    if let Stmt::Local(l) = &mut s {
                        self.deref_pat(&mut l.pat, &mut lets);
                    }
                    produced.push(s);
                    produced.extend(lets);
                }
                _ => {
                    self.visit_stmt_mut(&mut s);
                    produced.push(s);
                }
            }
            produced.extend(loop_after);
            let names = self.pending.pop().unwrap();
            let mut before = vec![];
            let mut after = vec![];
            for n in names {
                if let Some(x) = self.anchor(&format!("before {}", n)) {
                    before.push(x);
                }
                if let Some(x) = self.anchor(&format!("after {}", n)) {
                    after.push(x);
                }
            }
            out.extend(before);
            out.extend(produced);
            out.extend(after);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // slot operations on raw pointers
        if let Some(n) = self.slot_rewrite(e) {
            self.count("raw-pointer access -> slot operation with ownership contract");
            *e = n;
            return;
        }
        match e {
            Expr::Macro(m) => {
                let name = macro_name(&m.mac);
                if LOG_MACROS.contains(&name.as_str()) {
                    self.count("logging/printing macro dropped");
                    *e = parse_quote!(());
                    return;
                }
                if let Some(n) = self.macro_expr(&mut m.mac) {
                    *e = n;
                }
            }
            Expr::Unsafe(u) => {
                self.count("unsafe block marker dropped");
                let mut b = u.block.clone();
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                let s = self.desugar_for(f);
                *e = parse_quote!({ #(#s)* });
            }
            Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => {
                let w = w.clone();
                *e = self.desugar_while_let(w);
            }
            Expr::While(w) => {
                let id = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut w.cond);
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                self.insert_end(&mut body, &format!("loop{}.end", id));
                self.insert_start(&mut body, &format!("loop{}.start", id));
                let lit = LitInt::new(&id.to_string(), Span::call_site());
                body.stmts.insert(0, parse_quote!(__vx_inv!(#lit);));
                self.used_loops.insert(id);
                self.loop_text.insert(id, self.spec.loops.get(&id).cloned().unwrap_or_default());
                w.body = body;
            }
            Expr::Loop(w) => {
                let id = self.loops;
                self.loops += 1;
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                self.insert_end(&mut body, &format!("loop{}.end", id));
                self.insert_start(&mut body, &format!("loop{}.start", id));
                let lit = LitInt::new(&id.to_string(), Span::call_site());
                body.stmts.insert(0, parse_quote!(__vx_inv!(#lit);));
                self.used_loops.insert(id);
                self.loop_text.insert(id, self.spec.loops.get(&id).cloned().unwrap_or_default());
                w.body = body;
            }
            Expr::If(i) => {
                let id = self.ifs;
                self.ifs += 1;
                if let Expr::Let(l) = &mut *i.cond {
                    self.visit_expr_mut(&mut l.expr);
                    let mut lets = vec![];
                    let mut p = (*l.pat).clone();
                    self.deref_pat(&mut p, &mut lets);
                    *l.pat = p;
                    self.visit_block_mut(&mut i.then_branch);
                    self.insert_end(&mut i.then_branch, &format!("if{}.then.end", id));
                    self.insert_start(&mut i.then_branch, &format!("if{}.then.start", id));
                    for l in lets.into_iter().rev() {
                        i.then_branch.stmts.insert(0, l);
                    }
                } else {
                    self.visit_expr_mut(&mut i.cond);
                    self.visit_block_mut(&mut i.then_branch);
                    self.insert_end(&mut i.then_branch, &format!("if{}.then.end", id));
                    self.insert_start(&mut i.then_branch, &format!("if{}.then.start", id));
                }
                match &mut i.else_branch {
                    Some((_, eb)) => {
                        if let Expr::Block(b) = &mut **eb {
                            self.visit_block_mut(&mut b.block);
                            self.insert_end(&mut b.block, &format!("if{}.else.end", id));
                            self.insert_start(&mut b.block, &format!("if{}.else.start", id));
                        } else {
                            self.visit_expr_mut(eb);
                        }
                    }
                    None => {
                        if let Some(s) = self.anchor(&format!("if{}.else.start", id)) {
                            i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #s }))));
                        }
                    }
                }
            }
            Expr::Match(m) => {
                let id = self.matches;
                self.matches += 1;
                self.visit_expr_mut(&mut m.expr);
                for (k, arm) in m.arms.iter_mut().enumerate() {
                    let mut lets = vec![];
                    self.deref_pat(&mut arm.pat, &mut lets);
                    if let Some((_, g)) = &mut arm.guard {
                        self.visit_expr_mut(g);
                    }
                    let (st, en) = (format!("match{}.arm{}.start", id, k), format!("match{}.arm{}.end", id, k));
                    let need = !lets.is_empty() || self.spec.anchors.contains_key(&st) || self.spec.anchors.contains_key(&en);
                    if need && !matches!(&*arm.body, Expr::Block(_)) {
                        let b = (*arm.body).clone();
                        *arm.body = parse_quote!({ #b });
                    }
                    if let Expr::Block(b) = &mut *arm.body {
                        self.visit_block_mut(&mut b.block);
                        self.insert_end(&mut b.block, &en);
                        self.insert_start(&mut b.block, &st);
                        for l in lets.into_iter().rev() {
                            b.block.stmts.insert(0, l);
                        }
                    } else {
                        self.visit_expr_mut(&mut arm.body);
                    }
                }
            }
            Expr::Closure(c) => {
                let id = self.closures;
                self.closures += 1;
                c.capture = None;
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let mut stmts: Vec<Stmt> = vec![];
                let has = self.spec.closures.contains_key(&id);
                let mut inputs: Punctuated<Pat, Token![,]> = Punctuated::new();
                for (k, p) in c.inputs.iter().enumerate() {
                    let mut p = p.clone();
                    let mut ty: Option<Type> = None;
                    if let Pat::Type(t) = &p {
                        ty = Some((*t.ty).clone());
                        p = (*t.pat).clone();
                    }
                    let nm = format_ident!("__c{}_{}", id, k);
                    let mut lets = vec![];
                    let mut q = p.clone();
                    self.deref_pat(&mut q, &mut lets);
                    if !matches!(q, Pat::Wild(_)) {
                        stmts.push(parse_quote!(let #q = #nm;));
                    }
                    stmts.extend(lets);
                    if let (Some(t), false) = (ty, has) {
                        inputs.push(parse_quote!(#nm));
                        let _ = t;
                    } else {
                        inputs.push(parse_quote!(#nm));
                    }
                }
                if has {
                    self.used_clos.insert(id);
                }
                let lit = LitInt::new(&id.to_string(), Span::call_site());
                let nb: Expr = parse_quote!({ __vx_clo!(#lit); #(#stmts)* #body });
                c.inputs = inputs;
                c.output = ReturnType::Default;
                c.body = Box::new(nb);
            }
            Expr::MethodCall(m) => {
                {
                    let mut recv = &*m.receiver;
                    while let Expr::Paren(p) = recv {
                        recv = &p.expr;
                    }
                    if let (Expr::Range(r), true) = (recv, m.method == "rev" || m.method == "map" || m.method == "enumerate" || m.method == "zip" || m.method == "all") {
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let n: Expr = parse_quote!(vrange(#a, #b));
                            self.count("(a..b) as an iterator -> vrange(a, b)");
                            *m.receiver = n;
                        }
                    }
                }
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let n = m.method.to_string();
                self.call_seen(&n);
                if let Some(r) = method_rename(&n) {
                    self.count("std iterator/slice method -> contracted stand-in of the same meaning");
                    m.method = Ident::new(r, m.method.span());
                    m.turbofish = None;
                }
                if n == "sum" || n == "collect" || n == "parse" {
                    if let Some(t) = m.turbofish.take() {
                        if n == "parse" {
                            let s = t.args.to_token_stream().to_string();
                            m.method = format_ident!("v_parse_{}", s);
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if n == "replace" && p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "mem" {
                        c.func = parse_quote!(v_mem_replace);
                        self.count("mem::replace -> contracted stand-in");
                    } else if n == "needs_drop" {
                        let args = &p.path.segments.last().unwrap().arguments;
                        let a = args.to_token_stream();
                        c.func = parse_quote!(v_needs_drop #a);
                    }
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    // the ghost argument of a function that has a ghost parameter
                    if let Some(g) = self.spec.opts.iter().find_map(|o| o.strip_prefix("call-ghost ").and_then(|r| r.trim().strip_prefix(n.as_str())).filter(|r| r.starts_with(' '))) {
                        let g: Expr = parse_str(g.trim()).expect("call-ghost");
                        self.count("ghost argument added to a call");
                        c.args.push(g);
                    }
                    self.call_seen(&n);
                    return;
                }
                visit_mut::visit_expr_call_mut(self, c);
            }
            Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Index(_)) && self.spec.opts.iter().any(|o| o == "slice-mut-index") => {
                // &mut E[i]  =>  &mut E.v_as_mut()[i]   (vstd has no range IndexMut for Vec)
                self.count("&mut E[range] -> &mut E.as_mut_slice()[range]");
                if let Expr::Index(ix) = &mut *r.expr {
                    self.visit_expr_mut(&mut ix.expr);
                    self.visit_expr_mut(&mut ix.index);
                    let b = (*ix.expr).clone();
                    *ix.expr = parse_quote!(#b.v_as_mut());
                }
            }
            Expr::Index(ix) if self.index_method(&ix.expr).is_some() => {
                let m = format_ident!("{}", self.index_method(&ix.expr).unwrap());
                self.count("X[i] -> X.method(i)");
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (x, i) = (&ix.expr, &ix.index);
                *e = parse_quote!(#x.#m(#i));
            }
            Expr::Index(ix) if self.index_opt("index-ref ", &ix.expr).is_some() => {
                // user-defined Index: X[i] is *X.index(i)
                let m = format_ident!("{}", self.index_opt("index-ref ", &ix.expr).unwrap());
                self.count("X[i] of a user-defined Index -> *X.index(i)");
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (x, i) = (&ix.expr, &ix.index);
                *e = parse_quote!(*#x.#m(#i));
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Index(ix) if self.index_opt("index-mut ", &ix.expr).is_some()) => {
                let Expr::Index(ix) = &mut *a.left else { unreachable!() };
                let m = format_ident!("{}", self.index_opt("index-mut ", &ix.expr).unwrap());
                self.count("X[i] = v of a user-defined IndexMut -> *X.index_mut(i) = v");
                self.visit_expr_mut(&mut a.right);
                self.visit_expr_mut(&mut ix.expr);
                self.visit_expr_mut(&mut ix.index);
                let (x, i, v) = (&ix.expr, &ix.index, &a.right);
                *e = parse_quote!(*#x.#m(#i) = #v);
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                self.call_seen("return");
            }
            Expr::Break(_) => {
                self.call_seen("break");
            }
            Expr::Continue(_) => {
                self.call_seen("continue");
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        subst_type(t, &self.assoc);
        visit_mut::visit_type_mut(self, t);
    }
}

impl<'a> Rw<'a> {
    fn index_method(&self, base: &Expr) -> Option<String> {
        self.index_opt("index-get ", base)
    }
    fn index_opt(&self, opt: &str, base: &Expr) -> Option<String> {
        let n = match base {
            Expr::Field(f) => f.member.to_token_stream().to_string(),
            Expr::Path(p) => p.path.segments.last()?.ident.to_string(),
            _ => return None,
        };
        self.spec.opts.iter().find_map(|o| {
            let mut w = o.strip_prefix(opt)?.split_whitespace();
            (w.next()? == n).then(|| w.next().unwrap().to_string())
        })
    }
    fn slot_rewrite(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                // *X.as_ptr().add(i)
                if let Expr::MethodCall(m) = &*u.expr {
                    if m.method == "add" {
                        let (mut x, mut i) = ptr_add(&u.expr, &self.aliases)?;
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut i);
                        return Some(parse_quote!(*#x.slot_ref(#i)));
                    }
                }
                None
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Unary(u) = &*r.expr {
                    if let (UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, &*u.expr) {
                        if m.method == "add" {
                            if let Expr::Path(p) = &*m.receiver {
                                if p.path.get_ident().is_some_and(|i| self.used_in_closure.contains(&i.to_string())) {
                                    let x = p.clone();
                                    let mut i = m.args[0].clone();
                                    self.visit_expr_mut(&mut i);
                                    return Some(parse_quote!(#x.cell(#i)));
                                }
                            }
                            let (mut x, mut i) = ptr_add(&u.expr, &self.aliases)?;
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut i);
                            return Some(parse_quote!(#x.slot_mut(#i)));
                        }
                    }
                }
                None
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last()?.ident.to_string();
                let is_ptr = p.path.segments.iter().any(|s| s.ident == "ptr");
                let is_slice = p.path.segments.iter().any(|s| s.ident == "slice");
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                if is_ptr && matches!(n.as_str(), "read" | "write" | "drop_in_place") {
                    let (mut x, mut i) = ptr_add(&args[0], &self.aliases)?;
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut i);
                    self.call_seen(&n);
                    return Some(match n.as_str() {
                        "read" => parse_quote!(#x.slot_read(#i)),
                        "drop_in_place" => parse_quote!(#x.slot_drop(#i)),
                        _ => {
                            self.visit_expr_mut(&mut args[1]);
                            let v = &args[1];
                            parse_quote!(#x.slot_write(#i, #v))
                        }
                    });
                }
                if is_ptr && matches!(n.as_str(), "copy" | "copy_nonoverlapping") {
                    let (mut x, mut i) = ptr_add(&args[0], &self.aliases)?;
                    let (mut y, mut j) = ptr_add(&args[1], &self.aliases)?;
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut y);
                    if x.to_token_stream().to_string() != y.to_token_stream().to_string() {
                        return None;
                    }
                    self.visit_expr_mut(&mut i);
                    self.visit_expr_mut(&mut j);
                    self.visit_expr_mut(&mut args[2]);
                    let k = &args[2];
                    let f = format_ident!("slot_{}", n);
                    self.call_seen(&n);
                    return Some(parse_quote!({ let __a = #i; let __b = #j; let __c = #k; #x.#f(__a, __b, __c) }));
                }
                if is_slice && matches!(n.as_str(), "from_raw_parts" | "from_raw_parts_mut") {
                    let (mut x, mut i) = ptr_add(&args[0], &self.aliases)?;
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut i);
                    self.visit_expr_mut(&mut args[1]);
                    let k = &args[1];
                    let f = if n == "from_raw_parts" { format_ident!("slot_slice") } else { format_ident!("slot_slice_mut") };
                    return Some(parse_quote!(#x.#f(#i, #k)));
                }
                None
            }
            _ => None,
        }
    }
}

fn pat_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

pub fn subst_type(t: &mut Type, assoc: &HashMap<String, Type>) {
    // Self::Item
    if let Type::Path(p) = t {
        if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
            if let Some(r) = assoc.get(&p.path.segments[1].ident.to_string()) {
                *t = r.clone();
                subst_type(t, assoc);
                return;
            }
        }
        // core::slice::Iter<'a, T> => VIter<&'a T>
        let n = p.path.segments.len();
        if n >= 2 && p.path.segments[n - 2].ident == "slice" && p.path.segments[n - 1].ident == "Iter" {
            if let PathArguments::AngleBracketed(a) = &p.path.segments[n - 1].arguments {
                let mut lt: Option<Lifetime> = None;
                let mut ty: Option<Type> = None;
                for g in a.args.iter() {
                    match g {
                        GenericArgument::Lifetime(l) => lt = Some(l.clone()),
                        GenericArgument::Type(t) => ty = Some(t.clone()),
                        _ => {}
                    }
                }
                let ty = ty.unwrap();
                *t = parse_quote!(VIter<&#lt #ty>);
                return;
            }
        }
        // core::ops::Range etc: keep last segment only for known std paths
        if n >= 2 && (p.path.segments[0].ident == "core" || p.path.segments[0].ident == "std") {
            let last = p.path.segments[n - 1].clone();
            *t = parse_quote!(#last);
            return;
        }
    }
    if let Type::ImplTrait(it) = t {
        for b in it.bounds.iter() {
            if let TypeParamBound::Trait(tb) = b {
                if let Some(x) = iterator_item(&tb.path) {
                    let mut x = x;
                    subst_type(&mut x, assoc);
                    *t = parse_quote!(VIter<#x>);
                    return;
                }
            }
        }
    }
}

fn iterator_item(p: &Path) -> Option<Type> {
    let s = p.segments.last()?;
    if s.ident != "Iterator" && s.ident != "IntoIterator" {
        return None;
    }
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        for g in a.args.iter() {
            if let GenericArgument::AssocType(t) = g {
                if t.ident == "Item" {
                    return Some(t.ty.clone());
                }
            }
        }
    }
    None
}

pub fn strip_item(it: &mut Item) {
    struct S;
    impl VisitMut for S {
        fn visit_type_mut(&mut self, t: &mut Type) {
            subst_type(t, &HashMap::new());
            visit_mut::visit_type_mut(self, t);
        }
    }
    Unqualify.visit_item_mut(it);
    S.visit_item_mut(it);
    match it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = Visibility::Inherited;
            }
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
            for v in s.variants.iter_mut() {
                v.attrs.clear();
            }
        }
        Item::Const(c) => {
            c.attrs.clear();
            c.vis = Visibility::Inherited;
        }
        Item::Type(c) => {
            c.attrs.clear();
            c.vis = Visibility::Inherited;
        }
        _ => {}
    }
}

fn bounds_iter(g: &mut Generics, map: &mut HashMap<String, Type>) {
    // <I: Iterator<Item = X>> => VIter<X>, parameter dropped
    let mut keep: Punctuated<GenericParam, Token![,]> = Punctuated::new();
    for p in g.params.iter() {
        let mut drop = false;
        if let GenericParam::Type(t) = p {
            for b in t.bounds.iter() {
                if let TypeParamBound::Trait(tb) = b {
                    if let Some(x) = iterator_item(&tb.path) {
                        map.insert(t.ident.to_string(), parse_quote!(VIter<#x>));
                        drop = true;
                    }
                }
            }
        }
        if !drop {
            keep.push(p.clone());
        }
    }
    // the same bound in the where clause
    if let Some(w) = &mut g.where_clause {
        let mut preds: Punctuated<WherePredicate, Token![,]> = Punctuated::new();
        for p in w.predicates.iter() {
            let mut name = None;
            if let WherePredicate::Type(t) = p {
                if let Type::Path(tp) = &t.bounded_ty {
                    if let Some(id) = tp.path.get_ident() {
                        for b in t.bounds.iter() {
                            if let TypeParamBound::Trait(tb) = b {
                                if let Some(x) = iterator_item(&tb.path) {
                                    map.insert(id.to_string(), parse_quote!(VIter<#x>));
                                    name = Some(id.to_string());
                                }
                            }
                        }
                    }
                }
            }
            match name {
                Some(n) => keep = keep.into_iter().filter(|q| !matches!(q, GenericParam::Type(t) if t.ident == n)).collect(),
                None => preds.push(p.clone()),
            }
        }
        w.predicates = preds;
    }
    if keep.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
    g.params = keep;
}

/// `crate::m::f` => `f`, `crate::m::T::f` => `T::f`
/// `use path::name as other`: other => name
pub struct Renames(pub HashMap<String, Ident>, pub usize);
impl Renames {
    pub fn collect(&mut self, t: &UseTree) {
        match t {
            UseTree::Path(p) => self.collect(&p.tree),
            UseTree::Group(g) => g.items.iter().for_each(|t| self.collect(t)),
            UseTree::Rename(r) if r.ident != "self" && r.rename != "_" => {
                self.0.insert(r.rename.to_string(), r.ident.clone());
            }
            _ => {}
        }
    }
}
impl VisitMut for Renames {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, p);
        if let Some(n) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string()).cloned()) {
            p.path = parse_quote!(#n);
            self.1 += 1;
        }
    }
}

struct Unqualify;
impl VisitMut for Unqualify {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if (first == "core" || first == "std") && p.segments.len() == 3 && matches!(p.segments[2].ident.to_string().as_str(), "MAX" | "MIN") {
            // core::i32::MAX => i32::MAX
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
        if (first == "crate" || first == "super") && p.segments.len() > 1 {
            let n = p.segments.len();
            let k = (1..n)
                .find(|&i| p.segments[i].ident.to_string().chars().next().unwrap().is_uppercase())
                .unwrap_or(n - 1);
            let segs: Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(k).cloned().collect();
            p.segments = segs;
        }
    }
}

struct TySubst<'a>(&'a HashMap<String, Type>, &'a HashMap<String, Type>);
impl<'a> VisitMut for TySubst<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if let Some(r) = self.0.get(&i.to_string()) {
                    *t = r.clone();
                    return;
                }
            }
        }
        subst_type(t, self.1);
        visit_mut::visit_type_mut(self, t);
    }
}

/// textual substitution that does not match inside a longer identifier
pub fn subst_text(s: &str, a: &str, b: &str) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find(a) {
        let before = rest[..p].chars().last().or_else(|| out.chars().last());
        let after = rest[p + a.len()..].chars().next();
        let ok = !(word(a.chars().next().unwrap()) && before.map_or(false, word)) && !(word(a.chars().last().unwrap()) && after.map_or(false, word));
        out.push_str(&rest[..p]);
        out.push_str(if ok { b } else { a });
        rest = &rest[p + a.len()..];
    }
    out.push_str(rest);
    out
}

fn replace_marker(s: &str, name: &str, f: &mut dyn FnMut(usize) -> String, brace_before: bool) -> String {
    // finds `name ! ( N ) ;`
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find(name) {
        let mut pre = rest[..p].to_string();
        let tail = &rest[p + name.len()..];
        let q = tail.find(';').expect("marker end");
        let num: String = tail[..q].chars().filter(|c| c.is_ascii_digit()).collect();
        let n: usize = num.parse().unwrap();
        let text = f(n);
        if brace_before {
            let b = pre.rfind('{').expect("brace");
            let after = pre[b + 1..].to_string();
            pre.truncate(b);
            out.push_str(&pre);
            out.push_str("/*<<*/");
            out.push_str(&text);
            out.push_str("/*>>*/");
            out.push('{');
            out.push_str(&after);
        } else {
            out.push_str(&pre);
            out.push_str("/*<<*/");
            out.push_str(&text);
            out.push_str("/*>>*/");
        }
        rest = &tail[q + 1..];
    }
    out.push_str(rest);
    out
}

/// opt reals: `f64` => the prelude type F, whose arithmetic is that of the real numbers
pub struct Reals<'a>(pub &'a mut BTreeMap<String, usize>, pub HashMap<String, Expr>, pub bool);
fn dec_literal(t: &str) -> Option<(i128, i128)> {
    let t: String = t.chars().filter(|c| *c != '_').collect();
    let t = t.trim_end_matches("f64");
    let (m, e) = match t.split_once(|c| c == 'e' || c == 'E') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?),
        None => (t.to_string(), 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((&m, ""));
    let mut n: i128 = format!("{}{}", i, f).parse().ok()?;
    let mut d: i128 = 1;
    let e = e - f.len() as i32;
    for _ in 0..e.max(0) {
        n = n.checked_mul(10)?;
    }
    for _ in 0..(-e).max(0) {
        d = d.checked_mul(10)?;
    }
    Some((n, d))
}
impl<'a> Reals<'a> {
    fn hit(&mut self, s: &str) {
        *self.0.entry(s.to_string()).or_default() += 1;
    }
}
impl<'a> VisitMut for Reals<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments[0].ident == "f64" && p.leading_colon.is_none() {
            self.hit("f64 -> F (exact real arithmetic)");
            p.segments[0].ident = Ident::new("F", Span::call_site());
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // vec![a; n] and vec![a, b]
        if macro_name(m) == "vec" {
            if let Ok((mut a, mut b)) = m.parse_body_with(|i: parse::ParseStream| {
                let a: Expr = i.parse()?;
                i.parse::<Token![;]>()?;
                let b: Expr = i.parse()?;
                Ok((a, b))
            }) {
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                m.tokens = quote!(#a; #b);
                return;
            }
        }
        if let Some(mut a) = parse_args(m) {
            for x in a.iter_mut() {
                self.visit_expr_mut(x);
            }
            m.tokens = quote!(#(#a),*);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(c) = p.path.get_ident().and_then(|i| self.1.get(&i.to_string()).cloned()) {
                self.hit("float constant inlined");
                *e = parse_quote!((#c));
            }
        }
        if let Expr::Cast(c) = e {
            let t = c.ty.to_token_stream().to_string();
            if t == "f64" || t == "COORD" {
                self.hit("integer as f64 -> vcast");
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(vcast(#x as i128));
                return;
            }
            if t == "i32" && self.2 {
                self.hit("as i32 -> v_as_i32()");
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!((#x).v_as_i32());
                return;
            }
        }
        if let Expr::Path(p) = e {
            if p.path.segments.last().unwrap().ident == "PI" {
                self.hit("PI -> vpi()");
                *e = parse_quote!(vpi());
                return;
            }
        }
        if let Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) = e {
            if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = &**expr {
                if let Some((n, d)) = dec_literal(&f.to_string()) {
                    self.hit("float literal -> vlit(numerator, denominator)");
                    let n = LitInt::new(&n.to_string(), Span::call_site());
                    let d = LitInt::new(&d.to_string(), Span::call_site());
                    *e = parse_quote!(vlit(-#n, #d));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    if let Some((n, d)) = dec_literal(&f.to_string()) {
                        self.hit("float literal -> vlit(numerator, denominator)");
                        let n = LitInt::new(&n.to_string(), Span::call_site());
                        let d = LitInt::new(&d.to_string(), Span::call_site());
                        *e = parse_quote!(vlit(#n, #d));
                    }
                }
            }
            Expr::Binary(b) => {
                let op: BinOp = match b.op {
                    BinOp::AddAssign(_) => BinOp::Add(Default::default()),
                    BinOp::SubAssign(_) => BinOp::Sub(Default::default()),
                    BinOp::MulAssign(_) => BinOp::Mul(Default::default()),
                    BinOp::DivAssign(_) => BinOp::Div(Default::default()),
                    _ => return,
                };
                self.hit("compound assignment -> assignment");
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(#l = #l #op (#r));
            }
            _ => {}
        }
    }
}

/// opt mono T=X: the instance of a generic function at X
fn instance(f: &mut Found, sig: &mut Signature, spec: &FnSpec, tymap: &mut HashMap<String, Type>) {
    for o in &spec.opts {
        let Some((t, x)) = o.strip_prefix("mono ").and_then(|r| r.split_once('=')) else { continue };
        let drop = |g: &mut Generics| {
            g.params = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(q) if q.ident == t.trim())).cloned().collect();
            if let Some(w) = &mut g.where_clause {
                w.predicates = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(q) if q.bounded_ty.to_token_stream().to_string() == t.trim())).cloned().collect();
                if w.predicates.is_empty() {
                    g.where_clause = None;
                }
            }
        };
        tymap.insert(t.trim().to_string(), parse_str(x.trim()).expect("type"));
        drop(&mut sig.generics);
        if let Some((g, _)) = &mut f.impl_generics {
            drop(g);
        }
    }
    if let Some((_, ty)) = &mut f.impl_generics {
        if !tymap.is_empty() {
            TySubst(tymap, &HashMap::new()).visit_type_mut(ty);
        }
    }
}

pub fn emit_fn(
    mut f: Found,
    spec: &FnSpec,
    stub: bool,
    counts: &mut BTreeMap<String, usize>,
    lost: &mut Vec<String>,
) -> (String, Stats) {
    let mut sig = f.vis_sig.clone();
    let mut block = f.block.clone();
    Unqualify.visit_signature_mut(&mut sig);
    Unqualify.visit_block_mut(&mut block);
    if spec.opts.iter().any(|o| o == "reals") {
        let mut consts = f.consts.clone();
        for c in consts.values_mut() {
            Unqualify.visit_expr_mut(c);
        }
        let mut r = Reals(counts, consts, spec.opts.iter().any(|o| o == "real-casts"));
        r.visit_signature_mut(&mut sig);
        r.visit_block_mut(&mut block);
        if let Some((_, ty)) = &mut f.impl_generics {
            r.visit_type_mut(ty);
        }
        for ty in f.assoc.values_mut() {
            r.visit_type_mut(ty);
        }
    }
    // the part of the body behind a top-level statement is shown to be unreachable instead
    if let Some(n) = spec.opts.iter().find_map(|o| o.strip_prefix("unreachable-after-if ")) {
        let n: usize = n.trim().parse().expect("number");
        let mut seen = 0;
        let mut cut = None;
        for (i, s) in block.stmts.iter().enumerate() {
            if let Stmt::Expr(Expr::If(_), _) = s {
                if seen == n {
                    cut = Some(i);
                    break;
                }
                seen += 1;
            }
        }
        match cut {
            Some(i) => {
                *counts.entry("code behind an early return -> obligation that it is unreachable under the precondition".into()).or_default() += 1;
                block.stmts.truncate(i + 1);
                block.stmts.push(Stmt::Expr(parse_quote!(vpanic()), None));
            }
            None => lost.push(format!("top-level if {} of {}", n, spec.key)),
        }
    }
    let mut tymap: HashMap<String, Type> = HashMap::new();
    instance(&mut f, &mut sig, spec, &mut tymap);
    bounds_iter(&mut sig.generics, &mut tymap);
    {
        let mut ts = TySubst(&tymap, &f.assoc);
        ts.visit_signature_mut(&mut sig);
    }
    // parameter patterns
    let mut prelets: Vec<Stmt> = vec![];
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Typed(t) => {
                t.attrs.clear();
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let p = (*t.pat).clone();
                    let id = format_ident!("arg{}", k);
                    prelets.push(parse_quote!(let #p = #id;));
                    *t.pat = parse_quote!(#id);
                    *counts.entry("parameter pattern -> let in body".into()).or_default() += 1;
                }
                if let Pat::Ident(pi) = &mut *t.pat {
                    if pi.mutability.is_some() {
                        // `mut x: T` parameter
                        pi.mutability = None;
                        let id = pi.ident.clone();
                        prelets.push(parse_quote!(let mut #id = #id;));
                    }
                }
            }
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    // `mut self`
                    r.mutability = None;
                    prelets.push(parse_quote!(let mut self_ = self;));
                    struct SelfR;
                    impl VisitMut for SelfR {
                        fn visit_ident_mut(&mut self, i: &mut Ident) {
                            if i == "self" {
                                *i = Ident::new("self_", Span::call_site());
                            }
                        }
                    }
                    SelfR.visit_block_mut(&mut block);
                    *counts.entry("mut self -> local variable".into()).or_default() += 1;
                }
            }
        }
    }
    let loops;
    let bare;
    let body_text;
    {
        let mut rw = Rw {
            spec,
            counts,
            assoc: f.assoc.clone(),
            fresh: 0,
            loops: 0,
            ifs: 0,
            matches: 0,
            closures: 0,
            calls: HashMap::new(),
            pending: vec![vec![]],
            ghosts: vec![],
            used: BTreeSet::new(),
            used_loops: BTreeSet::new(),
            used_clos: BTreeSet::new(),
            loop_text: BTreeMap::new(),
            aliases: HashMap::new(),
            used_in_closure: closure_ptrs(&block),
            lost: vec![],
            hoisted: vec![],
        };
        let _ = &rw.hoisted;
        {
            let mut ts = TySubst(&tymap, &f.assoc);
            ts.visit_block_mut(&mut block);
        }
        rw.visit_block_mut(&mut block);
        for s in prelets.into_iter().rev() {
            block.stmts.insert(0, s);
        }
        if rw.spec.anchors.contains_key("body.result") {
            // bind the tail expression, so that ghost code can speak about the result
            if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
                let Some(Stmt::Expr(e, None)) = block.stmts.pop() else { unreachable!() };
                block.stmts.push(parse_quote!(let res = #e;));
                let g = rw.anchor("body.result").unwrap();
                block.stmts.push(g);
                block.stmts.push(Stmt::Expr(parse_quote!(res), None));
            }
        }
        rw.insert_end(&mut block, "body.end");
        rw.insert_start(&mut block, "body.start");
        loops = rw.loops;
        // loops and closures for which the specification says nothing
        bare = (0..rw.loops).filter(|k| !spec.loops.contains_key(k)).count() + (0..rw.closures).filter(|k| !spec.closures.contains_key(k)).count();
        for k in spec.anchors.keys() {
            if !rw.used.contains(k) {
                rw.lost.push(format!("anchor '{}' of {}", k, spec.key));
            }
        }
        for k in spec.loops.keys() {
            if !rw.used_loops.contains(k) {
                rw.lost.push(format!("loop {} of {}", k, spec.key));
            }
        }
        for k in spec.closures.keys() {
            if !rw.used_clos.contains(k) {
                rw.lost.push(format!("closure {} of {}", k, spec.key));
            }
        }
        lost.extend(rw.lost.iter().cloned());
        let mut s = block.to_token_stream().to_string();
        // closures: `| __cK_.. | { __vx_clo ! (K) ;`
        loop {
            let Some(p) = s.find("__vx_clo") else { break };
            let tail = &s[p..];
            let q = tail.find(';').unwrap();
            let num: usize = tail[..q].chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
            let pre = &s[..p];
            let br = pre.rfind('{').unwrap();
            let bar2 = pre[..br].rfind('|').unwrap();
            let bar1 = pre[..bar2].rfind('|').unwrap();
            let head = if let Some(h) = spec.closures.get(&num) {
                // header: the user names parameters freely; rebind to the generated names
                format!("/*<<*/{}/*>>*/{{", h.trim_end())
            } else {
                format!("{} {{", &pre[bar1..br])
            };
            s = format!("{}{}{}", &s[..bar1], head, &s[p + q + 1..]);
        }
        let lt = rw.loop_text.clone();
        let gh = rw.ghosts.clone();
        s = replace_marker(&s, "__vx_inv", &mut |n| format!("\n{}", lt.get(&n).cloned().unwrap_or_default()), true);
        s = replace_marker(&s, "__vx_ghost", &mut |n| gh[n].clone(), false);
        body_text = s;
    }
    for o in &spec.opts {
        let _ = o;
    }
    let name = spec
        .rename
        .clone()
        .or_else(|| method_rename(&sig.ident.to_string()).map(|s| s.to_string()))
        .unwrap_or(sig.ident.to_string());
    let ret = spec.ret.clone().unwrap_or("r".into());
    let rt = match (&spec.rettype, &sig.output) {
        (Some(t), _) => format!("-> ({}: {})", ret, t),
        (None, ReturnType::Default) => String::new(),
        (None, ReturnType::Type(_, t)) => format!("-> ({}: {})", ret, t.to_token_stream()),
    };
    let mut inputs = sig.inputs.to_token_stream().to_string();
    if let Some(p) = &spec.params {
        if !inputs.trim_end().ends_with(',') && !inputs.trim().is_empty() {
            inputs.push_str(", ");
        }
        inputs.push_str(p);
    }
    let generics = match &spec.generics {
        Some(g) => g.clone(),
        None => sig.generics.to_token_stream().to_string(),
    };
    let wh = sig.generics.where_clause.to_token_stream().to_string();
    let mut out = String::new();
    out.push_str(&format!("/*<<*/// @fn {} ({})\n/*>>*/", spec.key, spec.file));
    let mut close = String::new();
    if let Some((g, ty)) = &f.impl_generics {
        let mut g = g.clone();
        let mut ty = ty.clone();
        subst_type(&mut ty, &HashMap::new());
        let w = g.where_clause.take();
        out.push_str(&format!("impl {} {} {} {{ ", g.to_token_stream(), ty.to_token_stream(), w.to_token_stream()));
        close.push('}');
    }
    out.push_str(&format!("/*<<*/{}/*>>*/", spec.attr));
    if stub {
        out.push_str("/*<<*/#[verifier::external_body]/*>>*/");
    } else {
        // a solver of its own: one failing function cannot slow down the others
        // (Verus prunes what it does not need there, and then trips over a `hide` of it)
        if !spec.anchors.values().any(|a| a.contains("hide(")) {
            out.push_str("/*<<*/#[verifier::spinoff_prover]/*>>*/ ");
        }
        if !spec.opts.iter().any(|o| o == "isolate") {
            out.push_str("/*<<*/#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]/*>>*/");
        }
    }
    out.push_str(&format!("fn {} {} ({}) {} {} ", name, generics, inputs, rt, wh));
    out.push_str(&format!("/*<<*/{}/*>>*/", spec.contract));
    if stub {
        out.push_str("{ unimplemented!() }");
    } else {
        out.push_str(&body_text);
    }
    out.push_str(&close);
    for o in &spec.opts {
        if let Some(r) = o.strip_prefix("subst ") {
            let (a, b) = r.split_once("=>").expect("subst");
            out = subst_text(&out, a.trim(), b.trim());
        }
    }
    let _ = TokenStream::new();
    (out, Stats { loops, bare })
}
