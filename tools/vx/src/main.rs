//! vx: mechanical extraction of functions from /repo into a Verus file.
//!
//! usage: vx REPO SPECDIR PROP OUT.rs OUT.json
//!
//! Every run parses the current source, takes the functions, structs and constants named by the
//! property's spec files, applies the purely syntactic rewrites listed in DESIGN.md, inserts
//! contracts / invariants / ghost code at the named anchors and prints one Verus file.
mod rewrite;
mod spec;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Found {
    pub impl_generics: Option<(Generics, Type)>,
    pub assoc: HashMap<String, Type>,
    pub vis_sig: Signature,
    pub block: Block,
    pub line: usize,
    pub consts: HashMap<String, Expr>,
}

fn fail(kind: &str, msg: &str) -> ! {
    println!("{{\"status\":\"{}\",\"message\":{:?}}}", kind, msg);
    std::process::exit(3);
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    }
}

fn find_fn(items: &[Item], key: &str) -> Option<Found> {
    if let Some((outer, inner)) = key.split_once('/') {
        let f = find_fn(items, outer)?;
        let inner_items: Vec<Item> = f
            .block
            .stmts
            .iter()
            .filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None })
            .collect();
        return find_fn(&inner_items, inner);
    }
    // "Trait:Type::name" | "Type::name" | "name"; the Trait: prefix disambiguates
    let (tr, rest) = match key.split_once('@') {
        Some((t, r)) => (Some(t), r),
        None => (None, key),
    };
    if let Some((ty, name)) = rest.split_once("::") {
        for it in items {
            if let Item::Impl(im) = it {
                if type_name(&im.self_ty) != ty {
                    continue;
                }
                let this_tr = im
                    .trait_
                    .as_ref()
                    .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if let Some(t) = tr {
                    if this_tr.as_deref() != Some(t) {
                        continue;
                    }
                }
                let mut assoc = HashMap::new();
                for ii in &im.items {
                    if let ImplItem::Type(t) = ii {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            if tr.is_none() && this_tr.is_some() {
                                // prefer inherent; accept trait fn only if no inherent one exists
                                let inherent = items.iter().any(|o| matches!(o, Item::Impl(oi) if oi.trait_.is_none() && type_name(&oi.self_ty) == ty && oi.items.iter().any(|x| matches!(x, ImplItem::Fn(g) if g.sig.ident == name))));
                                if inherent {
                                    continue;
                                }
                            }
                            return Some(Found {
                                impl_generics: Some((im.generics.clone(), (*im.self_ty).clone())),
                                assoc,
                                vis_sig: f.sig.clone(),
                                block: f.block.clone(),
                                line: f.sig.ident.span().start().line,
 consts: HashMap::new(),
                            });
                        }
                    }
                }
            }
        }
        None
    } else {
        for it in items {
            if let Item::Fn(f) = it {
                if f.sig.ident == rest && !f.attrs.iter().any(is_cfg_test) {
                    return Some(Found {
                        impl_generics: None,
                        assoc: HashMap::new(),
                        vis_sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        line: f.sig.ident.span().start().line,
 consts: HashMap::new(),
                    });
                }
            }
        }
        None
    }
}

fn is_cfg_test(a: &Attribute) -> bool {
    let s = a.to_token_stream().to_string();
    s.contains("cfg") && (s.contains("test") || s.contains("TRANSPARENT")) && !s.contains("not")
}

fn find_item(items: &[Item], key: &str) -> Option<Item> {
    if let Some((outer, inner)) = key.split_once('/') {
        let f = find_fn(items, outer)?;
        let inner_items: Vec<Item> = f
            .block
            .stmts
            .iter()
            .filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None })
            .collect();
        return find_item(&inner_items, inner);
    }
    for it in items {
        match it {
            Item::Struct(s) if s.ident == key => return Some(it.clone()),
            Item::Enum(s) if s.ident == key => return Some(it.clone()),
            Item::Const(s) if s.ident == key => return Some(it.clone()),
            Item::Type(s) if s.ident == key => return Some(it.clone()),
            Item::Static(s) if s.ident == key => return Some(it.clone()),
            _ => {}
        }
    }
    None
}

/// newline after every ; { } outside string and char literals
fn split_lines(s: &str) -> String {
    let mut out = String::with_capacity(s.len() * 2);
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        match c {
            '"' => {
                out.push(c);
                i += 1;
                while i < cs.len() && cs[i] != '"' {
                    if cs[i] == '\\' {
                        out.push(cs[i]);
                        i += 1;
                    }
                    out.push(cs[i]);
                    i += 1;
                }
                out.push('"');
            }
            '\'' if i + 2 < cs.len() && (cs[i + 2] == '\'' || cs[i + 1] == '\\') => {
                // char literal
                out.push(c);
                i += 1;
                while cs[i] != '\'' {
                    if cs[i] == '\\' {
                        out.push(cs[i]);
                        i += 1;
                    }
                    out.push(cs[i]);
                    i += 1;
                }
                out.push('\'');
            }
            ';' | '{' | '}' => {
                out.push(c);
                out.push('\n');
            }
            _ => out.push(c),
        }
        i += 1;
    }
    out
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, specdir, prop, out_rs, out_json) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let cfg = spec::read_prop(specdir, prop);
    let mut units: Vec<spec::SpecFile> = Vec::new();
    for u in &cfg.uses {
        units.push(spec::read_spec(&format!("{}/{}", specdir, u)));
    }
    // a function may be named by several spec files: the last one wins, and inherits the contract
    let mut contracts: HashMap<String, String> = HashMap::new();
    let mut count: HashMap<String, usize> = HashMap::new();
    for u in units.iter_mut() {
        for e in u.entries.iter_mut() {
            if let spec::Entry::Fn(fs) = e {
                *count.entry(fs.key.clone()).or_default() += 1;
                if fs.contract.trim().is_empty() {
                    if let Some(c) = contracts.get(&fs.key) {
                        fs.contract = c.clone();
                    }
                }
                contracts.insert(fs.key.clone(), fs.contract.clone());
            }
        }
    }
    let mut sources: BTreeMap<String, File> = BTreeMap::new();
    let mut out = String::new();
    out.push_str("#![allow(unused)]\n#![allow(non_snake_case, non_upper_case_globals, non_camel_case_types)]\nuse vstd::prelude::*;\nuse core::ops::Range;\nverus! {\n");
    for p in &cfg.preludes {
        match std::fs::read_to_string(format!("{}/{}", specdir, p)) {
            Ok(t) => {
                let _ = writeln!(out, "// ==== prelude {}", p);
                out.push_str(&t);
                out.push('\n');
            }
            Err(e) => fail("spec-error", &format!("prelude {}: {}", p, e)),
        }
    }
    let mut lost: Vec<String> = Vec::new();
    let mut fns_json: Vec<String> = Vec::new();
    let mut rewrites: BTreeMap<String, usize> = BTreeMap::new();
    let mut emitted: Vec<String> = Vec::new();
    let lookup = |file: &str, sources: &mut BTreeMap<String, File>| -> Option<Vec<Item>> {
        if !sources.contains_key(file) {
            let t = std::fs::read_to_string(format!("{}/{}", repo, file)).ok()?;
            let f = syn::parse_file(&t).ok()?;
            sources.insert(file.to_string(), f);
        }
        Some(sources[file].items.clone())
    };
    for u in &units {
        for e in &u.entries {
            match e {
                spec::Entry::Text(t) => {
                    out.push_str(t);
                    out.push('\n');
                }
                spec::Entry::Item { file, key, attr } => {
                    let items = match lookup(file, &mut sources) {
                        Some(i) => i,
                        None => {
                            lost.push(format!("file {}", file));
                            continue;
                        }
                    };
                    match find_item(&items, key) {
                        None => lost.push(format!("item {} in {}", key, file)),
                        Some(mut it) => {
                            rewrite::strip_item(&mut it);
                            let mut s = it.to_token_stream().to_string();
                            let attr = format!(" {}", attr);
                            let mut parts = attr.split(" | ");
                            let attr = parts.next().unwrap().trim();
                            for p in parts {
                                let (a, b) = p.split_once("=>").expect("item subst");
                                s = rewrite::subst_text(&s, a.trim(), b.trim());
                            }
                            let _ = writeln!(out, "// item {} from {}", key, file);
                            if !attr.is_empty() {
                                out.push_str(attr);
                                out.push('\n');
                            }
                            out.push_str(&split_lines(&s));
                            out.push('\n');
                        }
                    }
                }
                spec::Entry::Static { file, key, post } => match lookup(file, &mut sources).and_then(|i| find_item(&i, key)) {
                    Some(Item::Static(mut it)) => {
                        let mut r = rewrite::Reals(&mut rewrites, HashMap::new(), false);
                        r.visit_type_mut(&mut it.ty);
                        r.visit_expr_mut(&mut it.expr);
                        let (ty, e) = (it.ty.to_token_stream(), it.expr.to_token_stream());
                        let _ = write!(out, "// static {} from {}\nexec static {}: {}\n{}{{\nlet r: {} = {};\nr\n}}\n", key, file, key, ty, post, ty, e);
                    }
                    _ => lost.push(format!("static {} in {}", key, file)),
                },
                spec::Entry::Fn(fs) => {
                    let name_key = fs.emit_key();
                    let stub = cfg.stubs.iter().any(|s| *s == name_key);
                    if !cfg.verify.iter().any(|s| *s == name_key) && !stub {
                        continue;
                    }
                    let left = count.get_mut(&name_key).unwrap();
                    *left -= 1;
                    if *left > 0 || emitted.contains(&name_key) {
                        continue;
                    }
                    emitted.push(name_key.clone());
                    let items = match lookup(&fs.file, &mut sources) {
                        Some(i) => i,
                        None => {
                            lost.push(format!("file {}", fs.file));
                            continue;
                        }
                    };
                    let mut f = match find_fn(&items, &fs.src_key()) {
                        Some(f) => f,
                        None => {
                            lost.push(format!("fn {} in {}", fs.key, fs.file));
                            continue;
                        }
                    };
                    let mut ren = rewrite::Renames(HashMap::new(), 0);
                    for it in &items {
                        if let Item::Use(u) = it {
                            ren.collect(&u.tree);
                        }
                    }
                    ren.visit_block_mut(&mut f.block);
                    if ren.1 > 0 {
                        *rewrites.entry("name imported with `as` written as the name it stands for".to_string()).or_default() += ren.1;
                    }
                    for o in &fs.opts {
                        if let Some(n) = o.strip_prefix("inline ") {
                            match find_item(&items, n.trim()) {
                                Some(Item::Const(c)) => {
                                    f.consts.insert(n.trim().to_string(), (*c.expr).clone());
                                }
                                _ => lost.push(format!("const {} in {}", n, fs.file)),
                            }
                        }
                    }
                    let start_line = out.lines().count() + 1;
                    let src_line = f.line;
                    let (text, stats) = rewrite::emit_fn(f, fs, stub, &mut rewrites, &mut lost);
                    out.push_str(&split_text(&text));
                    out.push('\n');
                    let end_line = out.lines().count();
                    fns_json.push(format!(
                        "{{\"fn\":{},\"file\":{},\"line\":{},\"start\":{},\"end\":{},\"loops\":{},\"bare\":{},\"stub\":{}}}",
                        json_str(&name_key), json_str(&fs.file), src_line, start_line, end_line, stats.loops, stats.bare, stub
                    ));
                }
            }
        }
    }
    for v in cfg.verify.iter().chain(cfg.stubs.iter()) {
        if !emitted.contains(v) {
            fail("spec-error", &format!("no spec entry for {}", v));
        }
    }
    for t in &cfg.extra {
        match std::fs::read_to_string(format!("{}/{}", specdir, t)) {
            Ok(s) => {
                let start_line = out.lines().count() + 1;
                out.push_str(&s);
                out.push('\n');
                let end_line = out.lines().count();
                fns_json.push(format!(
                    "{{\"fn\":{},\"file\":{},\"line\":0,\"start\":{},\"end\":{},\"loops\":0,\"stub\":false}}",
                    json_str(&format!("lemmas:{}", t)), json_str(t), start_line, end_line
                ));
            }
            Err(e) => fail("spec-error", &format!("extra {}: {}", t, e)),
        }
    }
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(out_rs, &out).unwrap();
    let rw: Vec<String> = rewrites.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let lj: Vec<String> = lost.iter().map(|s| json_str(s)).collect();
    let j = format!(
        "{{\"status\":{},\"lost\":[{}],\"functions\":[{}],\"rewrites\":{{{}}}}}",
        if lost.is_empty() { "\"ok\"" } else { "\"lost\"" },
        lj.join(","),
        fns_json.join(","),
        rw.join(",")
    );
    std::fs::write(out_json, &j).unwrap();
    println!("{}", j);
    if !lost.is_empty() {
        std::process::exit(3);
    }
}

/// like split_lines, but leaves lines coming from specs (marked) untouched
fn split_text(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find("/*<<*/") {
        out.push_str(&split_lines(&rest[..p]));
        let q = rest[p..].find("/*>>*/").expect("marker") + p;
        out.push('\n');
        out.push_str(&rest[p + 6..q]);
        out.push('\n');
        rest = &rest[q + 6..];
    }
    out.push_str(&split_lines(rest));
    out
}

#[allow(dead_code)]
fn unused(_: TokenStream, mut b: Block) {
    struct V;
    impl VisitMut for V {}
    V.visit_block_mut(&mut b);
    let _ = quote!(#b);
}
