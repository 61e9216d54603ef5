#![allow(dead_code, unused_mut)]
//! Mechanical extraction of /repo/src into a Verus crate.
//! usage: vx-extract SRC_DIR CONTRACT_DIR OUT_DIR [--baseline FILE] [--write-baseline FILE] [--drop ID]...
mod contract;
mod inline;
mod lower;

use contract::*;
use inline::*;
use lower::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Module {
    path: Vec<String>,
    file: String,
    items: Vec<Item>,
    subs: Vec<Module>,
}

fn load(path: Vec<String>, file: &std::path::Path, root: &std::path::Path) -> Module {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("{}: {e}", file.display())));
    let f = syn::parse_file(&text).unwrap_or_else(|e| fail(&format!("{}: {e}", file.display())));
    let dir = if path.is_empty() || file.file_name().unwrap() == "mod.rs" {
        file.parent().unwrap().to_path_buf()
    } else {
        file.with_extension("")
    };
    let mut m = Module { path: path.clone(), file: file.strip_prefix(root).unwrap().display().to_string(), items: vec![], subs: vec![] };
    for it in f.items {
        if cfg_test(item_attrs(&it)) {
            continue;
        }
        if let Item::Mod(x) = &it {
            let mut p = path.clone();
            p.push(x.ident.to_string());
            if let Some((_, items)) = &x.content {
                m.subs.push(Module { path: p, file: m.file.clone(), items: items.iter().filter(|i| !cfg_test(item_attrs(i))).cloned().collect(), subs: vec![] });
            } else {
                let a = dir.join(format!("{}.rs", x.ident));
                let b = dir.join(x.ident.to_string()).join("mod.rs");
                let f = if a.exists() { a } else { b };
                m.subs.push(load(p, &f, root));
            }
            continue;
        }
        m.items.push(it);
    }
    m
}

fn fail(s: &str) -> ! {
    eprintln!("EXTRACT-ERROR: {s}");
    std::process::exit(3)
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}
fn cfg_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.path().is_ident("cfg") && norm(&a.meta) == "cfg(test)")
}

/// removes attributes and visibility everywhere
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}
struct StripAll;
impl VisitMut for StripAll {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Local(l) => l.attrs.clear(),
            Stmt::Macro(m) => m.attrs.clear(),
            _ => {}
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::If(x) => x.attrs.clear(),
            Expr::Block(x) => x.attrs.clear(),
            Expr::Macro(x) => x.attrs.clear(),
            Expr::Call(x) => x.attrs.clear(),
            Expr::MethodCall(x) => x.attrs.clear(),
            Expr::Match(x) => x.attrs.clear(),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_variant_mut(&mut self, v: &mut Variant) {
        v.attrs.clear();
    }
}

/// path / method / type renames
struct Renames<'a> {
    c: &'a Contracts,
    trait_defaults: &'a BTreeMap<String, BTreeSet<String>>,
}
impl Renames<'_> {
    fn rename_path(&self, p: &mut Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let full = segs.join("::");
        // Trait::default_method => TraitExt::default_method
        if segs.len() >= 2 {
            let (t, m) = (&segs[segs.len() - 2], &segs[segs.len() - 1]);
            if self.trait_defaults.get(t).map(|s| s.contains(m)).unwrap_or(false) {
                let n = segs.len() - 2;
                let i = &p.segments[n].ident;
                p.segments[n].ident = Ident::new(&format!("{t}Ext"), i.span());
                return;
            }
        }
        for (a, b) in &self.c.rename_path {
            if full == *a || full.starts_with(&format!("{a}::")) {
                let k = a.split("::").count();
                let np: Path = parse_str(b).unwrap();
                let mut segs: Vec<PathSegment> = np.segments.iter().cloned().collect();
                if let Some(last) = segs.last_mut() {
                    last.arguments = p.segments[k - 1].arguments.clone();
                    let sp = p.segments[k - 1].ident.span();
                    last.ident = Ident::new(&last.ident.to_string(), sp);
                }
                segs.extend(p.segments.iter().skip(k).cloned());
                p.leading_colon = np.leading_colon;
                p.segments = segs.into_iter().collect();
                return;
            }
        }
    }
}
use proc_macro2::Ident;
impl VisitMut for Renames<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.rename_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        let n = m.method.to_string();
        for (a, b) in &self.c.rename_method {
            let (name, argn) = match a.split_once('/') {
                Some((x, y)) => (x, y.parse::<usize>().ok()),
                None => (a.as_str(), None),
            };
            if n == name && argn.map(|k| k == m.args.len()).unwrap_or(true) {
                m.method = Ident::new(b, m.method.span());
                break;
            }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let n = norm(t);
        for (a, b) in &self.c.rename_type {
            let an = norm_ts(a.parse().unwrap());
            if n == an {
                *t = parse_str(b).unwrap();
                return;
            }
        }
        // impl Iterator<Item = T>  =>  Vec<T>
        if let Type::ImplTrait(i) = t {
            if i.bounds.len() == 1 {
                if let TypeParamBound::Trait(tb) = &i.bounds[0] {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(GenericArgument::AssocType(at)) = a.args.first() {
                                let ty = &at.ty;
                                *t = parse_quote!(Vec<#ty>);
                                return;
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// replaces `self` / `Self`
struct SelfSubst {
    self_to: Option<String>,
    self_ty: Option<Type>,
    assoc: BTreeMap<String, Type>,
}
impl VisitMut for SelfSubst {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(s) = &self.self_to {
            if p.path.is_ident("self") {
                p.path.segments[0].ident = id(s);
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(Type::Path(t)) = &self.self_ty {
            if p.segments.len() >= 1 && p.segments[0].ident == "Self" {
                let mut segs: Vec<PathSegment> = t.path.segments.iter().cloned().collect();
                if p.segments.len() > 1 || true {
                    for s in &mut segs {
                        s.arguments = PathArguments::None;
                    }
                }
                segs.extend(p.segments.iter().skip(1).cloned());
                p.segments = segs.into_iter().collect();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let n = norm(t);
        if let Some(x) = n.strip_prefix("Self::") {
            if let Some(a) = self.assoc.get(x) {
                *t = a.clone();
                return;
            }
        }
        if n == "Self" {
            if let Some(s) = &self.self_ty {
                *t = s.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

#[derive(Clone)]
struct Func {
    id: String,
    module: Vec<String>,
    file: String,
    sig: Signature,
    block: Option<Block>,
    kind: &'static str, // free, inherent, trait_req, trait_default, impl
    line: (usize, usize),
}

struct Out {
    s: String,
    line: usize,
    map: Vec<(usize, String, usize)>,
}
impl Out {
    fn p(&mut self, t: &str) {
        self.line += t.matches('\n').count();
        self.s.push_str(t);
    }
    fn nl(&mut self) {
        if !self.s.ends_with('\n') {
            self.p("\n");
        }
    }
}

struct FnCtx<'a> {
    loops: &'a BTreeMap<usize, String>,
    ghosts: &'a [(String, String)],
    used_loops: RefCell<BTreeSet<usize>>,
    used_ghosts: RefCell<BTreeSet<String>>,
    file: String,
}

/// splits at top-level commas
fn conjuncts(t: &str) -> Vec<&str> {
    let (mut d, mut a, mut v) = (0i32, 0, vec![]);
    let mut bar = false;
    for (i, c) in t.char_indices() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            '|' if t[i..].starts_with("||") || t[..i].ends_with('|') => {}
            '|' => bar = !bar,
            ',' if d == 0 && !bar => {
                v.push(&t[a..i]);
                a = i + 1;
            }
            _ => {}
        }
    }
    v.push(&t[a..]);
    v
}

fn print_ts(ts: TokenStream, out: &mut Out, cx: &FnCtx, last: &mut usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        // vx_ghost!("key");
        if let TokenTree::Ident(idn) = &v[i] {
            if idn == "vx_ghost" && i + 2 < v.len() {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let key = g.stream().to_string().trim_matches('"').to_string();
                    for (k, t) in cx.ghosts {
                        if *k == key {
                            cx.used_ghosts.borrow_mut().insert(key.clone());
                            out.nl();
                            out.p(t);
                            out.nl();
                        }
                    }
                    i += 3;
                    if i < v.len() {
                        if let TokenTree::Punct(p) = &v[i] {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                    }
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let sp = g.span_open().start();
                line(sp, out, cx, last);
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                let mut inner = g.stream();
                if g.delimiter() == Delimiter::Brace {
                    let iv: Vec<TokenTree> = inner.clone().into_iter().collect();
                    if let Some(TokenTree::Ident(x)) = iv.first() {
                        if x == "vx_loop_spec" {
                            if let TokenTree::Group(g) = &iv[2] {
                                let parts: Vec<String> = g.stream().to_string().splitn(3, ',').map(|s| s.trim().to_string()).collect();
                                let k: usize = parts[0].trim_end_matches("usize").parse().unwrap();
                                let auto = parts[1] == "for";
                                out.nl();
                                let spec = cx.loops.get(&k).cloned().unwrap_or_default();
                                if cx.loops.contains_key(&k) {
                                    cx.used_loops.borrow_mut().insert(k);
                                }
                                let has_dec = spec.lines().any(|l| l.trim_start().starts_with("decreases"));
                                let spec = if auto {
                                    out.p(&format!("        invariant vx_i{k} <= vx_n{k},\n"));
                                    let t = spec.trim_start();
                                    t.strip_prefix("invariant").filter(|r| r.starts_with(char::is_whitespace)).unwrap_or(t).to_string()
                                } else if parts[1] == "while" && !has_dec {
                                    // an annotation written for a `for` loop: keep what does not speak of its counters
                                    let t = spec.trim_start();
                                    let t = t.strip_prefix("invariant").filter(|r| r.starts_with(char::is_whitespace)).unwrap_or(t);
                                    let keep: Vec<&str> = conjuncts(t).into_iter().filter(|c| !c.contains("vx_") && !c.trim().is_empty()).collect();
                                    let mut s = String::new();
                                    if !keep.is_empty() {
                                        s += &format!("        invariant {},\n", keep.join(","));
                                    }
                                    if let Some(d) = parts.get(2) {
                                        s += &format!("        decreases {d},\n");
                                    }
                                    s
                                } else {
                                    spec
                                };
                                out.p(&spec);
                                out.nl();
                                if auto && !has_dec {
                                    out.p(&format!("        decreases vx_n{k} - vx_i{k},\n"));
                                }
                            }
                            inner = iv[4..].iter().cloned().collect();
                        }
                    }
                }
                out.p(a);
                let brace = g.delimiter() == Delimiter::Brace;
                if brace {
                    out.p(" ");
                }
                print_ts(inner, out, cx, last);
                let sp = g.span_close().start();
                line(sp, out, cx, last);
                if brace && out.s.len() > 3000 && out.s[out.s.len() - 1..] == *" " {
                    // keep as is
                }
                out.p(b);
                out.p(" ");
            }
            TokenTree::Punct(p) => {
                line(p.span().start(), out, cx, last);
                out.p(&p.as_char().to_string());
                if p.spacing() == Spacing::Alone {
                    out.p(" ");
                }
                if p.as_char() == ';' && v.len() > 3 {
                    // one statement per line
                    out.nl();
                    *last = 0;
                }
            }
            TokenTree::Ident(x) => {
                line(x.span().start(), out, cx, last);
                out.p(&x.to_string());
                out.p(" ");
            }
            TokenTree::Literal(x) => {
                line(x.span().start(), out, cx, last);
                out.p(&x.to_string());
                out.p(" ");
            }
        }
        i += 1;
    }
}
fn line(sp: proc_macro2::LineColumn, out: &mut Out, cx: &FnCtx, last: &mut usize) {
    if sp.line <= 1 && sp.column == 0 {
        return;
    }
    if sp.line != *last {
        out.nl();
        *last = sp.line;
        out.map.push((out.line, cx.file.clone(), sp.line));
    }
}

fn strip_lifetimes(s: &str) -> String {
    // drops lifetimes from a normalized type string
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\'' {
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            while i < c.len() && (c[i] == ' ' || c[i] == ',') {
                i += 1;
            }
            continue;
        }
        out.push(c[i]);
        i += 1;
    }
    out.replace("<>", "").replace("& ", "&")
}

fn impl_name(i: &ItemImpl) -> String {
    let t = strip_lifetimes(&norm(&i.self_ty));
    match &i.trait_ {
        None => t,
        Some((_, p, _)) => format!("impl {} for {}", strip_lifetimes(&norm(p)), t),
    }
}

struct Macr {
    params: Vec<String>,
    body: TokenStream,
}
fn parse_macro_rules(m: &ItemMacro) -> Option<(String, Macr)> {
    let name = m.ident.as_ref()?.to_string();
    let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (pat, body) = match (&v.first(), &v.get(3)) {
        (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) => (p.stream(), b.stream()),
        _ => return None,
    };
    let pv: Vec<TokenTree> = pat.into_iter().collect();
    let mut params = vec![];
    for w in pv.windows(2) {
        if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) {
            if p.as_char() == '$' {
                params.push(i.to_string());
            }
        }
    }
    Some((name, Macr { params, body }))
}
fn subst_macro(t: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '$' && i + 1 < v.len() {
                if let TokenTree::Ident(x) = &v[i + 1] {
                    if let Some(r) = m.get(&x.to_string()) {
                        out.extend(r.clone());
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst_macro(g.stream(), m));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
struct CommaTs(Vec<TokenStream>);
impl syn::parse::Parse for CommaTs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let mut v = vec![TokenStream::new()];
        while !i.is_empty() {
            let t: TokenTree = i.parse()?;
            if let TokenTree::Punct(p) = &t {
                if p.as_char() == ',' {
                    v.push(TokenStream::new());
                    continue;
                }
            }
            v.last_mut().unwrap().extend([t]);
        }
        Ok(CommaTs(v))
    }
}

/// The expansions of `#[derive(Clone, PartialEq, Hash)]`; only those with a contract are emitted.
struct NoAttrs;
impl VisitMut for NoAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = Visibility::Inherited;
    }
}
/// everything but function bodies: what an unchanged body depends on
fn item_norms(m: &Module, out: &mut BTreeSet<String>) {
    let mp = m.path.join("::");
    for it in &m.items {
        let mut it = it.clone();
        NoAttrs.visit_item_mut(&mut it);
        match &it {
            Item::Const(_) | Item::Static(_) | Item::Type(_) | Item::Struct(_) | Item::Enum(_) | Item::Union(_) | Item::Macro(_) => {
                out.insert(format!("{mp}: {}", norm(&it)));
            }
            Item::Fn(f) => {
                out.insert(format!("{mp}: {}", norm(&f.sig)));
            }
            Item::Trait(t) => {
                for i in &t.items {
                    let s = if let TraitItem::Fn(f) = i { norm(&f.sig) } else { norm(i) };
                    out.insert(format!("{mp}: {}: {s}", t.ident));
                }
            }
            Item::Impl(t) => {
                let n = impl_name(t);
                for i in &t.items {
                    let s = if let ImplItem::Fn(f) = i { norm(&f.sig) } else { norm(i) };
                    out.insert(format!("{mp}: {n}: {s}"));
                }
            }
            _ => {}
        }
    }
    for s in &m.subs {
        item_norms(s, out);
    }
}
fn expand_derives(m: &mut Module) {
    fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
        let mut r = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    r.insert(m.path.segments.last().unwrap().ident.to_string());
                    Ok(())
                });
            }
        }
        r
    }
    let mut out = vec![];
    for it in std::mem::take(&mut m.items) {
        let (d, name, gens) = match &it {
            Item::Struct(s) => (derives(&s.attrs), s.ident.clone(), s.generics.clone()),
            Item::Enum(s) => (derives(&s.attrs), s.ident.clone(), s.generics.clone()),
            _ => {
                out.push(it);
                continue;
            }
        };
        let (ig, tg, wc) = gens.split_for_impl();
        let mut add: Vec<Item> = vec![];
        match &it {
            Item::Struct(s) => {
                if let Fields::Named(f) = &s.fields {
                    let n: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                    if d.contains("Clone") {
                        add.push(parse_quote!(impl #ig Clone for #name #tg #wc { fn clone(&self) -> Self { Self { #(#n: self.#n.clone()),* } } }));
                    }
                    if d.contains("PartialEq") {
                        add.push(parse_quote!(impl #ig PartialEq for #name #tg #wc { fn eq(&self, other: &#name #tg) -> bool { #(self.#n.vx_eq(&other.#n))&&* } }));
                    }
                    if d.contains("Hash") {
                        add.push(parse_quote!(impl #ig Hash for #name #tg #wc { fn hash<H: Hasher>(&self, state: &mut H) { #(self.#n.hash(state);)* } }));
                    }
                }
            }
            Item::Enum(e) => {
                let simple = e.variants.iter().all(|v| match &v.fields {
                    Fields::Unit => true,
                    Fields::Unnamed(_) => true,
                    _ => false,
                });
                if simple {
                    let (mut eq, mut cl) = (vec![], vec![]);
                    for v in &e.variants {
                        let i = &v.ident;
                        if matches!(v.fields, Fields::Unit) {
                            eq.push(quote!((#name::#i, #name::#i) => true));
                            cl.push(quote!(#name::#i => #name::#i));
                        } else {
                            let n = v.fields.len();
                            let names = |p: &str| -> Vec<Ident> { (0..n).map(|k| if n == 1 { quote::format_ident!("{p}") } else { quote::format_ident!("{p}{k}") }).collect() };
                            let (a, b) = (names("a"), names("b"));
                            eq.push(quote!((#name::#i(#(#a),*), #name::#i(#(#b),*)) => #(#a.vx_eq(#b))&&*));
                            cl.push(quote!(#name::#i(#(#a),*) => #name::#i(#(#a.clone()),*)));
                        }
                    }
                    if d.contains("Clone") {
                        add.push(parse_quote!(impl #ig Clone for #name #tg #wc { fn clone(&self) -> Self { match self { #(#cl),* } } }));
                    }
                    if d.contains("PartialEq") {
                        add.push(parse_quote!(impl #ig PartialEq for #name #tg #wc { fn eq(&self, other: &#name #tg) -> bool { match (self, other) { #(#eq,)* _ => false } } }));
                    }
                }
            }
            _ => {}
        }
        out.push(it);
        out.extend(add);
    }
    m.items = out;
    for s in &mut m.subs {
        expand_derives(s);
    }
}
fn expand_item_macros(m: &mut Module, macros: &mut BTreeMap<String, Macr>) {
    for it in &m.items {
        if let Item::Macro(x) = it {
            if x.mac.path.is_ident("macro_rules") {
                if let Some((n, b)) = parse_macro_rules(x) {
                    macros.insert(n, b);
                }
            }
        }
    }
    let expand = |mac: &Macro, macros: &BTreeMap<String, Macr>| -> Option<TokenStream> {
        let b = macros.get(&mac.path.get_ident()?.to_string())?;
        let args: CommaTs = parse2(mac.tokens.clone()).ok()?;
        let map: BTreeMap<String, TokenStream> = b.params.iter().cloned().zip(args.0).collect();
        Some(subst_macro(b.body.clone(), &map))
    };
    for it in &mut m.items {
        if let Item::Trait(t) = it {
            let mut items = vec![];
            for ti in std::mem::take(&mut t.items) {
                if let TraitItem::Macro(x) = &ti {
                    if let Some(ts) = expand(&x.mac, macros) {
                        let tr: ItemTrait = parse2(quote!(trait X { #ts })).unwrap_or_else(|e| fail(&format!("macro expansion: {e}")));
                        items.extend(tr.items);
                        continue;
                    }
                }
                items.push(ti);
            }
            t.items = items;
        }
        if let Item::Impl(t) = it {
            let mut items = vec![];
            for ti in std::mem::take(&mut t.items) {
                if let ImplItem::Macro(x) = &ti {
                    if let Some(ts) = expand(&x.mac, macros) {
                        let tr: ItemImpl = parse2(quote!(impl X { #ts })).unwrap_or_else(|e| fail(&format!("macro expansion: {e}")));
                        items.extend(tr.items);
                        continue;
                    }
                }
                items.push(ti);
            }
            t.items = items;
        }
    }
    let items = std::mem::take(&mut m.items);
    for it in items {
        if let Item::Macro(x) = &it {
            if x.mac.path.is_ident("macro_rules") {
                continue;
            }
            if let Some(ts) = expand(&x.mac, macros) {
                let f: File = parse2(ts).unwrap_or_else(|e| fail(&format!("macro expansion: {e}")));
                m.items.extend(f.items);
                continue;
            }
        }
        m.items.push(it);
    }
    for s in &mut m.subs {
        expand_item_macros(s, macros);
    }
}

fn lines_of(t: &impl ToTokens) -> (usize, usize) {
    let (mut lo, mut hi) = (usize::MAX, 0);
    fn go(t: TokenStream, lo: &mut usize, hi: &mut usize) {
        for x in t {
            let sp = x.span();
            let (s, e) = (sp.start(), sp.end());
            if !(s.line <= 1 && s.column == 0) {
                *lo = (*lo).min(s.line);
                *hi = (*hi).max(e.line);
            }
            if let TokenTree::Group(g) = x {
                go(g.stream(), lo, hi);
            }
        }
    }
    go(t.to_token_stream(), &mut lo, &mut hi);
    (if lo == usize::MAX { 0 } else { lo }, hi)
}

fn collect(m: &Module, out: &mut Vec<Func>) {
    let mp = m.path.join("::");
    let pre = |s: &str| if mp.is_empty() { s.to_string() } else { format!("{mp}::{s}") };
    for it in &m.items {
        match it {
            Item::Fn(f) => out.push(Func { id: pre(&f.sig.ident.to_string()), module: m.path.clone(), file: m.file.clone(), sig: f.sig.clone(), block: Some((*f.block).clone()), kind: "free", line: lines_of(f) }),
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if cfg_test(&f.attrs) {
                            continue;
                        }
                        out.push(Func {
                            id: pre(&format!("{}::{}", t.ident, f.sig.ident)),
                            module: m.path.clone(),
                            file: m.file.clone(),
                            sig: f.sig.clone(),
                            block: f.default.clone(),
                            kind: if f.default.is_some() { "trait_default" } else { "trait_req" },
                            line: lines_of(f),
                        });
                    }
                }
            }
            Item::Impl(i) => {
                let n = impl_name(i);
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii {
                        if cfg_test(&f.attrs) {
                            continue;
                        }
                        out.push(Func {
                            id: pre(&format!("{n}::{}", f.sig.ident)),
                            module: m.path.clone(),
                            file: m.file.clone(),
                            sig: f.sig.clone(),
                            block: Some(f.block.clone()),
                            kind: if i.trait_.is_some() { "impl" } else { "inherent" },
                            line: lines_of(f),
                        });
                    }
                }
            }
            _ => {}
        }
    }
    for s in &m.subs {
        collect(s, out);
    }
}

struct Ctx {
    c: Contracts,
    funcs: BTreeMap<String, Func>,
    drops: BTreeMap<String, String>,
    trait_defaults: BTreeMap<String, BTreeSet<String>>,
    local_traits: BTreeSet<String>,
    baseline: BTreeMap<String, J>,
    unneeded: RefCell<BTreeSet<String>>,
    report: RefCell<BTreeMap<String, J>>,
    imports: BTreeMap<String, BTreeMap<String, String>>, // module -> name -> full path
    method_helpers: BTreeMap<String, Option<String>>,
    overrides: RefCell<BTreeSet<String>>,
    called_plain: RefCell<BTreeSet<String>>,
}

fn use_map(m: &Module, out: &mut BTreeMap<String, BTreeMap<String, String>>) {
    fn go(t: &UseTree, pre: String, mp: &[String], out: &mut BTreeMap<String, String>) {
        let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{a}::{b}") };
        match t {
            UseTree::Path(p) => go(&p.tree, j(&pre, &p.ident.to_string()), mp, out),
            UseTree::Name(n) => {
                out.insert(n.ident.to_string(), j(&pre, &n.ident.to_string()));
            }
            UseTree::Rename(n) => {
                out.insert(n.rename.to_string(), j(&pre, &n.ident.to_string()));
            }
            UseTree::Group(g) => {
                for x in &g.items {
                    go(x, pre.clone(), mp, out)
                }
            }
            UseTree::Glob(_) => {}
        }
    }
    let e = out.entry(m.path.join("::")).or_default();
    for it in &m.items {
        if let Item::Use(u) = it {
            go(&u.tree, String::new(), &m.path, e);
        }
    }
    for s in &m.subs {
        use_map(s, out);
    }
}

fn has_contract(c: &Contracts, id: &str) -> bool {
    c.fns.get(id).map(|k| !k.inline && !k.omit).unwrap_or(false)
}

impl Ctx {
    fn abs_path(&self, module: &[String], p: &str) -> String {
        let mut segs: Vec<String> = p.split("::").map(|s| s.split('<').next().unwrap().to_string()).collect();
        if segs[0] == "crate" {
            segs.remove(0);
            return segs.join("::");
        }
        let mut base: Vec<String> = module.to_vec();
        if segs[0] == "self" {
            segs.remove(0);
        }
        while !segs.is_empty() && segs[0] == "super" {
            base.pop();
            segs.remove(0);
        }
        if segs.len() == 1 || true {
            if let Some(full) = self.imports.get(&module.join("::")).and_then(|m| m.get(&segs[0])) {
                if full.starts_with("crate::") || full.starts_with("super::") || full.starts_with("self::") {
                    let mut f: Vec<String> = full.split("::").map(|s| s.to_string()).collect();
                    f.extend(segs.iter().skip(1).cloned());
                    if f[0] == "crate" {
                        f.remove(0);
                        return f.join("::");
                    }
                    return self.abs_path(module, &format!("self::{}", f.join("::").trim_start_matches("self::")));
                }
            }
        }
        base.extend(segs);
        base.join("::")
    }

    fn helper(&self, f: &Func) -> Option<Helper> {
        if has_contract(&self.c, &f.id) {
            return None;
        }
        f.block.as_ref().map(|b| Helper { id: f.id.clone(), sig: f.sig.clone(), block: b.clone() })
    }

    /// lowers a function; returns (signature, body) or the reason why it is out of reach
    fn lower_fn(&self, f: &Func, self_ty: Option<&Type>) -> std::result::Result<(Signature, Block, Vec<String>, Lowered), String> {
        let mut sig = f.sig.clone();
        let mut block = f.block.clone().unwrap();
        let empty = Contract::default();
        let k = self.c.fns.get(&f.id).unwrap_or(&empty);
        StripAll.visit_block_mut(&mut block);
        // textual replacements of single expressions
        let mut missing = vec![];
        for (a, b) in &k.replaces {
            let ea: Expr = parse_str(a).map_err(|e| format!("replace {a}: {e}"))?;
            let eb: Expr = parse_str(b).map_err(|e| format!("replace {b}: {e}"))?;
            let mut r = Repl { a: norm(&ea), b: eb, n: 0 };
            r.visit_block_mut(&mut block);
            if r.n == 0 {
                missing.push(format!("replace `{a}`"));
            }
        }
        let mut m = Macros { unsupported: None };
        m.visit_block_mut(&mut block);
        if let Some(u) = m.unsupported {
            return Err(format!("unsupported {u}"));
        }
        // inlining
        let self_name = self_ty.map(|t| strip_lifetimes(&norm(t)));
        let resolve = |p: &str| -> Option<Helper> {
            if let Some(rest) = p.strip_prefix("Self::") {
                let mut cand = vec![];
                if let Some(s) = &self_name {
                    cand.push(format!("{}::{s}::{rest}", f.module.join("::")));
                }
                for c in cand {
                    if let Some(g) = self.funcs.get(&c) {
                        if g.id == f.id {
                            return None;
                        }
                        return self.helper(g);
                    }
                }
                return None;
            }
            let a = self.abs_path(&f.module, p);
            let g = self.funcs.get(&a)?;
            if g.id == f.id {
                return None;
            }
            self.helper(g)
        };
        let resolve_method = |n: &str| -> Option<Helper> {
            let id = self.method_helpers.get(n)?.as_ref()?;
            if *id == f.id {
                return None;
            }
            self.helper(self.funcs.get(id)?)
        };
        let mut names = BTreeSet::new();
        inline::idents(block.to_token_stream(), &mut names);
        inline::idents(sig.inputs.to_token_stream(), &mut names);
        let mut inl = Inline { resolve: &resolve, resolve_method: &resolve_method, inlined: vec![], failed: vec![], depth: 0, fresh: 0, names, param_lets: Default::default() };
        inl.visit_block_mut(&mut block);
        let (inlined, failed, param_lets) = (inl.inlined, inl.failed, inl.param_lets);
        for x in &failed {
            self.called_plain.borrow_mut().insert(x.clone());
        }
        // macros inside inlined helpers
        StripAll.visit_block_mut(&mut block);
        let mut m = Macros { unsupported: None };
        m.visit_block_mut(&mut block);
        if let Some(u) = m.unsupported {
            return Err(format!("unsupported {u}"));
        }
        // binders
        let mut bs = vec![];
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                let mut b = Binders(vec![]);
                b.visit_pat(&t.pat);
                bs.extend(b.0);
            }
        }
        bs.extend(binders(&block));
        // parameters with patterns
        let mut pre = vec![];
        let mut lo = Lower::new();
        lo.native = k.native_loops.iter().cloned().collect();
        for (n, i) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = i {
                let ty = norm(&t.ty);
                match &mut *t.pat {
                    Pat::Ident(p) => {
                        let nm = p.ident.to_string();
                        if ty.starts_with("impl Iterator<") {
                            lo.iter_params.insert(nm);
                        } else if ty.starts_with("&mut[") {
                            lo.mut_slices.insert(nm);
                        }
                    }
                    p => {
                        let v = id(&format!("vx_p{n}"));
                        let q = p.clone();
                        pre.extend(stmts(quote!(let #q = #v;)));
                        *p = parse_quote!(#v);
                    }
                }
            }
        }
        if !pre.is_empty() {
            pre.extend(block.stmts);
            block.stmts = pre;
        }
        lo.visit_block_mut(&mut block);
        lower::DerefOps::run(&sig, &mut block);
        lower::BoolOps::run(&sig, &mut block);
        lower::LitRight.visit_block_mut(&mut block);
        lower::MutRanges.visit_block_mut(&mut block);
        if let Some(u) = lo.unsupported {
            return Err(format!("unsupported {u}"));
        }
        Ok((sig, block, bs, Lowered { loops: lo.counter, heads: lo.heads, inlined, failed, missing, param_lets }))
    }
}
struct Lowered {
    loops: usize,
    heads: Vec<(String, Vec<String>)>,
    inlined: Vec<String>,
    failed: Vec<String>,
    missing: Vec<String>,
    param_lets: BTreeSet<String>,
}

struct Repl {
    a: String,
    b: Expr,
    n: usize,
}
impl VisitMut for Repl {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if norm(e) == self.a {
            *e = self.b.clone();
            self.n += 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if norm(&m.mac) == self.a {
                *s = Stmt::Expr(self.b.clone(), m.semi_token);
                self.n += 1;
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

/// inserts ghost anchors for let bindings, the function start and its end
struct Anchors<'a> {
    keys: &'a BTreeSet<String>,
    seen: BTreeMap<String, usize>,
}
impl VisitMut for Anchors<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut names = vec![];
            if let Stmt::Local(l) = &s {
                let mut v = Binders(vec![]);
                v.visit_pat(&l.pat);
                names = v.0;
            }
            // statement level calls
            let call = match &s {
                Stmt::Expr(e, Some(_)) => call_name(e),
                Stmt::Local(l) => l.init.as_ref().and_then(|i| call_name(&i.expr)),
                Stmt::Expr(Expr::If(f), None) => call_name(&f.cond),
                Stmt::Expr(e, None) => call_name(e),
                _ => None,
            };
            let mut ckey = None;
            if let Some(n) = call {
                let c = self.seen.entry(format!("call {n}")).or_insert(0);
                let t = if *c == 0 { n.clone() } else { format!("{n} {c}") };
                *c += 1;
                let key = format!("before-call {t}");
                if self.keys.contains(&key) {
                    out.push(parse_quote!(vx_ghost!(#key);));
                }
                ckey = Some(format!("after-call {t}"));
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
            if let Some(key) = ckey {
                if self.keys.contains(&key) {
                    out.push(parse_quote!(vx_ghost!(#key);));
                }
            }
            for n in names {
                let c = self.seen.entry(n.clone()).or_insert(0);
                let key = if *c == 0 { format!("after-let {n}") } else { format!("after-let {n} {c}") };
                *c += 1;
                if self.keys.contains(&key) {
                    out.push(parse_quote!(vx_ghost!(#key);));
                }
            }
        }
        b.stmts = out;
    }
}

fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Paren(p) => call_name(&p.expr),
        Expr::Try(p) => call_name(&p.expr),
        Expr::Assign(p) => call_name(&p.right),
        Expr::Unary(p) => call_name(&p.expr),
        _ => None,
    }
}
fn ret_type(sig: &Signature, name: &str) -> String {
    match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            if matches!(**t, Type::Never(_)) {
                "-> !".into()
            } else {
                format!("-> ({name}: {})", t.to_token_stream())
            }
        }
    }
}

struct CountReturns(usize);
impl<'a> Visit<'a> for CountReturns {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.0 += 1;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct WrapReturns;
impl VisitMut for WrapReturns {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            *e = match &r.expr {
                Some(x) => parse_quote!({ let vx_ret = #x; vx_ghost!("end"); return vx_ret; }),
                None => parse_quote!({ vx_ghost!("end"); return; }),
            };
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// the first of the names that a text mentions
fn mentions(s: &str, names: &BTreeSet<String>) -> Option<String> {
    // names the text binds itself
    let mut own = BTreeSet::new();
    let words = |t: &str, own: &mut BTreeSet<String>| {
        for w in t.split(|c: char| !c.is_alphanumeric() && c != '_') {
            own.insert(w.to_string());
        }
    };
    for (i, _) in s.match_indices("let ") {
        if let Some(e) = s[i..].find('=') {
            words(&s[i + 4..i + e], &mut own);
        }
    }
    for q in ["forall|", "exists|", "choose|"] {
        for (i, _) in s.match_indices(q) {
            let a = i + q.len();
            if let Some(e) = s[a..].find('|') {
                words(&s[a..a + e], &mut own);
            }
        }
    }
    let mut prev = ' ';
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            if !cur.is_empty() && prev != '.' && names.contains(&cur) && !own.contains(&cur) {
                return Some(cur);
            }
            cur.clear();
            prev = c;
        }
    }
    None
}

fn word_replace(s: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return s.to_string();
    }
    let mut out = String::new();
    let mut cur = String::new();
    let mut fl = |cur: &mut String, out: &mut String| {
        match m.get(cur.as_str()) {
            Some(r) if !out.ends_with('.') => out.push_str(r),
            _ => out.push_str(cur),
        }
        cur.clear();
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c)
        } else {
            fl(&mut cur, &mut out);
            out.push(c);
        }
    }
    fl(&mut cur, &mut out);
    out
}

/// which loop of the baseline is which loop now
struct LoopShift {
    map: BTreeMap<usize, usize>,
    names: BTreeMap<String, String>,
    gone: BTreeSet<String>,
}
impl LoopShift {
    fn new(old: &[(String, Vec<String>)], new: &[(String, Vec<String>)]) -> Self {
        let (n, k) = (old.len(), new.len());
        let mut t = vec![vec![0usize; k + 1]; n + 1];
        for i in (0..n).rev() {
            for j in (0..k).rev() {
                t[i][j] = if old[i].0 == new[j].0 { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
            }
        }
        let mut map = BTreeMap::new();
        let (mut i, mut j, mut gi, mut gj) = (0, 0, 0, 0);
        loop {
            let hit = i < n && j < k && old[i].0 == new[j].0;
            if hit || i == n && j == k {
                // gaps of the same size are taken to be the same loops
                if i - gi == j - gj {
                    (gi..i).zip(gj..j).for_each(|(a, b)| {
                        map.insert(a, b);
                    });
                }
                if !hit {
                    break;
                }
                map.insert(i, j);
                i += 1;
                j += 1;
                gi = i;
                gj = j;
            } else if j == k || i < n && t[i + 1][j] >= t[i][j + 1] {
                i += 1
            } else {
                j += 1
            }
        }
        let kind = |s: &str| s.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
        let (mut names, mut gone) = (BTreeMap::new(), BTreeSet::new());
        for (o, (_, f)) in old.iter().enumerate() {
            let own = ["i", "n", "k", "r", "e", "key", "top"].map(|x| format!("vx_{x}"));
            match map.get(&o) {
                Some(m) => {
                    for x in &own {
                        names.insert(format!("{x}{o}"), format!("{x}{m}"));
                    }
                    let g = &new[*m].1;
                    if f.len() == g.len() && f.iter().zip(g).all(|(a, b)| kind(a) == kind(b)) {
                        names.extend(f.iter().cloned().zip(g.iter().cloned()));
                    }
                }
                None => {
                    gone.extend(own.iter().map(|x| format!("{x}{o}")));
                    gone.extend(f.iter().cloned());
                }
            }
        }
        LoopShift { map, names, gone }
    }
}

/// old -> new for renamed binders
fn heal(old: &[String], new: &[String]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    // longest common subsequence, equal sized gaps are renames
    let (n, k) = (old.len(), new.len());
    let mut t = vec![vec![0usize; k + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..k).rev() {
            t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let (mut ga, mut gb): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut flush = |ga: &mut Vec<String>, gb: &mut Vec<String>| {
        if ga.len() == gb.len() {
            for (a, b) in ga.iter().zip(gb.iter()) {
                m.entry(a.clone()).or_insert(b.clone());
            }
        }
        ga.clear();
        gb.clear();
    };
    while i < n || j < k {
        if i < n && j < k && old[i] == new[j] {
            flush(&mut ga, &mut gb);
            i += 1;
            j += 1;
        } else if j >= k || (i < n && t[i + 1][j] >= t[i][j + 1]) {
            ga.push(old[i].clone());
            i += 1;
        } else {
            gb.push(new[j].clone());
            j += 1;
        }
    }
    flush(&mut ga, &mut gb);
    // a name that still exists was not renamed
    m.retain(|a, b| a != b && !new.contains(a));
    m
}

struct FnStyle<'a> {
    name: String,
    vis: &'a str,
    extra_generics: String,
    extra_where: String,
    allow_requires: bool,
    receiver: Option<String>, // replacement for `self` parameters
    self_ty: Option<Type>,
    assoc: BTreeMap<String, Type>,
    part: u8, // 0 whole function, 1 declaration with contract, 2 body without contract
}

impl Ctx {
    fn emit_fn(&self, f: &Func, style: FnStyle, out: &mut Out) {
        let empty = Contract::default();
        let k = self.c.fns.get(&f.id).cloned();
        let contracted = k.is_some();
        let k = k.unwrap_or(empty);
        let ret_name = if k.ret.is_empty() { "r".to_string() } else { k.ret.clone() };
        let mut dropped: Option<String> = self.drops.get(&f.id).cloned();
        let mut lost: Vec<String> = vec![];
        let mut trusted = k.trusted;
        let mut renames = BTreeMap::new();
        let mut gone: BTreeSet<String> = BTreeSet::new();
        let mut old_returns = None;
        let mut param_lets = BTreeSet::new();
        let mut heads = vec![];
        let mut shift = None;
        let lowered = if f.block.is_some() && !trusted { Some(self.lower_fn(f, style.self_ty.as_ref())) } else { None };
        let (mut sig, mut body, mut bs, mut nloops, mut inlined, mut failed) = (f.sig.clone(), None, vec![], 0, vec![], vec![]);
        match lowered {
            Some(Ok((s, b, bi, l))) => {
                sig = s;
                body = Some(b);
                bs = bi;
                nloops = l.loops;
                heads = l.heads;
                inlined = l.inlined;
                failed = l.failed;
                lost.extend(l.missing);
                param_lets = l.param_lets;
            }
            Some(Err(e)) => {
                if dropped.is_none() {
                    dropped = Some(e);
                }
            }
            None => {}
        }
        // healing of renamed locals
        if let Some(b) = self.baseline.get(&f.id) {
            let old: Vec<String> = b["binders"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            if old != bs && body.is_some() {
                renames = heal(&old, &bs);
                let fewer: Vec<String> = bs.iter().filter(|b| old.contains(b) || !param_lets.contains(*b)).cloned().collect();
                if fewer.len() < bs.len() && old.iter().any(|o| !bs.contains(o) && !renames.contains_key(o)) {
                    renames = heal(&old, &fewer);
                }
            }
            let ol = b["loops"].as_u64().unwrap_or(0) as usize;
            if let (Some(h), true) = (b["heads"].as_array(), body.is_some()) {
                let h: Vec<(String, Vec<String>)> = h.iter().map(|x| (word_replace(x[0].as_str().unwrap(), &renames), x[1].as_array().unwrap().iter().map(|y| y.as_str().unwrap().to_string()).collect())).collect();
                if h != heads {
                    shift = Some(LoopShift::new(&h, &heads));
                }
            }
            if body.is_some() && ol != nloops && !k.loops.is_empty() {
                lost.push(format!("the function has {nloops} loops, the contract was written for {ol}"));
            }
            // names that are gone: what mentions them cannot be stated any more
            if body.is_some() {
                gone = old.iter().filter(|o| !bs.contains(o) && !renames.contains_key(*o)).cloned().collect();
            }
            old_returns = b["returns"].as_u64().map(|x| x as usize);
        }
        let rn = |s: &str| word_replace(s, &renames);
        // loops that changed their number
        let (mut loops0, mut ghosts0) = (k.loops.clone(), k.ghosts.clone());
        if let Some(sh) = &shift {
            loops0 = BTreeMap::new();
            for (n, t) in &k.loops {
                match sh.map.get(n) {
                    Some(m) => {
                        if let Some(x) = mentions(t, &sh.gone) {
                            lost.push(format!("loop {n} mentions `{x}`, which is gone"));
                        }
                        let t = t.lines().filter(|l| mentions(l, &sh.gone).is_none()).collect::<Vec<_>>().join("\n");
                        loops0.insert(*m, word_replace(&t, &sh.names));
                    }
                    None => lost.push(format!("loop {n} is gone")),
                }
            }
            ghosts0 = vec![];
            for (a, t) in &k.ghosts {
                let w: Vec<&str> = a.split(' ').collect();
                let a2 = if w[0] == "loop" {
                    match w[1].parse().ok().and_then(|n: usize| sh.map.get(&n)) {
                        Some(m) => format!("loop {m} {}", w[2..].join(" ")),
                        None => {
                            lost.push(format!("ghost `{a}`: the loop is gone"));
                            continue;
                        }
                    }
                } else {
                    a.clone()
                };
                if let Some(x) = mentions(t, &sh.gone) {
                    lost.push(format!("ghost `{a}` mentions `{x}`, which is gone"));
                    continue;
                }
                ghosts0.push((a2, word_replace(t, &sh.names)));
            }
        }
        let mut loops: BTreeMap<usize, String> = loops0.iter().map(|(a, b)| (*a, rn(b))).collect();
        let mut ghosts: Vec<(String, String)> = ghosts0.iter().map(|(a, b)| (rn(a), rn(b))).collect();
        if !gone.is_empty() {
            ghosts.retain(|g| {
                let m = mentions(&g.1, &gone);
                if let Some(x) = &m {
                    lost.push(format!("ghost `{}` mentions `{x}`, which is gone", g.0));
                }
                m.is_none()
            });
            for (n, t) in loops.iter_mut() {
                if let Some(x) = mentions(t, &gone) {
                    lost.push(format!("loop {n} mentions `{x}`, which is gone"));
                    *t = t.lines().filter(|l| mentions(l, &gone).is_none()).collect::<Vec<_>>().join("\n");
                }
            }
        }
        let start = ghosts.iter().find(|g| g.0 == "start").cloned();
        let end = ghosts.iter().find(|g| g.0 == "end").cloned();
        let keys: BTreeSet<String> = ghosts.iter().map(|g| g.0.clone()).collect();
        let mut src_norm = String::new();
        let mut returns = 0;
        if let Some(b) = &f.block {
            src_norm = norm(b);
        }
        if let Some(b) = &mut body {
            Anchors { keys: &keys, seen: BTreeMap::new() }.visit_block_mut(b);
            if start.is_some() {
                b.stmts.insert(0, parse_quote!(vx_ghost!("start");));
            }
            let mut cr = CountReturns(0);
            cr.visit_block(b);
            returns = cr.0;
            if end.is_some() {
                if old_returns.map(|o| o < returns).unwrap_or(false) {
                    // paths that the proof at the end was not written for
                    WrapReturns.visit_block_mut(b);
                }
                let tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) && !matches!(sig.output, ReturnType::Default);
                if tail {
                    let t = b.stmts.pop().unwrap();
                    if let ReturnType::Type(_, ty) = &sig.output {
                        let _ = ty;
                        b.stmts.extend(stmts(quote!(let vx_ret = #t; vx_ghost!("end"); vx_ret)));
                    }
                } else {
                    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    b.stmts.push(parse_quote!(vx_ghost!("end");));
                }
            }
        }
        ghosts.retain(|_| true);
        // renames of paths etc
        let mut rnm = Renames { c: &self.c, trait_defaults: &self.trait_defaults };
        let mut ss = SelfSubst { self_to: style.receiver.as_ref().map(|_| "self_".to_string()), self_ty: if style.receiver.is_some() { style.self_ty.clone() } else { None }, assoc: style.assoc.clone() };
        ss.visit_signature_mut(&mut sig);
        if style.vis.is_empty() {
            // Verus numbers `impl Trait` arguments differently in a trait and in its implementations
            let mut n = 0;
            for a in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = a {
                    if let Type::ImplTrait(it) = &*t.ty {
                        let g = id(&format!("VxA{n}"));
                        let b = &it.bounds;
                        sig.generics.params.push(parse_quote!(#g: #b));
                        *t.ty = parse_quote!(#g);
                        n += 1;
                    }
                }
            }
        }
        rnm.visit_signature_mut(&mut sig);
        if let Some(b) = &mut body {
            ss.visit_block_mut(b);
            rnm.visit_block_mut(b);
        }
        let mut attrs = k.attrs.clone();
        if nloops > 0 {
            attrs.push_str("#[verifier::loop_isolation(false)]\n");
        }
        let outline = body.is_none() || dropped.is_some() || trusted;
        let outline = outline && f.block.is_some();
        if !contracted {
            trusted = false;
        }
        out.nl();
        let first = out.line;
        if outline && self.unneeded.borrow().contains(&f.id) {
            // nothing calls it: its contract would not be used
            self.report.borrow_mut().insert(
                f.id.clone(),
                json!({
                    "id": f.id, "file": f.file, "line": f.line.0, "line_end": f.line.1, "emit": [0, 0], "body_line": 0,
                    "status": if trusted { "trusted" } else { "out_of_reach" }, "reason": dropped, "outlined": true, "lost": lost, "props": k.props, "kind": f.kind, "loops": nloops,
                    "binders": bs, "inlined": inlined, "inline_failed": failed, "norm": src_norm, "renames": renames,
                    "where": k.where_, "new": false, "changed": true, "emit_name": "",
                }),
            );
            return;
        }
        if style.part != 1 {
            out.p(&attrs);
        }
        out.nl();
        if outline && style.part != 1 {
            out.p("#[verifier::external_body]\n");
        }
        // signature
        let mut params = vec![];
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(r) => match &style.receiver {
                    None => params.push(r.to_token_stream().to_string()),
                    Some(t) => params.push(match (&r.reference, &r.mutability) {
                        (Some(_), Some(_)) => format!("self_: &mut {t}"),
                        (Some(_), None) => format!("self_: &{t}"),
                        _ => format!("self_: {t}"),
                    }),
                },
                FnArg::Typed(t) => {
                    let mut t = t.clone();
                    if style.part == 1 {
                        if let Pat::Ident(p) = &mut *t.pat {
                            p.mutability = None;
                        }
                    }
                    params.push(t.to_token_stream().to_string())
                }
            }
        }
        let mut gen: Vec<String> = sig.generics.params.iter().map(|g| g.to_token_stream().to_string()).collect();
        if !style.extra_generics.is_empty() {
            gen.insert(0, style.extra_generics.clone());
            // lifetimes first
            gen = gen.join(" , ").split(" , ").map(|s| s.to_string()).collect();
            gen.sort_by_key(|g| !g.trim_start().starts_with('\''));
        }
        let gen = if gen.is_empty() { String::new() } else { format!("<{}>", gen.join(", ")) };
        let mut wh = sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
        if !style.extra_where.is_empty() {
            wh = if wh.is_empty() { style.extra_where.clone() } else { format!("{wh}, {}", style.extra_where.trim_start_matches("where")) };
        }
        let name = if style.name.is_empty() { sig.ident.to_string() } else { style.name.clone() };
        out.p(&format!("{}fn {name}{gen}({}) {} {}\n", style.vis, params.join(", "), ret_type(&sig, &ret_name), wh));
        let sec = |out: &mut Out, kw: &str, t: &str| {
            if !t.trim().is_empty() {
                out.nl();
                out.p(&format!("    {kw}\n{}", rn(t)));
                out.nl();
            }
        };
        if style.part != 2 {
            if style.allow_requires {
                sec(out, "requires", &k.requires);
            }
            sec(out, "ensures", &k.ensures);
        }
        if style.part == 1 {
            out.p(";\n");
            return;
        }
        sec(out, "decreases", &k.decreases);
        let body_line = out.line;
        // `all`/`any` written as a loop that leaves early: as long as it runs, all held so far
        if let Some(b) = &body {
            let mut names = BTreeSet::new();
            inline::idents(b.to_token_stream(), &mut names);
            let m: BTreeMap<String, String> = (0..nloops).map(|k| format!("vx_r{k}")).filter(|n| !names.contains(n)).map(|n| (n, "true".to_string())).collect();
            loops.values_mut().for_each(|t| *t = word_replace(t, &m));
            ghosts.iter_mut().for_each(|g| g.1 = word_replace(&g.1, &m));
        }
        let cx = FnCtx { loops: &loops, ghosts: &ghosts, used_loops: Default::default(), used_ghosts: Default::default(), file: f.file.clone() };
        if f.block.is_none() {
            out.p(";\n");
        } else if outline {
            out.p("{ unimplemented!() }\n");
        } else {
            let mut last = 0;
            print_ts(body.as_ref().unwrap().to_token_stream(), out, &cx, &mut last);
            out.nl();
            for l in loops.keys() {
                if !cx.used_loops.borrow().contains(l) {
                    lost.push(format!("loop {l} does not exist"));
                }
            }
            for g in &ghosts {
                if !cx.used_ghosts.borrow().contains(&g.0) && !g.1.trim().is_empty() {
                    lost.push(format!("ghost anchor `{}` does not exist", g.0));
                }
            }
        }
        let status = if f.block.is_none() {
            "trait_sig"
        } else if trusted {
            "trusted"
        } else if dropped.is_some() || !lost.is_empty() {
            "out_of_reach"
        } else if contracted {
            "contract"
        } else {
            "plain"
        };
        let is_new = !self.baseline.is_empty() && !self.baseline.contains_key(&f.id);
        let changed = self.baseline.get(&f.id).map(|b| b["norm"].as_str().unwrap_or("") != src_norm).unwrap_or(false);
        self.report.borrow_mut().insert(
            f.id.clone(),
            json!({
                "id": f.id, "file": f.file, "line": f.line.0, "line_end": f.line.1, "emit": [first, out.line], "body_line": body_line,
                "status": status, "reason": dropped, "outlined": outline, "lost": lost, "props": k.props, "kind": f.kind, "loops": nloops, "heads": heads, "returns": returns,
                "binders": bs, "inlined": inlined, "inline_failed": failed, "norm": src_norm, "renames": renames,
                "where": k.where_, "new": is_new, "changed": changed, "emit_name": name,
            }),
        );
    }

    fn rename_item(&self, it: &mut Item) {
        let mut r = Renames { c: &self.c, trait_defaults: &self.trait_defaults };
        r.visit_item_mut(it);
    }

    fn emit_module(&self, m: &Module, out: &mut Out) {
        let mp = m.path.join("::");
        let pre = |s: &str| if mp.is_empty() { s.to_string() } else { format!("{mp}::{s}") };
        if !m.path.is_empty() {
            out.p(&format!("pub mod {} {{\n", m.path.last().unwrap()));
        }
        if !m.path.is_empty() {
            out.p("use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\n");
        } else {
            out.p("#[allow(unused_imports)] use crate::vx::*;\n");
        }
        if let Some(t) = self.c.modtext.get(&mp) {
            out.p(t);
            out.nl();
        }
        let cx = FnCtx { loops: &BTreeMap::new(), ghosts: &[], used_loops: Default::default(), used_ghosts: Default::default(), file: m.file.clone() };
        for it in &m.items {
            let mut it = it.clone();
            StripAll.visit_item_mut(&mut it);
            match &mut it {
                Item::Use(u) => {
                    let s = norm(&u.tree);
                    let first = s.split("::").next().unwrap().to_string();
                    let keep = ["crate", "super", "self"].contains(&first.as_str())
                        || m.subs.iter().any(|x| *x.path.last().unwrap() == first)
                        || s.starts_with("std::cmp::Ordering")
                        || s.starts_with("std::collections::HashMap");
                    if keep && !self.c.skip.contains(&pre(&format!("use {s}"))) {
                        out.p(&format!("pub use {};\n", u.tree.to_token_stream()));
                    }
                }
                Item::Const(k) => {
                    let id = pre(&k.ident.to_string());
                    if self.c.skip.contains(&id) {
                        continue;
                    }
                    let ens = self.c.consts.get(&id).cloned().unwrap_or_default();
                    let mut it2 = Item::Const(k.clone());
                    self.rename_item(&mut it2);
                    if let Item::Const(k) = it2 {
                        if ens.trim().is_empty() {
                            out.p(&format!("pub const {}: {} = {};\n", k.ident, k.ty.to_token_stream(), k.expr.to_token_stream()));
                        } else if ens.trim_start().starts_with("spec") {
                            // usable in specifications
                            out.p(&format!("pub const {}: {} = {};\n", k.ident, k.ty.to_token_stream(), k.expr.to_token_stream()));
                        } else {
                            let (ens, pr) = ens.split_once("---").unwrap_or((&ens, ""));
                            out.p(&format!("pub exec const {}: {} ensures\n{}{{ {} {} }}\n", k.ident, k.ty.to_token_stream(), ens, pr, k.expr.to_token_stream()));
                        }
                    }
                }
                Item::Type(t) => {
                    let mut it2 = Item::Type(t.clone());
                    self.rename_item(&mut it2);
                    if let Item::Type(t) = it2 {
                        out.p(&format!("pub type {}{} = {};\n", t.ident, t.generics.to_token_stream(), t.ty.to_token_stream()));
                    }
                }
                Item::Struct(s) => {
                    let id = pre(&s.ident.to_string());
                    if self.c.skip.contains(&id) {
                        continue;
                    }
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.vis = parse_quote!(pub);
                        f.attrs.clear();
                    }
                    if let Some(d) = self.c.derive.get(&id) {
                        out.p(&format!("#[derive({d})]\n"));
                    }
                    let mut it2 = Item::Struct(s.clone());
                    self.rename_item(&mut it2);
                    let mut last = 0;
                    print_ts(it2.to_token_stream(), out, &cx, &mut last);
                    out.nl();
                }
                Item::Enum(s) => {
                    let id = pre(&s.ident.to_string());
                    if self.c.skip.contains(&id) {
                        continue;
                    }
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                    }
                    if let Some(d) = self.c.derive.get(&id) {
                        out.p(&format!("#[derive({d})]\n"));
                    }
                    let mut it2 = Item::Enum(s.clone());
                    self.rename_item(&mut it2);
                    let mut last = 0;
                    print_ts(it2.to_token_stream(), out, &cx, &mut last);
                    out.nl();
                }
                Item::Fn(f) => {
                    let id = pre(&f.sig.ident.to_string());
                    let func = &self.funcs[&id];
                    if has_contract(&self.c, &id) || self.called_plain.borrow().contains(&id) {
                        self.emit_fn(func, FnStyle { name: String::new(), vis: "pub ", extra_generics: String::new(), extra_where: String::new(), allow_requires: true, receiver: None, self_ty: None, assoc: Default::default(), part: 0 }, out);
                    }
                }
                Item::Trait(t) => {
                    let tid = pre(&t.ident.to_string());
                    if self.c.skip.contains(&tid) {
                        continue;
                    }
                    let gens = t.generics.to_token_stream().to_string();
                    let sup = t.supertraits.to_token_stream().to_string();
                    out.p(&format!("pub trait {}{} {}{} {{\n", t.ident, gens, if sup.is_empty() { "" } else { ": " }, sup));
                    if let Some(x) = self.c.traits.get(&tid) {
                        out.p(x);
                        out.nl();
                    }
                    let fns: Vec<&Func> = t.items.iter().filter_map(|i| if let TraitItem::Fn(f) = i { self.funcs.get(&pre(&format!("{}::{}", t.ident, f.sig.ident))) } else { None }).collect();
                    let st = |r: bool| FnStyle { name: String::new(), vis: "", extra_generics: String::new(), extra_where: String::new(), allow_requires: r, receiver: None, self_ty: None, assoc: Default::default(), part: 0 };
                    let split = |f: &Func| self.c.split.contains(&f.id);
                    for f in fns.iter().filter(|f| f.kind == "trait_req" && !split(f)) {
                        self.emit_fn(f, st(true), out);
                    }
                    out.p("}\n");
                    if fns.iter().any(|f| split(f)) {
                        out.p(&format!("pub trait {}Sub: {} {{\n", t.ident, t.ident));
                        for f in fns.iter().filter(|f| f.kind == "trait_req" && split(f)) {
                            self.emit_fn(f, st(true), out);
                        }
                        out.p("}\n");
                    }
                    let defs: Vec<_> = fns.iter().filter(|f| f.kind == "trait_default").collect();
                    if !defs.is_empty() {
                        out.p(&format!("pub trait {}Ext: {} {{\n", t.ident, t.ident));
                        for part in [1, 2] {
                            if part == 2 {
                                out.p(&format!("impl<VxT: {} + ?Sized> {}Ext for VxT {{\n", t.ident, t.ident));
                            }
                            for f in &defs {
                                if has_contract(&self.c, &f.id) || self.called_plain.borrow().contains(&f.id) {
                                    self.emit_fn(f, FnStyle { part, ..st(true) }, out);
                                }
                            }
                            out.p("}\n");
                        }
                    }
                }
                Item::Impl(i) => self.emit_impl(m, i, out),
                Item::Macro(_) => {}
                _ => {}
            }
        }
        for s in &m.subs {
            self.emit_module(s, out);
        }
        if !m.path.is_empty() {
            out.p("}\n");
        }
    }

    /// a method as a free function
    fn emit_apart(&self, f: &Func, i: &ItemImpl, n: &str, ig: &str, wc: &str, assoc: &BTreeMap<String, Type>, out: &mut Out) {
        let mut rn = Renames { c: &self.c, trait_defaults: &self.trait_defaults };
        let g = ig.trim().trim_start_matches('<').trim_end_matches('>').trim().to_string();
        let base: String = format!("{n}_{}", f.sig.ident).chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        let mut rty = (*i.self_ty).clone();
        rn.visit_type_mut(&mut rty);
        self.emit_fn(
            f,
            FnStyle { name: format!("vx_{base}"), vis: "pub ", extra_generics: g, extra_where: wc.to_string(), allow_requires: true, receiver: Some(rty.to_token_stream().to_string()), self_ty: Some((*i.self_ty).clone()), assoc: assoc.clone(), part: 0 },
            out,
        );
    }

    fn emit_impl(&self, m: &Module, i: &ItemImpl, out: &mut Out) {
        let mp = m.path.join("::");
        let pre = |s: &str| if mp.is_empty() { s.to_string() } else { format!("{mp}::{s}") };
        let n = impl_name(i);
        let iid = pre(&n);
        if self.c.skip.contains(&iid) {
            return;
        }
        let fns: Vec<&Func> = i.items.iter().filter_map(|x| if let ImplItem::Fn(f) = x { self.funcs.get(&pre(&format!("{n}::{}", f.sig.ident))) } else { None }).collect();
        let mut gen = i.generics.clone();
        let mut rn = Renames { c: &self.c, trait_defaults: &self.trait_defaults };
        rn.visit_generics_mut(&mut gen);
        let (ig, _, wc) = gen.split_for_impl();
        let (ig, wc) = (ig.to_token_stream().to_string(), wc.to_token_stream().to_string());
        let mut sty = (*i.self_ty).clone();
        rn.visit_type_mut(&mut sty);
        let st = |name: &str, r: bool| FnStyle { name: name.into(), vis: if r { "pub " } else { "" }, extra_generics: String::new(), extra_where: String::new(), allow_requires: r, receiver: None, self_ty: Some((*i.self_ty).clone()), assoc: Default::default(), part: 0 };
        match &i.trait_ {
            None => {
                out.p(&format!("impl{ig} {} {wc} {{\n", sty.to_token_stream()));
                if let Some(x) = self.c.impls.get(&iid) {
                    out.p(x);
                    out.nl();
                }
                for f in fns {
                    if has_contract(&self.c, &f.id) || self.called_plain.borrow().contains(&f.id) {
                        self.emit_fn(f, st("", true), out);
                    }
                }
                out.p("}\n");
            }
            Some((_, p, _)) => {
                let tname = p.segments.last().unwrap().ident.to_string();
                let mut tp = p.clone();
                rn.visit_path_mut(&mut tp);
                let local = self.local_traits.contains(&tname);
                let emit_as_fn = fns.iter().any(|f| self.c.fns.get(&f.id).map(|k| !k.requires.trim().is_empty() && tname != "From").unwrap_or(false)) || (!local && tname != "From");
                if !emit_as_fn {
                    // overriding a default method breaks the Ext scheme
                    let is_from = tname == "From";
                    if is_from && !self.c.impls.contains_key(&iid) {
                        return; // no contract for this conversion
                    }
                    if is_from {
                        let l = tp.segments.last_mut().unwrap();
                        l.ident = id("VxFrom");
                    }
                    out.p(&format!("impl{ig} {} for {} {wc} {{\n", tp.to_token_stream(), sty.to_token_stream()));
                    if let Some(x) = self.c.impls.get(&iid) {
                        out.p(x);
                        out.nl();
                    }
                    let split = |f: &Func| !is_from && self.c.split.iter().any(|s| s.ends_with(&format!("::{tname}::{}", f.sig.ident)));
                    let mut subs = vec![];
                    let mut overs = vec![];
                    for f in fns {
                        if split(f) {
                            subs.push(f);
                            continue;
                        }
                        let over = self.trait_defaults.get(&tname).map(|s| s.contains(&f.sig.ident.to_string())).unwrap_or(false);
                        if over {
                            // verified apart, against the contract of the default method
                            self.overrides.borrow_mut().insert(f.id.clone());
                            overs.push(f);
                            continue;
                        }
                        self.emit_fn(f, st(if is_from { "vx_from" } else { "" }, false), out);
                    }
                    out.p("}\n");
                    if !subs.is_empty() {
                        let l = tp.segments.last_mut().unwrap();
                        l.ident = id(&format!("{tname}Sub"));
                        out.p(&format!("impl{ig} {} for {} {wc} {{\n", tp.to_token_stream(), sty.to_token_stream()));
                        for f in subs {
                            self.emit_fn(f, st("", false), out);
                        }
                        out.p("}\n");
                    }
                    for f in overs {
                        self.emit_apart(f, i, &n, &ig, &wc, &Default::default(), out);
                    }
                } else {
                    // impl of an external trait: free functions
                    let mut assoc = BTreeMap::new();
                    for x in &i.items {
                        if let ImplItem::Type(t) = x {
                            assoc.insert(t.ident.to_string(), t.ty.clone());
                        }
                    }
                    for f in fns {
                        if !has_contract(&self.c, &f.id) {
                            continue;
                        }
                        self.emit_apart(f, i, &n, &ig, &wc, &assoc, out);
                    }
                }
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, cdir, odir) = (&args[1], &args[2], &args[3]);
    let mut drops = BTreeMap::new();
    let mut baseline: BTreeMap<String, J> = BTreeMap::new();
    let mut write = None;
    let mut only: Option<Vec<String>> = None;
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--drop" => {
                let (a, b) = args[i + 1].split_once('=').unwrap_or((&args[i + 1], "dropped"));
                drops.insert(a.to_string(), b.to_string());
                i += 1;
            }
            "--baseline" => {
                if let Ok(t) = std::fs::read_to_string(&args[i + 1]) {
                    let j: J = serde_json::from_str(&t).unwrap();
                    for (k, v) in j.as_object().unwrap() {
                        baseline.insert(k.clone(), v.clone());
                    }
                }
                i += 1;
            }
            "--modules" => {
                only = Some(args[i + 1].split(',').map(|s| s.to_string()).collect());
                i += 1;
            }
            "--write-baseline" => {
                write = Some(args[i + 1].clone());
                i += 1;
            }
            x => fail(&format!("unknown argument {x}")),
        }
        i += 1;
    }
    let c = contract::parse(cdir);
    let root = std::path::Path::new(src);
    let mut m = load(vec![], &root.join("lib.rs"), root);
    expand_item_macros(&mut m, &mut BTreeMap::new());
    expand_derives(&mut m);
    let mut items = BTreeSet::new();
    item_norms(&m, &mut items);
    if let Some(o) = &only {
        // development aid: look at some modules only
        fn cut(m: &mut Module, o: &[String]) {
            m.items.retain(|i| !matches!(i, Item::Use(_)) || m.path.is_empty() || o.contains(&m.path.join("::")));
            if !m.path.is_empty() && !o.contains(&m.path.join("::")) {
                m.items.clear();
            }
            for s in m.subs.iter_mut() {
                cut(s, o);
            }
        }
        m.items.retain(|i| !matches!(i, Item::Use(_) | Item::Enum(_) | Item::Impl(_)));
        cut(&mut m, o);
    }
    let mut funcs = vec![];
    collect(&m, &mut funcs);
    let mut fm = BTreeMap::new();
    let mut td: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut mh: BTreeMap<String, Option<String>> = BTreeMap::new();
    for f in &funcs {
        fm.insert(f.id.clone(), f.clone());
        let segs: Vec<&str> = f.id.split("::").collect();
        if f.kind == "trait_default" {
            td.entry(segs[segs.len() - 2].to_string()).or_default().insert(segs[segs.len() - 1].to_string());
        }
        if f.kind != "free" {
            let name = f.sig.ident.to_string();
            let ok = (f.kind == "inherent" || f.kind == "trait_default") && !has_contract(&c, &f.id) && f.sig.receiver().is_some();
            match mh.get(&name) {
                None => {
                    mh.insert(name, if ok { Some(f.id.clone()) } else { None });
                }
                Some(_) => {
                    mh.insert(name, None);
                }
            }
        }
    }
    let mut lt = BTreeSet::new();
    fn traits(m: &Module, lt: &mut BTreeSet<String>) {
        for i in &m.items {
            if let Item::Trait(t) = i {
                lt.insert(t.ident.to_string());
            }
        }
        for s in &m.subs {
            traits(s, lt);
        }
    }
    traits(&m, &mut lt);
    // a method that replaces a default one has the contract of the default one
    let mut c = c;
    for f in &funcs {
        let segs: Vec<&str> = f.id.split("::").collect();
        let name = segs[segs.len() - 1].to_string();
        if f.kind == "impl" && !has_contract(&c, &f.id) {
            if let Some(t) = f.id.split("impl ").nth(1).and_then(|x| x.split(" for ").next()).map(|x| x.split('<').next().unwrap().split("::").last().unwrap().to_string()) {
                if td.get(&t).map(|s| s.contains(&name)).unwrap_or(false) {
                    if let Some(k) = c.fns.iter().find(|(k, _)| k.ends_with(&format!("::{t}::{name}")) || **k == format!("{t}::{name}")).map(|x| x.1.clone()) {
                        let m: BTreeMap<String, String> = [("self".to_string(), "self_".to_string())].into();
                        let k2 = contract::Contract { requires: word_replace(&k.requires, &m), ensures: word_replace(&k.ensures, &m), props: k.props.clone(), where_: k.where_.clone(), ret: k.ret.clone(), ..Default::default() };
                        c.fns.insert(f.id.clone(), k2);
                    }
                }
            }
        }
    }
    let mut imports = BTreeMap::new();
    use_map(&m, &mut imports);
    let missing: Vec<String> = c.fns.keys().filter(|k| !fm.contains_key(*k)).cloned().collect();
    let cx = Ctx { c, funcs: fm, drops, trait_defaults: td.clone(), local_traits: lt, baseline, report: Default::default(), imports, method_helpers: mh, called_plain: Default::default(), overrides: Default::default(), unneeded: Default::default() };
    // first pass finds helpers that cannot be inlined
    let mut text = String::new();
    let mut map = vec![];
    for pass in 0..4 {
        let before = cx.called_plain.borrow().len();
        let mut out = Out { s: String::new(), line: 1, map: vec![] };
        out.p("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code, non_camel_case_types, unused_must_use, ambiguous_glob_reexports, unused_comparisons)]\n");
        out.p("use vstd::prelude::*;\nverus! {\n");
        out.p("pub mod vx {\nuse vstd::prelude::*;\n");
        let mut exts = vec![];
        for f in &funcs {
            if f.kind == "trait_default" {
                let segs: Vec<&str> = f.id.split("::").collect();
                exts.push(format!("pub use crate::{}Ext;\npub use crate::{};\n", segs[..segs.len() - 1].join("::"), segs[..segs.len() - 1].join("::")));
            }
        }
        for f in &funcs {
            if cx.c.split.contains(&f.id) {
                let segs: Vec<&str> = f.id.split("::").collect();
                exts.push(format!("pub use crate::{}Sub;\n", segs[..segs.len() - 1].join("::")));
            }
        }
        exts.sort();
        exts.dedup();
        for e in exts {
            out.p(&e);
        }
        let mut pf: Vec<_> = std::fs::read_dir(cdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false)).collect();
        pf.sort();
        for p in pf {
            let t = std::fs::read_to_string(&p).unwrap();
            for (n, l) in t.lines().enumerate() {
                out.map.push((out.line, p.file_name().unwrap().to_string_lossy().to_string(), n + 1));
                out.p(l);
                out.p("\n");
            }
        }
        out.p("}\n");
        cx.emit_module(&m, &mut out);
        out.p("} // verus!\nfn main() {}\n");
        text = out.s;
        map = out.map;
        let mut un = 0;
        for f in cx.report.borrow().values() {
            let n = f["emit_name"].as_str().unwrap_or("");
            if f["outlined"] == json!(true) && !n.is_empty() && ["free", "inherent", "impl"].contains(&f["kind"].as_str().unwrap()) && n.starts_with("vx_") | (f["kind"] == "free") | (f["kind"] == "inherent") {
                if text.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| *w == n).count() == 1 {
                    cx.unneeded.borrow_mut().insert(f["id"].as_str().unwrap().to_string());
                    un += 1;
                }
            }
        }
        if cx.called_plain.borrow().len() == before && pass > 0 && un == 0 {
            break;
        }
    }
    std::fs::create_dir_all(odir).unwrap();
    std::fs::write(format!("{odir}/lib.rs"), &text).unwrap();
    let rep = cx.report.borrow();
    let all: Vec<J> = cx.funcs.values().filter(|f| !rep.contains_key(&f.id)).map(|f| json!({"id": f.id, "file": f.file, "line": f.line.0, "kind": f.kind, "norm": f.block.as_ref().map(|b| norm(b)).unwrap_or_default()})).collect();
    let j = json!({"functions": rep.values().cloned().collect::<Vec<_>>(), "not_emitted": all, "items": items, "missing": missing, "overrides": cx.overrides.borrow().iter().cloned().collect::<Vec<_>>(), "lines": map.iter().map(|(a,b,c)| json!([a,b,c])).collect::<Vec<_>>()});
    std::fs::write(format!("{odir}/map.json"), serde_json::to_string_pretty(&j).unwrap()).unwrap();
    if let Some(w) = write {
        let mut b = serde_json::Map::new();
        b.insert("items".into(), json!(items));
        for (k, v) in rep.iter() {
            b.insert(k.clone(), json!({"binders": v["binders"], "loops": v["loops"], "heads": v["heads"], "returns": v["returns"], "norm": v["norm"], "status": v["status"], "inlined": v["inlined"]}));
        }
        for f in cx.funcs.values() {
            if !b.contains_key(&f.id) {
                b.insert(f.id.clone(), json!({"binders": [], "loops": 0, "heads": [], "norm": f.block.as_ref().map(|b| norm(b)).unwrap_or_default(), "status": "none"}));
            }
        }
        std::fs::write(w, serde_json::to_string_pretty(&J::Object(b)).unwrap()).unwrap();
    }
}
