//! Inlining of helper functions without a contract, beta reduction of closures.
use crate::lower::{ex, id, norm};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub id: String,
    pub sig: Signature,
    pub block: Block,
}

/// names bound by patterns, in order of appearance
pub struct Binders(pub Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        // constants and unit variants start with an upper case letter
        if !n.chars().next().unwrap().is_uppercase() {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}
pub fn binders(b: &Block) -> Vec<String> {
    let mut v = Binders(vec![]);
    v.visit_block(b);
    v.0
}

/// `&mut x`, `&mut x.f`: the place
fn mut_place(e: &Expr) -> Option<Expr> {
    let Expr::Reference(r) = e else { return None };
    r.mutability?;
    let mut p = &*r.expr;
    loop {
        match p {
            Expr::Field(f) => p = &f.base,
            Expr::Path(q) if q.qself.is_none() && q.path.segments.len() == 1 => return Some((*r.expr).clone()),
            _ => return None,
        }
    }
}
/// uses of a `&mut` parameter become uses of the place it refers to
struct Places<'a>(&'a BTreeMap<String, Expr>);
impl Places<'_> {
    fn of(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => self.0.get(&p.path.segments[0].ident.to_string()).cloned(),
            Expr::Paren(p) => self.of(&p.expr),
            _ => None,
        }
    }
}
impl VisitMut for Places<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.0.is_empty() {
            return;
        }
        match e {
            Expr::MethodCall(m) => {
                if let Some(p) = self.of(&m.receiver) {
                    *m.receiver = p;
                    m.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                    return;
                }
            }
            Expr::Index(i) => {
                if let Some(p) = self.of(&i.expr) {
                    *i.expr = p;
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
            }
            Expr::Field(i) => {
                if let Some(p) = self.of(&i.base) {
                    *i.base = p;
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(p) = self.of(&u.expr) {
                    *e = p;
                    return;
                }
            }
            _ => {}
        }
        if let Some(p) = self.of(e) {
            *e = ex(quote!((&mut #p)));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let t: BTreeMap<String, Expr> = self.0.iter().map(|(k, p)| (k.clone(), ex(quote!((&mut #p))))).collect();
        m.tokens = subst_tokens(m.tokens.clone(), &t);
    }
}

pub struct Subst<'a>(pub &'a BTreeMap<String, Expr>);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(r) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    *e = match r {
                        Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_) => r.clone(),
                        r => ex(quote!((#r))),
                    };
                    return;
                }
            }
        }
        if let Expr::Closure(c) = e {
            // no capture problems: closure parameters shadow
            let mut b = Binders(vec![]);
            for i in &c.inputs {
                b.visit_pat(i);
            }
            if b.0.iter().any(|n| self.0.contains_key(n)) {
                let m: BTreeMap<String, Expr> = self.0.iter().filter(|(k, _)| !b.0.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                Subst(&m).visit_expr_mut(&mut c.body);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        let before = norm(&f.expr);
        visit_mut::visit_field_value_mut(self, f);
        if f.colon_token.is_none() && norm(&f.expr) != before {
            f.colon_token = Some(Default::default());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // remaining macros (vec![..]): token level
        m.tokens = subst_tokens(m.tokens.clone(), self.0);
    }
}
fn subst_tokens(t: TokenStream, m: &BTreeMap<String, Expr>) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    t.into_iter()
        .flat_map(|t| match t {
            TokenTree::Ident(i) => match m.get(&i.to_string()) {
                Some(e) => e.to_token_stream(),
                None => TokenTree::Ident(i).into(),
            },
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), subst_tokens(g.stream(), m))).into(),
            t => t.into(),
        })
        .collect()
}

pub struct Rename<'a>(pub &'a BTreeMap<String, String>);
impl VisitMut for Rename<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = syn::Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.0.get(&s.ident.to_string()) {
                s.ident = syn::Ident::new(n, s.ident.span());
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        let before = norm(&f.expr);
        visit_mut::visit_field_value_mut(self, f);
        if f.colon_token.is_none() && norm(&f.expr) != before {
            f.colon_token = Some(Default::default());
        }
    }
}

/// idents of a token stream
pub fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}

struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

fn ret_value(s: &Stmt) -> Option<Expr> {
    match s {
        Stmt::Expr(Expr::Return(r), _) => Some(match &r.expr {
            Some(e) => (**e).clone(),
            None => parse_quote!(()),
        }),
        _ => None,
    }
}

/// `if c { ..; return X; } rest` => `if c { ..; X } else { rest }`
pub fn tail_form(b: &Block) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        if i + 1 == n {
            if let Some(v) = ret_value(s) {
                out.push(Stmt::Expr(v, None));
                return check(out);
            }
            // tail if / match with returns inside the branches
            if let Stmt::Expr(e, semi) = s {
                let mut h = HasRet(false);
                h.visit_expr(e);
                if h.0 {
                    let e2 = tail_expr(e)?;
                    out.push(Stmt::Expr(e2, *semi));
                    return check(out);
                }
            }
            out.push(s.clone());
            return check(out);
        }
        if let Stmt::Expr(Expr::If(f), _) = s {
            if f.else_branch.is_none() {
                if let Some(last) = f.then_branch.stmts.last() {
                    if let Some(v) = ret_value(last) {
                        let mut then: Vec<Stmt> = f.then_branch.stmts[..f.then_branch.stmts.len() - 1].to_vec();
                        then.push(Stmt::Expr(v, None));
                        let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                        let rest = tail_form(&rest)?;
                        let c = &f.cond;
                        let rs = &rest.stmts;
                        out.push(Stmt::Expr(ex(quote!(if #c { #(#then)* } else { #(#rs)* })), None));
                        return check(out);
                    }
                }
            }
        }
        out.push(s.clone());
    }
    check(out)
}
fn tail_expr(e: &Expr) -> Option<Expr> {
    let mut e = e.clone();
    match &mut e {
        Expr::If(f) => {
            f.then_branch = tail_form(&f.then_branch)?;
            if let Some((_, b)) = &mut f.else_branch {
                **b = tail_expr(b)?;
            }
        }
        Expr::Block(b) => b.block = tail_form(&b.block)?,
        Expr::Match(m) => {
            for a in &mut m.arms {
                *a.body = tail_expr(&a.body)?;
            }
        }
        Expr::Return(r) => {
            return r.expr.as_ref().map(|e| (**e).clone());
        }
        _ => {}
    }
    Some(e)
}
fn check(stmts: Vec<Stmt>) -> Option<Block> {
    let b = Block { brace_token: Default::default(), stmts };
    let mut h = HasRet(false);
    h.visit_block(&b);
    if h.0 {
        None
    } else {
        Some(b)
    }
}

pub struct Inline<'a> {
    /// resolves a call path (normalized) / a method name to a helper
    pub resolve: &'a dyn Fn(&str) -> Option<Helper>,
    pub resolve_method: &'a dyn Fn(&str) -> Option<Helper>,
    pub inlined: Vec<String>,
    pub failed: Vec<String>,
    pub depth: usize,
    pub fresh: usize,
    /// names of the caller: an inlined body is spliced into the caller's block when its locals are new names
    pub names: BTreeSet<String>,
    /// parameters of inlined helpers that became locals
    pub param_lets: BTreeSet<String>,
}

/// the statements of an inlined block and its value
fn splice_parts(e: &Expr, names: &BTreeSet<String>) -> Option<(Vec<Stmt>, Option<Expr>)> {
    let b = match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => &b.block,
        _ => return None,
    };
    for s in &b.stmts {
        let mut v = Binders(vec![]);
        if let Stmt::Local(l) = s {
            v.visit_pat(&l.pat);
        }
        if v.0.iter().any(|n| names.contains(n)) {
            return None;
        }
    }
    let mut st = b.stmts.clone();
    match st.pop() {
        Some(Stmt::Expr(e, None)) => Some((st, Some(e))),
        Some(s) => {
            st.push(s);
            Some((st, None))
        }
        None => Some((st, None)),
    }
}

fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1 || p.path.segments.last().map(|s| s.ident.to_string().chars().next().unwrap().is_uppercase()).unwrap_or(false),
        Expr::Lit(_) => true,
        Expr::Reference(r) if r.mutability.is_none() => is_simple(&r.expr),
        Expr::Paren(p) => is_simple(&p.expr),
        _ => false,
    }
}

impl Inline<'_> {
    fn build(&mut self, h: &Helper, args: Vec<Expr>, recv: Option<Expr>) -> Option<Expr> {
        let body = tail_form(&h.block)?;
        let mut body = body;
        // parameters
        let mut params: Vec<(PatIdent, Type)> = vec![];
        for i in &h.sig.inputs {
            match i {
                FnArg::Receiver(_) => {}
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => params.push((p.clone(), (*t.ty).clone())),
                    _ => return None,
                },
            }
        }
        if params.len() != args.len() {
            return None;
        }
        // local names of the helper must not capture names of the arguments
        let mut used = BTreeSet::new();
        for a in args.iter().chain(recv.iter()) {
            idents(a.to_token_stream(), &mut used);
        }
        let locals = binders(&body);
        let mut ren = BTreeMap::new();
        for l in &locals {
            if used.contains(l) {
                self.fresh += 1;
                ren.insert(l.clone(), format!("{l}_h{}", self.fresh));
            }
        }
        let mut sub: BTreeMap<String, Expr> = BTreeMap::new();
        let mut lets: Vec<TokenStream> = vec![];
        let mut places: BTreeMap<String, Expr> = BTreeMap::new();
        if let Some(r) = recv {
            if norm(&r) != "self" {
                if !is_simple(&r) {
                    return None;
                }
                sub.insert("self".into(), r);
            }
        }
        for ((p, ty), a) in params.iter().zip(args) {
            let n = p.ident.to_string();
            let shadowed = locals.contains(&n);
            let place = mut_place(&a).filter(|_| p.mutability.is_none() && !shadowed && matches!(ty, Type::Reference(r) if r.mutability.is_some()));
            if matches!(a, Expr::Closure(_)) || (is_simple(&a) && p.mutability.is_none() && !shadowed) {
                sub.insert(n, a);
            } else if let Some(pl) = place {
                // `f(&mut out)`: the helper works on `out` itself
                places.insert(n, pl);
            } else {
                self.fresh += 1;
                // a shadowed parameter keeps the (consistently renamed) name of the locals that shadow it
                let v = if shadowed {
                    ren.get(&n).map(|x| id(x)).unwrap_or(p.ident.clone())
                } else if used.contains(&n) {
                    id(&format!("{n}_h{}", self.fresh))
                } else {
                    p.ident.clone()
                };
                let mu = &p.mutability;
                self.param_lets.insert(v.to_string());
                let t = norm(ty);
                let generic = h.sig.generics.params.iter().any(|g| match g {
                    GenericParam::Type(g) => t.contains(&g.ident.to_string()),
                    _ => false,
                }) || t.contains("impl ");
                if generic {
                    lets.push(quote!(let #mu #v = #a;));
                } else {
                    lets.push(quote!(let #mu #v: #ty = #a;));
                }
                if v != p.ident && !shadowed {
                    sub.insert(n, ex(quote!(#v)));
                }
            }
        }
        // a renamed local that is also a struct shorthand etc. is handled by Rename
        Rename(&ren).visit_block_mut(&mut body);
        Places(&places).visit_block_mut(&mut body);
        Subst(&sub).visit_block_mut(&mut body);
        self.inlined.push(h.id.clone());
        let st = &body.stmts;
        Some(ex(quote!({ #(#lets)* #(#st)* })))
    }
}

fn is_call(e: &Expr) -> bool {
    matches!(e, Expr::Call(_) | Expr::MethodCall(_))
}

impl VisitMut for Inline<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut names = self.names.clone();
        idents(b.to_token_stream(), &mut names);
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, mut s) in old.into_iter().enumerate() {
            let called = match &s {
                Stmt::Expr(e, _) => is_call(e),
                Stmt::Local(l) => l.init.as_ref().map(|i| is_call(&i.expr) && i.diverge.is_none()).unwrap_or(false),
                _ => false,
            };
            self.visit_stmt_mut(&mut s);
            if called {
                match &s {
                    Stmt::Expr(e, semi) if i + 1 < n || semi.is_some() => {
                        if let Some((st, v)) = splice_parts(e, &names) {
                            b.stmts.extend(st);
                            if let Some(v) = v {
                                b.stmts.push(Stmt::Expr(v, Some(Default::default())));
                            }
                            continue;
                        }
                    }
                    Stmt::Expr(e, None) => {
                        if let Some((st, v)) = splice_parts(e, &names) {
                            b.stmts.extend(st);
                            if let Some(v) = v {
                                b.stmts.push(Stmt::Expr(v, None));
                            }
                            continue;
                        }
                    }
                    Stmt::Local(l) => {
                        if let Some((st, Some(v))) = splice_parts(&l.init.as_ref().unwrap().expr, &names) {
                            let mut l = l.clone();
                            *l.init.as_mut().unwrap().expr = v;
                            b.stmts.extend(st);
                            b.stmts.push(Stmt::Local(l));
                            continue;
                        }
                    }
                    _ => {}
                }
            }
            b.stmts.push(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // an operator passed by name
        if let Expr::Call(ExprCall { args, .. }) | Expr::MethodCall(ExprMethodCall { args, .. }) = e {
            for a in args.iter_mut() {
                if let Expr::Path(p) = &*a {
                    if let Some(o) = operator(&norm(&p.path)) {
                        *a = match o {
                            "!" => parse_quote!(|vx_x| !vx_x),
                            "&" => parse_quote!(|vx_x, vx_y| vx_x & vx_y),
                            "|" => parse_quote!(|vx_x, vx_y| vx_x | vx_y),
                            _ => parse_quote!(|vx_x, vx_y| vx_x ^ vx_y),
                        };
                    }
                }
            }
        }
        // a helper passed by name: `map(f)` => `map(|x| f(x))`
        const TAKES_FN: &[&str] = &["map", "map_err", "and_then", "map_or", "map_or_else", "for_each", "all", "any", "unwrap_or_else", "or_else", "is_some_and", "is_none_or", "filter_map", "flat_map"];
        if let Expr::MethodCall(m) = e {
            let takes = TAKES_FN.contains(&m.method.to_string().as_str());
            for a in m.args.iter_mut().filter(|_| takes) {
                if let Expr::Path(p) = &*a {
                    if let Some(h) = (self.resolve)(&norm(&p.path)) {
                        let v: Vec<Ident> = (0..h.sig.inputs.len()).map(|k| id(&format!("vx_f{k}"))).collect();
                        *a = ex(quote!(|#(#v),*| #p(#(#v),*)));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut done = false;
        match e {
            Expr::Call(c) => {
                let mut f = &*c.func;
                while let Expr::Paren(p) = f {
                    f = &p.expr;
                }
                // beta reduction
                if let Expr::Closure(cl) = f {
                    if cl.inputs.len() == c.args.len() {
                        let mut sub = BTreeMap::new();
                        let mut lets = vec![];
                        for (p, a) in cl.inputs.iter().zip(&c.args) {
                            let a = a.clone();
                            let p = match p {
                                Pat::Type(t) => &*t.pat,
                                p => p,
                            };
                            match p {
                                Pat::Ident(i) if arg_pure(&a) => {
                                    sub.insert(i.ident.to_string(), a);
                                }
                                p => lets.push(quote!(let #p = #a;)),
                            }
                        }
                        let mut b = (*cl.body).clone();
                        Subst(&sub).visit_expr_mut(&mut b);
                        *e = if lets.is_empty() { ex(quote!((#b))) } else { ex(quote!({ #(#lets)* #b })) };
                        return;
                    }
                }
                if let Expr::Path(p) = f {
                    let n = norm(&p.path);
                    if let Some(h) = (self.resolve)(&n) {
                        if self.depth < 6 {
                            match self.build(&h, c.args.iter().cloned().collect(), None) {
                                Some(x) => {
                                    *e = x;
                                    done = true;
                                }
                                None => self.failed.push(h.id.clone()),
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Some(h) = (self.resolve_method)(&m.method.to_string()) {
                    if self.depth < 6 {
                        match self.build(&h, m.args.iter().cloned().collect(), Some((*m.receiver).clone())) {
                            Some(x) => {
                                *e = x;
                                done = true;
                            }
                            None => self.failed.push(h.id.clone()),
                        }
                    }
                }
            }
            _ => {}
        }
        if done {
            self.depth += 1;
            self.visit_expr_mut(e);
            self.depth -= 1;
        }
    }
}

fn arg_pure(e: &Expr) -> bool {
    match e {
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && arg_pure(&u.expr),
        Expr::Paren(p) => arg_pure(&p.expr),
        e => is_simple(e),
    }
}

/// `std::ops::BitAnd::bitand` as a function
fn operator(p: &str) -> Option<&'static str> {
    let v: Vec<&str> = p.rsplit("::").take(2).collect();
    match (*v.get(1)?, v[0]) {
        ("BitAnd" | "Word" | "u64", "bitand") => Some("&"),
        ("BitOr" | "Word" | "u64", "bitor") => Some("|"),
        ("BitXor" | "Word" | "u64", "bitxor") => Some("^"),
        ("Not" | "Word" | "u64", "not") => Some("!"),
        _ => None,
    }
}
