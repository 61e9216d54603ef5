//! Mechanical lowering of Rust constructs that the verifier does not accept.
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn norm(t: &impl ToTokens) -> String {
    norm_ts(t.to_token_stream())
}
pub fn norm_ts(t: TokenStream) -> String {
    let mut s = String::new();
    fn go(t: TokenStream, s: &mut String) {
        for x in t {
            match x {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    s.push_str(a);
                    go(g.stream(), s);
                    // trailing comma is irrelevant
                    if s.ends_with(',') {
                        s.pop();
                    }
                    s.push_str(b);
                }
                TokenTree::Ident(i) => {
                    if s.chars().last().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
                        s.push(' ');
                    }
                    s.push_str(&i.to_string());
                }
                TokenTree::Literal(i) => {
                    if s.chars().last().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
                        s.push(' ');
                    }
                    s.push_str(&i.to_string());
                }
                TokenTree::Punct(p) => s.push(p.as_char()),
            }
        }
    }
    go(t, &mut s);
    s
}

pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn ex(t: TokenStream) -> Expr {
    parse2::<Expr>(t.clone()).unwrap_or_else(|e| panic!("lowering produced bad expr {t}: {e}"))
}
pub fn stmts(t: TokenStream) -> Vec<Stmt> {
    let b: Block = parse2(quote!({ #t })).unwrap_or_else(|e| panic!("lowering produced bad stmts {t}: {e}"));
    b.stmts
}

#[derive(Clone)]
pub enum It {
    /// elements by reference `&base[lo + i]` / `&mut`, or by value when `owned`
    Slice { base: TokenStream, mutable: bool, owned: bool, lo: Option<TokenStream>, len: TokenStream },
    Range { lo: TokenStream, hi: TokenStream, len: TokenStream },
    Repeat { v: TokenStream },
    Once { v: TokenStream },
    Zip(Box<It>, Box<It>),
    Chain(Box<It>, Box<It>),
    Skip(Box<It>, TokenStream),
    Take(Box<It>, TokenStream),
    Rev(Box<It>),
    Enumerate(Box<It>),
    Deref(Box<It>),
    Map(Box<It>, Pat, Box<Expr>),
}
#[derive(Clone)]
pub enum Elem {
    E(TokenStream),
    T(Vec<Elem>),
}

fn simple(t: &TokenStream) -> bool {
    let v: Vec<_> = t.clone().into_iter().collect();
    v.len() == 1 && !matches!(v[0], TokenTree::Group(_))
}

impl It {
    fn len(&self) -> Option<TokenStream> {
        Some(match self {
            It::Slice { len, .. } => len.clone(),
            It::Range { len, .. } => len.clone(),
            It::Repeat { .. } => return None,
            It::Once { .. } => quote!(1usize),
            It::Zip(a, b) => match (a.len(), b.len()) {
                (Some(a), Some(b)) => {
                    if a.to_string() == b.to_string() {
                        a
                    } else {
                        quote!(vx_min(#a, #b))
                    }
                }
                (Some(a), None) | (None, Some(a)) => a,
                _ => return None,
            },
            It::Chain(a, b) => {
                let (a, b) = (a.len()?, b.len()?);
                quote!(vx_add_len(#a, #b))
            }
            It::Skip(a, n) => {
                let a = a.len()?;
                quote!(vx_sat_sub(#a, #n))
            }
            It::Take(a, n) => match a.len() {
                None => quote!(#n),
                Some(a) => quote!(vx_min(#a, #n)),
            },
            It::Rev(a) | It::Enumerate(a) | It::Deref(a) | It::Map(a, _, _) => a.len()?,
        })
    }
    fn elem(&self, i: TokenStream, unsupported: &mut Option<String>) -> Elem {
        match self {
            It::Slice { base, mutable, owned, lo, .. } => {
                let ix = match lo {
                    None => i,
                    Some(l) => quote!((#i + #l)),
                };
                Elem::E(if *owned {
                    quote!(#base[#ix])
                } else if *mutable {
                    quote!(&mut #base[#ix])
                } else {
                    quote!(& #base[#ix])
                })
            }
            It::Range { lo, .. } => {
                if lo.to_string() == "0" {
                    Elem::E(i)
                } else {
                    Elem::E(quote!((#lo + #i)))
                }
            }
            It::Repeat { v } | It::Once { v } => Elem::E(v.clone()),
            It::Zip(a, b) => Elem::T(vec![a.elem(i.clone(), unsupported), b.elem(i, unsupported)]),
            It::Chain(a, b) => {
                let al = a.len().unwrap_or(quote!(0));
                let (ea, eb) = (a.elem(i.clone(), unsupported), b.elem(quote!((#i - #al)), unsupported));
                match (ea, eb) {
                    (Elem::E(ea), Elem::E(eb)) => Elem::E(quote!((if #i < #al { #ea } else { #eb }))),
                    _ => {
                        *unsupported = Some("chain of tuples".into());
                        Elem::E(quote!(()))
                    }
                }
            }
            It::Skip(a, n) => a.elem(quote!((#i + #n)), unsupported),
            It::Take(a, _) => a.elem(i, unsupported),
            It::Rev(a) => {
                let n = match a.len() {
                    Some(n) => n,
                    None => {
                        *unsupported = Some("rev of infinite iterator".into());
                        quote!(0)
                    }
                };
                a.elem(quote!((#n - 1 - #i)), unsupported)
            }
            It::Enumerate(a) => Elem::T(vec![Elem::E(i.clone()), a.elem(i, unsupported)]),
            It::Deref(a) => match a.elem(i, unsupported) {
                Elem::E(e) => Elem::E(deref(e)),
                x => x,
            },
            It::Map(a, p, f) => {
                let e = a.elem(i, unsupported);
                let mut out = vec![];
                bind(p, e, &mut out);
                Elem::E(quote!({ #(#out)* #f }))
            }
        }
    }
}

fn deref(e: TokenStream) -> TokenStream {
    let v: Vec<_> = e.clone().into_iter().collect();
    if let Some(TokenTree::Punct(p)) = v.first() {
        if p.as_char() == '&' {
            let rest: TokenStream = v[1..].iter().cloned().collect();
            return quote!(#rest);
        }
    }
    quote!(*#e)
}

/// binds an irrefutable pattern to an element
pub fn bind(p: &Pat, e: Elem, out: &mut Vec<TokenStream>) {
    match (p, e) {
        (Pat::Wild(_), _) => {}
        (Pat::Reference(r), Elem::E(e)) => bind(&r.pat, Elem::E(deref(e)), out),
        (Pat::Paren(r), e) => bind(&r.pat, e, out),
        (Pat::Type(t), e) => bind(&t.pat, e, out),
        (Pat::Tuple(t), Elem::T(es)) => {
            for (p, e) in t.elems.iter().zip(es) {
                bind(p, e, out);
            }
        }
        (p, Elem::E(e)) => out.push(quote!(let #p = #e;)),
        (p, Elem::T(es)) => {
            let e = tuple(es);
            out.push(quote!(let #p = #e;))
        }
    }
}
fn tuple(es: Vec<Elem>) -> TokenStream {
    let v: Vec<TokenStream> = es
        .into_iter()
        .map(|e| match e {
            Elem::E(e) => e,
            Elem::T(t) => tuple(t),
        })
        .collect();
    quote!((#(#v),*))
}

pub struct Lower {
    pub counter: usize,
    pub native: BTreeSet<usize>,
    pub iter_params: BTreeSet<String>,
    pub mut_slices: BTreeSet<String>,
    pub env: BTreeMap<String, It>,
    pub unsupported: Option<String>,
    pub tmp: usize,
    pub arrays: BTreeSet<String>,
    /// per loop: how it looks in the source and the helper names made for it
    pub heads: Vec<(String, Vec<String>)>,
    fresh_log: Vec<String>,
}

fn args1(a: &Punctuated<Expr, Token![,]>) -> Option<&Expr> {
    if a.len() == 1 {
        a.first()
    } else {
        None
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

impl Lower {
    pub fn new() -> Self {
        Lower {
            counter: 0,
            heads: vec![],
            fresh_log: vec![],
            native: Default::default(),
            iter_params: Default::default(),
            mut_slices: Default::default(),
            env: Default::default(),
            unsupported: None,
            tmp: 0,
            arrays: Default::default(),
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        self.fresh_log.push(format!("vx_{p}{}", self.tmp));
        id(&format!("vx_{p}{}", self.tmp))
    }
    fn next_loop(&mut self, head: String) -> usize {
        self.heads.push((head, std::mem::take(&mut self.fresh_log)));
        self.counter += 1;
        self.counter - 1
    }
    /// iterator base for a sliceable expression
    fn slice_base(&mut self, e: &Expr, mutable: bool, pre: &mut Vec<TokenStream>) -> It {
        let e = strip_paren(e);
        // &x / &mut x
        if let Expr::Reference(r) = e {
            let m = r.mutability.is_some();
            return self.slice_base(&r.expr, m || mutable, pre);
        }
        // x[lo..hi]
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = strip_paren(&ix.index) {
                let inner = self.slice_base(&ix.expr, mutable, pre);
                if let It::Slice { base, mutable, owned, lo: plo, len } = inner {
                    let lo = match &r.start {
                        Some(s) => {
                            let v = self.fresh("lo");
                            pre.push(quote!(let #v: usize = #s;));
                            quote!(#v)
                        }
                        None => quote!(0),
                    };
                    let hi = match &r.end {
                        Some(s) => {
                            let v = self.fresh("hi");
                            let s = match r.limits {
                                RangeLimits::HalfOpen(_) => quote!(#s),
                                RangeLimits::Closed(_) => quote!((#s) + 1),
                            };
                            pre.push(quote!(let #v: usize = #s;));
                            quote!(#v)
                        }
                        None => len.clone(),
                    };
                    pre.push(quote!(vx_assert(#lo <= #hi && #hi <= #len);));
                    let lo2 = match (&plo, lo.to_string().as_str()) {
                        (None, "0") => None,
                        (None, _) => Some(lo.clone()),
                        (Some(p), _) => Some(quote!((#p + #lo))),
                    };
                    return It::Slice { base, mutable, owned, lo: lo2, len: quote!((#hi - #lo)) };
                }
            }
        }
        let simple_place = match e {
            Expr::Path(p) => p.path.segments.len() == 1,
            Expr::Field(f) => matches!(strip_paren(&f.base), Expr::Path(_)),
            _ => false,
        };
        if simple_place {
            let b = e.to_token_stream();
            It::Slice { base: b.clone(), mutable, owned: false, lo: None, len: quote!(#b.len()) }
        } else if let Expr::Array(a) = e {
            let v = self.fresh("arr");
            let n = a.elems.len();
            pre.push(quote!(let #v = #a;));
            It::Slice { base: quote!(#v), mutable, owned: false, lo: None, len: quote!(#n) }
        } else {
            let v = self.fresh("b");
            pre.push(quote!(let #v = #e;));
            It::Slice { base: quote!(#v), mutable, owned: false, lo: None, len: quote!(#v.len()) }
        }
    }

    /// strict: only expressions that are certainly iterators
    pub fn parse_iter(&mut self, e: &Expr, strict: bool, pre: &mut Vec<TokenStream>) -> Option<It> {
        let e = strip_paren(e);
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if let Some(it) = self.env.get(&n) {
                    return Some(it.clone());
                }
                if self.iter_params.contains(&n) {
                    let i = &p.path.segments[0].ident;
                    return Some(It::Slice { base: quote!(#i), mutable: false, owned: true, lo: None, len: quote!(#i.len()) });
                }
                if strict {
                    None
                } else if self.mut_slices.contains(&n) {
                    Some(self.slice_base(e, true, pre))
                } else {
                    Some(self.slice_base(e, false, pre))
                }
            }
            Expr::Reference(_) | Expr::Array(_) if !strict => {
                let owned = matches!(e, Expr::Array(_));
                match self.slice_base(e, false, pre) {
                    It::Slice { base, mutable, lo, len, .. } => Some(It::Slice { base, mutable, owned, lo, len }),
                    x => Some(x),
                }
            }
            Expr::Range(r) if !strict => {
                let lo = match &r.start {
                    Some(s) => s.to_token_stream(),
                    None => return None,
                };
                let hi = match &r.end {
                    Some(s) => s.to_token_stream(),
                    None => return None,
                };
                let hi = match r.limits {
                    RangeLimits::HalfOpen(_) => hi,
                    RangeLimits::Closed(_) => quote!((#hi) + 1),
                };
                if lo.to_string() == "0" {
                    let len = if simple(&hi) { hi.clone() } else { quote!((#hi)) };
                    Some(It::Range { lo, hi, len })
                } else {
                    let (l, h) = (self.fresh("lo"), self.fresh("hi"));
                    pre.push(quote!(let #l = #lo;));
                    pre.push(quote!(let #h = #hi;));
                    Some(It::Range { lo: quote!(#l), hi: quote!(#h), len: quote!((if #l <= #h { #h - #l } else { 0 })) })
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => {
                        if let Some(it) = self.parse_iter(&m.receiver, true, pre) {
                            return Some(it);
                        }
                        Some(self.slice_base(&m.receiver, false, pre))
                    }
                    ("iter_mut", 0) => Some(self.slice_base(&m.receiver, true, pre)),
                    // `for w in self.words()`
                    ("words", 0) | ("as_slice", 0) | ("as_ref", 0) if !strict => Some(self.slice_base(e, false, pre)),
                    ("words_mut", 0) | ("as_mut_slice", 0) | ("as_mut", 0) if !strict => Some(self.slice_base(e, true, pre)),
                    ("into_iter", 0) => {
                        if let Some(it) = self.parse_iter(&m.receiver, true, pre) {
                            return Some(it);
                        }
                        match strip_paren(&m.receiver) {
                            Expr::Range(_) => self.parse_iter(&m.receiver, false, pre),
                            Expr::Path(_) | Expr::Field(_) => {
                                let v = self.fresh("own");
                                let r = &m.receiver;
                                pre.push(quote!(let #v = #r.vx_into_vec();));
                                Some(It::Slice { base: quote!(#v), mutable: false, owned: true, lo: None, len: quote!(#v.len()) })
                            }
                            _ => None,
                        }
                    }
                    ("iter_u64_digits", 0) => {
                        let v = self.fresh("dig");
                        let r = &m.receiver;
                        pre.push(quote!(let #v = vx_u64_digits(#r);));
                        Some(It::Slice { base: quote!(#v), mutable: false, owned: true, lo: None, len: quote!(#v.len()) })
                    }
                    ("bytes", 0) => {
                        let v = self.fresh("bytes");
                        let r = &m.receiver;
                        pre.push(quote!(let #v = #r.as_bytes();));
                        Some(It::Slice { base: quote!(#v), mutable: false, owned: true, lo: None, len: quote!(#v.len()) })
                    }
                    ("rev", 0) => Some(It::Rev(Box::new(self.parse_iter(&m.receiver, false_if_range(&m.receiver), pre)?))),
                    ("enumerate", 0) => Some(It::Enumerate(Box::new(self.parse_iter(&m.receiver, true, pre)?))),
                    ("cloned", 0) | ("copied", 0) => Some(It::Deref(Box::new(self.parse_iter(&m.receiver, true, pre)?))),
                    ("skip", 1) | ("take", 1) => {
                        let a = self.parse_iter(&m.receiver, false_if_range(&m.receiver), pre)?;
                        let n = args1(&m.args)?;
                        let n = if let Expr::Lit(_) = n {
                            quote!(#n)
                        } else {
                            let v = self.fresh("s");
                            pre.push(quote!(let #v: usize = #n;));
                            quote!(#v)
                        };
                        Some(if name == "skip" { It::Skip(Box::new(a), n) } else { It::Take(Box::new(a), n) })
                    }
                    ("zip", 1) | ("chain", 1) => {
                        let a = self.parse_iter(&m.receiver, false_if_range(&m.receiver), pre)?;
                        let b = self.parse_iter(args1(&m.args)?, false, pre)?;
                        Some(if name == "zip" { It::Zip(Box::new(a), Box::new(b)) } else { It::Chain(Box::new(a), Box::new(b)) })
                    }
                    ("map", 1) => {
                        let a = self.parse_iter(&m.receiver, false_if_range(&m.receiver), pre)?;
                        if let Expr::Closure(c) = strip_paren(args1(&m.args)?) {
                            if c.inputs.len() == 1 {
                                return Some(It::Map(Box::new(a), c.inputs[0].clone(), c.body.clone()));
                            }
                        }
                        None
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let f = norm(&c.func);
                let last = f.rsplit("::").next().unwrap_or("").to_string();
                if (f.ends_with("iter::repeat") || f == "repeat") && c.args.len() == 1 {
                    Some(It::Repeat { v: c.args[0].to_token_stream() })
                } else if (f.ends_with("iter::once") || f == "once") && c.args.len() == 1 {
                    Some(It::Once { v: c.args[0].to_token_stream() })
                } else {
                    let _ = last;
                    None
                }
            }
            _ => None,
        }
    }

    fn loop_header(&mut self, it: &It, k: usize) -> Option<(TokenStream, TokenStream, Ident, Ident)> {
        let len = it.len()?;
        let (n, i, c) = (id(&format!("vx_n{k}")), id(&format!("vx_i{k}")), id(&format!("vx_k{k}")));
        let _ = c;
        Some((quote!(let #n = #len;), quote!(let mut #i = 0;), n, i))
    }

    fn build_loop(&mut self, it: It, pat: &Pat, body: TokenStream, k: usize, label: TokenStream, pre: Vec<TokenStream>, cond: TokenStream) -> Option<TokenStream> {
        let (ln, li, n, i) = self.loop_header(&it, k)?;
        let c = id(&format!("vx_k{k}"));
        let mut uns = None;
        let e = it.elem(quote!(#c), &mut uns);
        if uns.is_some() {
            self.unsupported = uns;
            return None;
        }
        let mut binds = vec![];
        bind(pat, e, &mut binds);
        let (kb, ks, ke, ka) = (format!("loop {k} before"), format!("loop {k} start"), format!("loop {k} end"), format!("loop {k} after"));
        Some(quote!(
            #(#pre)*
            #ln
            #li
            vx_ghost!(#kb);
            #label while #i < #n #cond {
                vx_loop_spec!(#k, for);
                let #c = #i;
                #i += 1;
                vx_ghost!(#ks);
                #(#binds)*
                #body
                vx_ghost!(#ke);
            }
            vx_ghost!(#ka);
        ))
    }

    /// `(k, v)` over `m.iter()`: the entries of a map, in some order
    fn map_iter(&mut self, e: &Expr, pat: &Pat, pre: &mut Vec<TokenStream>) -> Option<It> {
        let m = match strip_paren(e) {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => m,
            _ => return None,
        };
        if !matches!(pat, Pat::Tuple(t) if t.elems.len() == 2) || self.parse_iter(&m.receiver, true, &mut vec![]).is_some() {
            return None;
        }
        let v = self.fresh("ent");
        let r = &m.receiver;
        pre.push(quote!(let #v = #r.vx_entries();));
        Some(It::Slice { base: quote!(#v), mutable: false, owned: true, lo: None, len: quote!(#v.len()) })
    }
    fn max_by_key(&mut self, m: &ExprMethodCall) -> Option<TokenStream> {
        let c = match strip_paren(&m.args[0]) {
            Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
            _ => return None,
        };
        let (en, src) = match strip_paren(&m.receiver) {
            Expr::MethodCall(r) if r.method == "enumerate" && r.args.is_empty() => (true, strip_paren(&r.receiver).clone()),
            x => (false, x.clone()),
        };
        let src = match &src {
            Expr::MethodCall(r) if r.method == "into_iter" && r.args.is_empty() => r.receiver.clone(),
            _ => return None,
        };
        let v = self.fresh("own");
        let k = self.next_loop(format!("max_by_key {}", norm(&m.receiver)));
        let (r, ck, cb) = (id(&format!("vx_r{k}")), id(&format!("vx_key{k}")), id(&format!("vx_top{k}")));
        let (p, b) = (&c.inputs[0], &c.body);
        let key = |i: TokenStream| {
            if en {
                quote!({ let vx_e = (#i, #v[#i]); let #p = &vx_e; #b })
            } else {
                quote!({ let #p = &#v[#i]; #b })
            }
        };
        let c = id(&format!("vx_k{k}"));
        let (k1, k2) = (key(quote!(#c)), key(quote!(#r)));
        let it = It::Slice { base: quote!(#v), mutable: false, owned: true, lo: None, len: quote!(#v.len()) };
        let pat: Pat = parse_quote!(_);
        let l = self.build_loop(it, &pat, quote!(let #ck = #k1; let #cb = #k2; if #ck >= #cb { #r = #c; }), k, quote!(), vec![], quote!())?;
        let fin = if en { quote!((#r, vx_take(#v, #r))) } else { quote!(vx_take(#v, #r)) };
        // the last one of the largest
        Some(quote!({ let #v = #src.vx_into_vec(); let mut #r: usize = 0; if #v.len() > 0 { #l Some(#fin) } else { None } }))
    }

    /// terminal iterator operations
    fn lower_terminal(&mut self, m: &ExprMethodCall) -> Option<TokenStream> {
        let name = m.method.to_string();
        let mut pre = vec![];
        match (name.as_str(), m.args.len()) {
            ("any" | "all" | "for_each", 1) => {
                let save = self.tmp;
                let mi = match strip_paren(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.len() == 1 => self.map_iter(&m.receiver, &c.inputs[0], &mut pre),
                    _ => None,
                };
                let it = match mi.or_else(|| self.parse_iter(&m.receiver, false_if_range(&m.receiver), &mut pre)) {
                    Some(i) => i,
                    None => {
                        self.tmp = save;
                        return None;
                    }
                };
                let c = match strip_paren(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
                    _ => return None,
                };
                let k = self.next_loop(format!("{} {} in {}", if name == "for_each" { "for" } else { "all" }, norm(&c.inputs[0]), norm(&m.receiver)));
                let b = &c.body;
                let r = id(&format!("vx_r{k}"));
                let (body, cond, init, fin) = match name.as_str() {
                    // `any` is `all` of the negation, so that one annotation fits both
                    "any" => (quote!(if #b { #r = false; }), quote!(&& #r), quote!(let mut #r = true;), quote!((!#r))),
                    "all" => (quote!(if !(#b) { #r = false; }), quote!(&& #r), quote!(let mut #r = true;), quote!(#r)),
                    _ => (quote!(#b;), quote!(), quote!(), quote!()),
                };
                let l = self.build_loop(it, &c.inputs[0], body, k, quote!(), pre, cond)?;
                Some(quote!({ #init #l #fin }))
            }
            ("fold", 2) => {
                let it = self.parse_iter(&m.receiver, false_if_range(&m.receiver), &mut pre)?;
                let c = match strip_paren(&m.args[1]) {
                    Expr::Closure(c) if c.inputs.len() == 2 => c.clone(),
                    _ => return None,
                };
                let k = self.next_loop(format!("fold {} in {}", norm(&c.inputs[1]), norm(&m.receiver)));
                let r = id(&format!("vx_r{k}"));
                let (acc, p, b, init) = (&c.inputs[0], &c.inputs[1], &c.body, &m.args[0]);
                let l = self.build_loop(it, p, quote!(let #acc = #r; #r = #b;), k, quote!(), pre, quote!())?;
                Some(quote!({ let mut #r = #init; #l #r }))
            }
            ("max_by_key", 1) => self.max_by_key(m),
            ("count", 0) => {
                let it = self.parse_iter(&m.receiver, true, &mut pre)?;
                let l = it.len()?;
                Some(quote!({ #(#pre)* #l }))
            }
            ("next", 0) | ("last", 0) => {
                // only for temporaries (an iterator variable has state)
                if let Expr::Path(_) = strip_paren(&m.receiver) {
                    return None;
                }
                let it = self.parse_iter(&m.receiver, true, &mut pre)?;
                let l = it.len()?;
                let n = self.fresh("len");
                let mut uns = None;
                let e = it.elem(if name == "next" { quote!(0) } else { quote!(#n - 1) }, &mut uns);
                if uns.is_some() {
                    return None;
                }
                let e = match e {
                    Elem::E(e) => e,
                    Elem::T(t) => tuple(t),
                };
                Some(quote!({ #(#pre)* let #n = #l; if #n > 0 { Some(#e) } else { None } }))
            }
            ("collect", 0) => {
                let it = self.parse_iter(&m.receiver, true, &mut pre)?;
                self.collect(it, pre)
            }
            _ => None,
        }
    }
    fn collect(&mut self, it: It, pre: Vec<TokenStream>) -> Option<TokenStream> {
        let k = self.next_loop("collect".into());
        let r = id(&format!("vx_r{k}"));
        let e = id(&format!("vx_e{k}"));
        let p: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: e.clone(), subpat: None });
        let l = self.build_loop(it, &p, quote!(#r.push(#e);), k, quote!(), pre, quote!())?;
        Some(quote!({ let mut #r = Vec::new(); #l #r }))
    }

    fn lower_slice_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let has = m.arms.iter().any(|a| contains_slice_pat(&a.pat));
        if !has {
            return None;
        }
        let (pre, scrut, mutable): (TokenStream, TokenStream, bool) = match strip_paren(&m.expr) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                (quote!(), m.expr.to_token_stream(), self.mut_slices.contains(&n))
            }
            e => {
                let v = self.fresh("m");
                (quote!(let #v = #e;), quote!(#v), false)
            }
        };
        let mut acc: Option<TokenStream> = None;
        for arm in m.arms.iter().rev() {
            let body = &arm.body;
            let (cond, binds) = self.slice_pat(&arm.pat, &scrut, mutable)?;
            let cond = match (&arm.guard, cond) {
                (None, c) => c,
                (Some((_, g)), Some(c)) if binds.is_empty() => Some(quote!((#c) && (#g))),
                _ => return None,
            };
            acc = Some(match (cond, acc) {
                (None, _) => quote!({ #(#binds)* #body }),
                (Some(c), Some(rest)) => quote!(if #c { #(#binds)* #body } else { #rest }),
                (Some(_), None) => return None,
            });
        }
        let a = acc?;
        Some(ex(quote!({ #pre #a })))
    }

    /// condition (None: always) and bindings of a pattern over a slice
    fn slice_pat(&mut self, p: &Pat, s: &TokenStream, mutable: bool) -> Option<(Option<TokenStream>, Vec<TokenStream>)> {
        match p {
            Pat::Wild(_) => Some((None, vec![])),
            Pat::Ident(i) if i.subpat.is_none() => {
                if i.ident == s.to_string() {
                    Some((None, vec![]))
                } else {
                    Some((None, vec![quote!(let #i = #s;)]))
                }
            }
            Pat::Reference(r) => self.slice_pat_inner(&r.pat, s, mutable, true),
            Pat::Slice(_) => self.slice_pat_inner(p, s, mutable, false),
            _ => None,
        }
    }
    fn slice_pat_inner(&mut self, p: &Pat, s: &TokenStream, mutable: bool, by_val: bool) -> Option<(Option<TokenStream>, Vec<TokenStream>)> {
        let sl = match p {
            Pat::Slice(s) => s,
            _ => return None,
        };
        let n = sl.elems.len();
        let is_rest = |p: &Pat| match p {
            Pat::Rest(_) => true,
            Pat::Ident(i) => i.subpat.as_ref().map(|(_, p)| matches!(**p, Pat::Rest(_))).unwrap_or(false),
            _ => false,
        };
        let rest = sl.elems.iter().position(is_rest);
        let mut conds = vec![];
        match rest {
            None => conds.push(quote!(#s.len() == #n)),
            Some(_) => {
                let k = n - 1;
                conds.push(quote!(#s.len() >= #k))
            }
        }
        let mut binds = vec![];
        let mut_binders: Vec<_> = sl.elems.iter().filter(|p| matches!(p, Pat::Ident(_)) && !is_rest(p)).collect();
        if mutable && rest.is_none() && mut_binders.len() >= 2 {
            if n != 2 {
                return None;
            }
            let (a, b) = (self.fresh("sa"), self.fresh("sb"));
            binds.push(quote!(let (#a, #b) = #s.split_at_mut(1);));
            for (k, p) in sl.elems.iter().enumerate() {
                let src = if k == 0 { &a } else { &b };
                if let Pat::Ident(i) = p {
                    let i = &i.ident;
                    binds.push(quote!(let #i = &mut #src[0];));
                }
            }
            let c = &conds[0];
            return Some((Some(quote!(#c)), binds));
        }
        for (k, p) in sl.elems.iter().enumerate() {
            if Some(k) == rest {
                if let Pat::Ident(i) = p {
                    let i = &i.ident;
                    let after = n - 1 - k;
                    let hi = if after == 0 { quote!(#s.len()) } else { quote!(#s.len() - #after) };
                    let r = if mutable { quote!(&mut) } else { quote!(&) };
                    binds.push(quote!(let #i = #r #s[#k..#hi];));
                }
                continue;
            }
            let ix = match rest {
                Some(r) if k > r => {
                    let d = n - k;
                    quote!(#s.len() - #d)
                }
                _ => quote!(#k),
            };
            match p {
                Pat::Ident(i) if i.subpat.is_none() => {
                    let i = &i.ident;
                    if by_val {
                        binds.push(quote!(let #i = #s[#ix];))
                    } else if mutable {
                        binds.push(quote!(let #i = &mut #s[#ix];))
                    } else {
                        binds.push(quote!(let #i = &#s[#ix];))
                    }
                }
                Pat::Wild(_) => {}
                Pat::Lit(l) => conds.push(quote!((#s[#ix] == #l))),
                Pat::Or(o) => {
                    let cs = &o.cases;
                    let alts: Vec<TokenStream> = cs.iter().map(|c| quote!((#s[#ix] == #c))).collect();
                    if !cs.iter().all(|c| matches!(c, Pat::Lit(_))) {
                        return None;
                    }
                    conds.push(quote!((#(#alts)||*)));
                }
                _ => return None,
            }
        }
        Some((Some(quote!(#(#conds)&&*)), binds))
    }
}

fn false_if_range(e: &Expr) -> bool {
    !matches!(strip_paren(e), Expr::Range(_))
}

fn contains_slice_pat(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Reference(r) => contains_slice_pat(&r.pat),
        Pat::Or(o) => o.cases.iter().any(contains_slice_pat),
        _ => false,
    }
}

fn count_ident(b: &[Stmt], n: &str) -> usize {
    fn go(t: TokenStream, n: &str) -> usize {
        t.into_iter()
            .map(|t| match t {
                TokenTree::Group(g) => go(g.stream(), n),
                TokenTree::Ident(i) => (i == n) as usize,
                _ => 0,
            })
            .sum()
    }
    b.iter().map(|s| go(s.to_token_stream(), n)).sum()
}

/// does the code assign to, borrow mutably or call a length changing method on the variable
struct Touches<'a>(&'a str, bool);
impl Touches<'_> {
    fn is(&self, e: &Expr) -> bool {
        norm(strip_paren(e)) == self.0
    }
}
impl VisitMut for Touches<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Assign(a) if self.is(&a.left) => self.1 = true,
            Expr::Binary(b) if is_assign_op(&b.op) && self.is(&b.left) => self.1 = true,
            Expr::Reference(r) if r.mutability.is_some() && self.is(&r.expr) => self.1 = true,
            Expr::MethodCall(m) if self.is(&m.receiver) && !matches!(m.method.to_string().as_str(), "len" | "iter" | "is_empty" | "get" | "last" | "first" | "iter_mut" | "get_mut" | "last_mut") => self.1 = true,
            Expr::Continue(_) => self.1 = true,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.0 {
            self.1 = true;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if !norm(&m.path).starts_with("vx_") {
            self.1 = true;
        }
    }
}
fn is_assign_op(o: &BinOp) -> bool {
    matches!(o, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_))
}

/// `let mut i = a; while i < e { ..; i += 1; }` => `for i in a..e { .. }`, when `i` is not used otherwise and `e` does not change
fn counting_while(b: &mut Block) {
    let mut j = 0;
    while j < b.stmts.len() {
        let hit = (|| -> Option<(usize, Stmt)> {
            let (name, start) = match &b.stmts[j] {
                Stmt::Local(Local { pat, init: Some(i), .. }) if i.diverge.is_none() => match pat {
                    Pat::Ident(p) if p.mutability.is_some() && p.subpat.is_none() => (p.ident.to_string(), (*i.expr).clone()),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(p) if p.mutability.is_some() => (p.ident.to_string(), (*i.expr).clone()),
                        _ => return None,
                    },
                    _ => return None,
                },
                _ => return None,
            };
            let w = (j + 1..b.stmts.len()).find(|k| count_ident(&b.stmts[*k..*k + 1], &name) > 0)?;
            if count_ident(&b.stmts[w + 1..], &name) > 0 {
                return None;
            }
            let wh = match &b.stmts[w] {
                Stmt::Expr(Expr::While(x), _) => x,
                _ => return None,
            };
            let end = match strip_paren(&wh.cond) {
                Expr::Binary(c) if matches!(c.op, BinOp::Lt(_)) && norm(strip_paren(&c.left)) == name => (*c.right).clone(),
                _ => return None,
            };
            let base = match strip_paren(&end) {
                Expr::Lit(_) => None,
                Expr::Path(p) => Some(norm(p)),
                Expr::MethodCall(m) if m.method == "len" && matches!(strip_paren(&m.receiver), Expr::Path(_)) => Some(norm(&m.receiver)),
                _ => return None,
            };
            let mut body = wh.body.clone();
            match body.stmts.pop()? {
                Stmt::Expr(Expr::Binary(x), Some(_)) if matches!(x.op, BinOp::AddAssign(_)) && norm(&x.left) == name && norm(&x.right) == "1" => {}
                _ => return None,
            }
            let mut t = Touches(&name, false);
            t.visit_block_mut(&mut body.clone());
            if t.1 {
                return None;
            }
            if let Some(base) = base {
                if base == name {
                    return None;
                }
                let mut t = Touches(&base, false);
                t.visit_block_mut(&mut body.clone());
                if t.1 {
                    return None;
                }
            }
            let (i, label) = (id(&name), &wh.label);
            let st = &body.stmts;
            Some((w, Stmt::Expr(ex(quote!(#label for #i in #start..#end { #(#st)* })), None)))
        })();
        if let Some((w, s)) = hit {
            b.stmts[w] = s;
            b.stmts.remove(j);
        } else {
            j += 1;
        }
    }
}

/// what decreases in a `while` loop, by the look of its condition
fn guess_decreases(c: &Expr) -> TokenStream {
    match strip_paren(c) {
        Expr::Binary(b) => {
            let (x, y) = (&b.left, &b.right);
            match b.op {
                BinOp::And(_) => guess_decreases(x),
                BinOp::Lt(_) | BinOp::Le(_) => quote!((#y) as int - (#x) as int),
                BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Ne(_) => quote!((#x) as int - (#y) as int),
                _ => quote!(0int),
            }
        }
        _ => quote!(0int),
    }
}

impl VisitMut for Lower {
    fn visit_block_mut(&mut self, b: &mut Block) {
        counting_while(b);
        // let-bound iterators
        let mut i = 0;
        while i < b.stmts.len() {
            let mut repl: Option<Vec<Stmt>> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() {
                        let mut pre = vec![];
                        let save = self.tmp;
                        match self.parse_iter(&init.expr, true, &mut pre) {
                            Some(it) if count_ident(&b.stmts[i + 1..], &p.ident.to_string()) == 1 && !matches!(strip_paren(&init.expr), Expr::Path(_)) => {
                                self.env.insert(p.ident.to_string(), it);
                                repl = Some(stmts(quote!(#(#pre)*)));
                            }
                            _ => self.tmp = save,
                        }
                    }
                }
            }
            if let Some(r) = repl {
                let n = r.len();
                b.stmts.splice(i..i + 1, r);
                i += n;
            } else {
                let mut s = b.stmts[i].clone();
                self.visit_stmt_mut(&mut s);
                b.stmts[i] = s;
                i += 1;
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let k = self.counter;
                if self.native.contains(&k) {
                    self.next_loop(format!("for {} in {}", norm(&f.pat), norm(&f.expr)));
                    let spec: Stmt = parse_quote!(vx_loop_spec!(#k, native););
                    visit_mut::visit_block_mut(self, &mut f.body);
                    f.body.stmts.insert(0, spec);
                    return;
                }
                let mut pre = vec![];
                let it = match self.map_iter(&f.expr, &f.pat, &mut pre) {
                    Some(i) => Some(i),
                    None => self.parse_iter(&f.expr, false, &mut pre),
                };
                match it {
                    Some(it) => {
                        self.next_loop(format!("for {} in {}", norm(&f.pat), norm(&f.expr)));
                        let body = &f.body;
                        let label = f.label.to_token_stream();
                        let st = &body.stmts;
                        match self.build_loop(it, &f.pat, quote!(#(#st)*), k, label, pre, quote!()) {
                            Some(t) => {
                                *e = ex(quote!({ #t }));
                            }
                            None => {
                                if self.unsupported.is_none() {
                                    self.unsupported = Some("iterator without length".into());
                                }
                                return;
                            }
                        }
                    }
                    None => {
                        self.unsupported = Some(format!("for loop over {}", norm(&f.expr)));
                        return;
                    }
                }
                // children (pre-order numbering)
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::While(w) => {
                if w.body.stmts.first().map(|s| norm(s).starts_with("vx_loop_spec!")).unwrap_or(false) {
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                let k = self.next_loop(format!("while {}", norm(&w.cond)));
                let d = guess_decreases(&w.cond);
                let spec: Stmt = parse_quote!(vx_loop_spec!(#k, while, #d););
                let (ks, ke) = (format!("loop {k} start"), format!("loop {k} end"));
                let s1: Stmt = parse_quote!(vx_ghost!(#ks););
                let s2: Stmt = parse_quote!(vx_ghost!(#ke););
                w.body.stmts.insert(0, s1);
                w.body.stmts.insert(0, spec);
                if let Some(Stmt::Expr(_, semi @ None)) = w.body.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                w.body.stmts.push(s2);
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Loop(w) => {
                let k = self.next_loop("loop".into());
                let spec: Stmt = parse_quote!(vx_loop_spec!(#k, while););
                let (ks, ke) = (format!("loop {k} start"), format!("loop {k} end"));
                let s1: Stmt = parse_quote!(vx_ghost!(#ks););
                let s2: Stmt = parse_quote!(vx_ghost!(#ke););
                w.body.stmts.insert(0, s1);
                w.body.stmts.insert(0, spec);
                if let Some(Stmt::Expr(_, semi @ None)) = w.body.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                w.body.stmts.push(s2);
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(t) = self.lower_terminal(&m) {
                    *e = ex(t);
                } else if let Some(t) = self.lower_option(&m) {
                    *e = ex(t);
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Call(c) if c.args.len() == 2 && matches!(norm(&c.func).trim_start_matches("std::").trim_start_matches("core::"), "cmp::min" | "cmp::max" | "min" | "max") => {
                let n = norm(&c.func);
                *e = ex(min_max(n.rsplit("::").next().unwrap(), &c.args[0], &c.args[1]));
                visit_mut::visit_expr_mut(self, e);
            }
            // `(a, b) = e`
            Expr::Assign(a) if matches!(strip_paren(&a.left), Expr::Tuple(_)) => {
                let Expr::Tuple(t) = strip_paren(&a.left) else { unreachable!() };
                let v: Vec<Ident> = (0..t.elems.len()).map(|k| id(&format!("vx_d{k}"))).collect();
                let (l, r): (Vec<_>, _) = (t.elems.iter().cloned().collect(), &a.right);
                let set: Vec<TokenStream> = l.iter().zip(&v).filter(|(l, _)| !matches!(l, Expr::Infer(_))).map(|(l, v)| quote!(#l = #v;)).collect();
                *e = ex(quote!({ let (#(#v),*) = #r; #(#set)* }));
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Call(c) if norm(&c.func) == "Clone::clone" && c.args.len() == 1 && matches!(strip_paren(&c.args[0]), Expr::Reference(r) if r.mutability.is_none()) => {
                let Expr::Reference(r) = strip_paren(&c.args[0]) else { unreachable!() };
                let x = &r.expr;
                let n: Expr = if matches!(**x, Expr::Path(_)) { parse_quote!(#x.clone()) } else { parse_quote!((#x).clone()) };
                *e = n;
                self.visit_expr_mut(e);
            }
            Expr::Call(c) if norm(&c.func) == "Vec::from_iter" && c.args.len() == 1 => {
                let mut pre = vec![];
                if let Some(it) = self.parse_iter(&c.args[0], true, &mut pre) {
                    if let Some(t) = self.collect(it, pre) {
                        *e = ex(t);
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Match(m) => {
                if let Some(n) = self.lower_slice_match(m) {
                    *e = n;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::If(i) => {
                // if let SLICE_PATTERN = x { a } else { b }
                if let Expr::Let(l) = &*i.cond {
                    if contains_slice_pat(&l.pat) {
                        let (sc, th) = (&l.expr, &i.then_branch);
                        let el = match &i.else_branch {
                            Some((_, b)) => quote!(#b),
                            None => quote!({}),
                        };
                        let p = &l.pat;
                        let m: ExprMatch = parse_quote!(match #sc { #p => #th, _ => #el });
                        if let Some(n) = self.lower_slice_match(&m) {
                            *e = n;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn min_max(name: &str, a: &Expr, b: &Expr) -> TokenStream {
    // which of two equal numbers is taken makes no difference
    if name == "min" {
        quote!({ let vx_ma = #a; let vx_mb = #b; if vx_ma <= vx_mb { vx_ma } else { vx_mb } })
    } else {
        quote!({ let vx_ma = #a; let vx_mb = #b; if vx_ma > vx_mb { vx_ma } else { vx_mb } })
    }
}
struct HasJump(bool);
impl VisitMut for HasJump {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl Lower {
    /// combinators of Option with a closure literal become a match
    fn lower_option(&mut self, m: &ExprMethodCall) -> Option<TokenStream> {
        let name = m.method.to_string();
        let r0 = &m.receiver;
        match (name.as_str(), m.args.len()) {
            // bool
            ("then", 1) => {
                if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                    let mut j = HasJump(false);
                    j.visit_expr_mut(&mut (*c.body).clone());
                    if c.inputs.is_empty() && !j.0 {
                        let b = &c.body;
                        return Some(quote!((if #r0 { Some(#b) } else { None })));
                    }
                }
                return None;
            }
            ("then_some", 1) => {
                let a = &m.args[0];
                return Some(quote!({ let vx_c = #r0; let vx_t = #a; if vx_c { Some(vx_t) } else { None } }));
            }
            // Ordering
            ("then_with", 1) => {
                if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                    let mut j = HasJump(false);
                    j.visit_expr_mut(&mut (*c.body).clone());
                    if c.inputs.is_empty() && !j.0 {
                        let b = &c.body;
                        return Some(quote!((match #r0 { std::cmp::Ordering::Equal => #b, vx_o => vx_o })));
                    }
                }
                return None;
            }
            // numbers
            ("min" | "max", 1) if self.parse_iter(&m.receiver, true, &mut vec![]).is_none() => return Some(min_max(&name, r0, &m.args[0])),
            ("ok_or", 1) => {
                let a = &m.args[0];
                return Some(quote!({ let vx_e = #a; match #r0 { Some(vx_o) => Ok(vx_o), None => Err(vx_e) } }));
            }
            // slices
            ("to_vec", 0) => return Some(quote!(vx_vec_from(&#r0))),
            ("fill", 1) => {
                let a = &m.args[0];
                if let Expr::Index(i) = strip_paren(r0) {
                    if matches!(strip_paren(&i.index), Expr::Range(_)) {
                        return Some(quote!(vx_fill(&mut #r0, #a)));
                    }
                }
                return Some(quote!(vx_fill(#r0.vx_ms(), #a)));
            }
            _ => {}
        }
        let (dflt, c) = match (name.as_str(), m.args.len()) {
            ("map" | "map_err" | "and_then" | "is_some_and" | "is_none_or" | "unwrap_or_else" | "or_else" | "filter", 1) => (None, &m.args[0]),
            ("map_or" | "map_or_else", 2) => (Some(&m.args[0]), &m.args[1]),
            _ => return None,
        };
        if self.parse_iter(&m.receiver, true, &mut vec![]).is_some() {
            return None;
        }
        let r = &m.receiver;
        // `|p| body`, or the name of a function
        let jumps = |b: &Expr| {
            let mut j = HasJump(false);
            j.visit_expr_mut(&mut b.clone());
            j.0
        };
        let thunk = |e: &Expr| -> Option<TokenStream> {
            match strip_paren(e) {
                Expr::Closure(c) if c.inputs.is_empty() && !jumps(&c.body) => Some(c.body.to_token_stream()),
                Expr::Path(p) => Some(quote!(#p())),
                _ => None,
            }
        };
        if name == "unwrap_or_else" || name == "or_else" {
            let b = thunk(c)?;
            return Some(if name == "or_else" { quote!((match #r { Some(vx_o) => Some(vx_o), None => #b })) } else { quote!((match #r { Some(vx_o) => vx_o, None => #b })) });
        }
        let (p, b) = match strip_paren(c) {
            Expr::Closure(c) if c.inputs.len() == 1 && !jumps(&c.body) => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                (p.to_token_stream(), c.body.to_token_stream())
            }
            Expr::Path(f) if name != "filter" => {
                let last = f.path.segments.last()?.ident.to_string();
                if last.chars().next()?.is_uppercase() && !matches!(last.as_str(), "Some" | "Ok" | "Err") {
                    return None;
                }
                (quote!(vx_o), quote!(#f(vx_o)))
            }
            _ => return None,
        };
        Some(match name.as_str() {
            "map" => quote!((match #r { Some(#p) => Some(#b), None => None })),
            "map_err" => quote!((match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) })),
            "and_then" => quote!((match #r { Some(#p) => #b, None => None })),
            "is_some_and" => quote!((match #r { Some(#p) => #b, None => false })),
            "is_none_or" => quote!((match #r { Some(#p) => #b, None => true })),
            "filter" => quote!((match #r { Some(vx_o) => if { let #p = &vx_o; #b } { Some(vx_o) } else { None }, None => None })),
            "map_or" => match dflt? {
                d @ (Expr::Lit(_) | Expr::Path(_)) => quote!((match #r { Some(#p) => #b, None => #d })),
                d => quote!({ let vx_d = #d; match #r { Some(#p) => #b, None => vx_d } }),
            },
            _ => {
                let d = thunk(dflt?)?;
                quote!((match #r { Some(#p) => #b, None => #d }))
            }
        })
    }
}

// ---------------------------------------------------------------- macros

pub struct Macros {
    pub unsupported: Option<String>,
}
struct CommaExprs(Punctuated<Expr, Token![,]>);
impl parse::Parse for CommaExprs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        Ok(CommaExprs(Punctuated::parse_terminated(i)?))
    }
}
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        let _: Token![,] = i.parse()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            let _: Token![if] = i.parse()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _: Option<Token![,]> = i.parse()?;
        Ok(MatchesArgs(e, p, g))
    }
}
struct Repeat(Expr, Expr);
impl parse::Parse for Repeat {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        let _: Token![;] = i.parse()?;
        Ok(Repeat(e, i.parse()?))
    }
}

impl Macros {
    fn expand(&mut self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a: CommaExprs = parse2(m.tokens.clone()).ok()?;
                let c = a.0.first()?;
                Some(quote!(vx_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a: CommaExprs = parse2(m.tokens.clone()).ok()?;
                let (x, y) = (&a.0[0], &a.0[1]);
                if name.ends_with("eq") {
                    Some(quote!(vx_assert((#x) == (#y))))
                } else {
                    Some(quote!(vx_assert((#x) != (#y))))
                }
            }
            "todo" | "panic" | "unreachable" | "unimplemented" => Some(quote!(vx_panic())),
            "matches" => {
                let a: MatchesArgs = parse2(m.tokens.clone()).ok()?;
                let (e, p) = (&a.0, &a.1);
                let g = a.2.as_ref().map(|g| quote!(if #g));
                Some(quote!((match #e { #p #g => true, _ => false })))
            }
            "smallvec" | "vec" => {
                if let Ok(r) = parse2::<Repeat>(m.tokens.clone()) {
                    let (a, b) = (r.0, r.1);
                    Some(quote!(vx_vec_repeat(#a, #b)))
                } else {
                    let t = &m.tokens;
                    Some(quote!(vec![#t]))
                }
            }
            "write" => {
                // write!(text, "{}", value)
                let a: CommaExprs = parse2(m.tokens.clone()).ok()?;
                if a.0.len() == 3 {
                    let (d, f, v) = (&a.0[0], &a.0[1], &a.0[2]);
                    if norm(f) == "\"{}\"" {
                        return Some(quote!(vx_write(&mut #d, #v)));
                    }
                }
                self.unsupported = Some("write! with a format".to_string());
                None
            }
            "vx_ghost" | "vx_loop_spec" => None,
            _ => {
                self.unsupported = Some(format!("macro {name}!"));
                None
            }
        }
    }
}
impl VisitMut for Macros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("vec") && parse2::<Repeat>(m.mac.tokens.clone()).is_err() {
                return;
            }
            if let Some(t) = self.expand(&m.mac) {
                *e = ex(t);
            } else {
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let m = m.clone();
            if let Some(t) = self.expand(&m.mac) {
                *s = Stmt::Expr(ex(t), m.semi_token.or(Some(Default::default())));
                if norm(s).starts_with("vx_panic") {
                    // keep the type of a diverging tail expression
                    if let Stmt::Expr(_, semi) = s {
                        if m.semi_token.is_none() {
                            *semi = None;
                        }
                    }
                } else if m.semi_token.is_none() {
                    if let Stmt::Expr(_, semi) = s {
                        *semi = None;
                    }
                }
            } else {
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// `x >> n` with `x: &u64` is `*x >> n` (the verifier has no operators on references)
pub struct DerefOps {
    refs: BTreeSet<String>,
}
impl DerefOps {
    pub fn run(sig: &Signature, b: &mut Block) {
        let mut d = DerefOps { refs: Default::default() };
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                if let (Pat::Ident(p), "&Word" | "&u64" | "&u32" | "&u8" | "&WidthInt") = (&*t.pat, norm(&t.ty).as_str()) {
                    d.refs.insert(p.ident.to_string());
                }
            }
        }
        d.visit_block_mut(b);
    }
    fn fix(&self, e: &mut Expr) {
        if let Expr::Path(p) = strip_paren(e) {
            if p.path.segments.len() == 1 && self.refs.contains(&p.path.segments[0].ident.to_string()) {
                *e = parse_quote!((*#e));
            }
        } else if matches!(strip_paren(e), Expr::MethodCall(_)) && is_ref_expr(e) {
            *e = parse_quote!((*#e));
        }
    }
}
fn is_ref_expr(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Reference(r) => matches!(strip_paren(&r.expr), Expr::Index(i) if !matches!(strip_paren(&i.index), Expr::Range(_))),
        Expr::MethodCall(m) if m.method == "unwrap" || m.method == "expect" => match strip_paren(&m.receiver) {
            Expr::MethodCall(n) => n.method == "last" || n.method == "first" || (n.method == "get" && n.args.len() == 1),
            _ => false,
        },
        Expr::If(f) => f.then_branch.stmts.len() == 1 && matches!(&f.then_branch.stmts[0], Stmt::Expr(e, None) if is_ref_expr(e)),
        _ => false,
    }
}
impl VisitMut for DerefOps {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            let n = p.ident.to_string();
            if is_ref_expr(&i.expr) {
                self.refs.insert(n);
            } else {
                self.refs.remove(&n);
            }
        }
    }
    fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
        visit_mut::visit_expr_binary_mut(self, b);
        use BinOp::*;
        match b.op {
            Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | BitXor(_) | Shl(_) | Shr(_) => {
                self.fix(&mut b.left);
                self.fix(&mut b.right);
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_) => {
                self.fix(&mut b.right);
            }
            _ => {}
        }
    }
    fn visit_expr_unary_mut(&mut self, u: &mut ExprUnary) {
        visit_mut::visit_expr_unary_mut(self, u);
        if matches!(u.op, UnOp::Not(_) | UnOp::Neg(_)) {
            self.fix(&mut u.expr);
        }
    }
}

/// `&mut v[a..b]` is `&mut v.vx_ms()[a..b]` (the verifier has no contract for indexing a Vec mutably by a range)
pub struct MutRanges;
impl VisitMut for MutRanges {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // `v[a..b].copy_from_slice(..)`
        if let Expr::MethodCall(m) = e {
            if ["copy_from_slice", "clone_from_slice", "split_at_mut", "swap", "copy_within"].contains(&m.method.to_string().as_str()) {
                if let Expr::Index(i) = &mut *m.receiver {
                    if matches!(strip_paren(&i.index), Expr::Range(_)) {
                        let b = &i.expr;
                        i.expr = parse_quote!(#b.vx_ms());
                    }
                }
            }
        }
        // tuples are compared field by field
        if let Expr::Binary(b) = e {
            if let (BinOp::Eq(_) | BinOp::Ne(_), Expr::Tuple(l), Expr::Tuple(r)) = (&b.op, strip_paren(&b.left), strip_paren(&b.right)) {
                if l.elems.len() == r.elems.len() && !l.elems.is_empty() {
                    let (x, y): (Vec<&Expr>, Vec<&Expr>) = (l.elems.iter().collect(), r.elems.iter().collect());
                    let t = if matches!(b.op, BinOp::Eq(_)) { quote!((#((#x) == (#y))&&*)) } else { quote!((#((#x) != (#y))||*)) };
                    *e = ex(t);
                    return;
                }
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(i) = &mut *r.expr {
                    if matches!(strip_paren(&i.index), Expr::Range(_)) {
                        let b = &i.expr;
                        i.expr = parse_quote!(#b.vx_ms());
                    }
                }
            }
        }
    }
}

/// `a | b` on two `bool`s is `a || b` with both sides evaluated (the verifier has no bitwise operators on `bool`)
pub struct BoolOps {
    bools: BTreeSet<String>,
}
impl BoolOps {
    pub fn run(sig: &Signature, b: &mut Block) {
        let mut d = BoolOps { bools: Default::default() };
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                if let (Pat::Ident(p), "bool") = (&*t.pat, norm(&t.ty).as_str()) {
                    d.bools.insert(p.ident.to_string());
                }
            }
        }
        d.visit_block_mut(b);
    }
    fn is_bool(&self, e: &Expr) -> bool {
        use BinOp::*;
        match strip_paren(e) {
            Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.bools.contains(&i.to_string())),
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && self.is_bool(&u.expr),
            Expr::Binary(b) => match b.op {
                Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_) => true,
                BitAnd(_) | BitOr(_) | BitXor(_) => self.is_bool(&b.left) || self.is_bool(&b.right),
                _ => false,
            },
            Expr::MethodCall(m) => ["is_some", "is_none", "is_empty", "is_ok", "is_err"].contains(&m.method.to_string().as_str()),
            Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if self.is_bool(e)),
            Expr::If(f) => matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(e, None)) if self.is_bool(e)),
            _ => false,
        }
    }
    fn bind(&mut self, p: &Pat, is: bool) {
        if let Pat::Ident(i) = p {
            let n = i.ident.to_string();
            if is {
                self.bools.insert(n);
            } else {
                self.bools.remove(&n);
            }
        }
    }
}
impl VisitMut for BoolOps {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let init = l.init.as_ref().map(|i| (*i.expr).clone());
        match &l.pat {
            Pat::Type(t) => self.bind(&t.pat, norm(&t.ty) == "bool"),
            Pat::Tuple(t) => {
                let over = matches!(init.as_ref().map(strip_paren), Some(Expr::MethodCall(m)) if m.method.to_string().starts_with("overflowing_"));
                for (k, p) in t.elems.iter().enumerate() {
                    let is = over && k == 1 || matches!(init.as_ref().map(strip_paren), Some(Expr::Tuple(v)) if v.elems.get(k).is_some_and(|e| self.is_bool(e)));
                    self.bind(p, is);
                }
            }
            p => {
                let is = init.as_ref().is_some_and(|e| self.is_bool(e));
                self.bind(p, is);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // `u32::from(b)` of a truth value
        if let Expr::Call(c) = e {
            let f = norm(&c.func);
            if let (Some(t), 1) = (f.strip_suffix("::from"), c.args.len()) {
                if ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].contains(&t) && self.is_bool(&c.args[0]) {
                    let (a, t) = (&c.args[0], id(t));
                    *e = parse_quote!((if #a { 1 as #t } else { 0 as #t }));
                    return;
                }
            }
        }
        let Expr::Binary(b) = e else { return };
        use BinOp::*;
        if !(self.is_bool(&b.left) || self.is_bool(&b.right)) {
            return;
        }
        let (l, r) = (&b.left, &b.right);
        *e = match b.op {
            BitOr(_) => parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l || vx_r }),
            BitAnd(_) => parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l && vx_r }),
            BitXor(_) => parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l != vx_r }),
            BitOrAssign(_) if matches!(**l, Expr::Path(_)) => parse_quote!(#l = { let vx_r = #r; #l || vx_r }),
            BitAndAssign(_) if matches!(**l, Expr::Path(_)) => parse_quote!(#l = { let vx_r = #r; #l && vx_r }),
            BitXorAssign(_) if matches!(**l, Expr::Path(_)) => parse_quote!(#l = { let vx_r = #r; #l != vx_r }),
            _ => return,
        };
    }
}

/// `1 & x` is read as `x & 1` (the value on the left is a literal, so the order of evaluation is the same)
pub struct LitRight;
impl VisitMut for LitRight {
    fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
        visit_mut::visit_expr_binary_mut(self, b);
        use BinOp::*;
        let lit = |e: &Expr| matches!(strip_paren(e), Expr::Lit(l) if matches!(l.lit, Lit::Int(_)));
        if matches!(b.op, BitAnd(_) | BitOr(_) | BitXor(_)) && lit(&b.left) && !lit(&b.right) {
            std::mem::swap(&mut b.left, &mut b.right);
            if matches!(*b.right, Expr::Paren(_)) { let r = strip_paren(&b.right).clone(); *b.right = r; }
            let l = (*b.left).clone();
            if !matches!(l, Expr::Path(_) | Expr::Paren(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Index(_)) {
                b.left = Box::new(parse_quote!((#l)));
            }
        }
    }
}
