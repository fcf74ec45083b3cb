//! `--inline NAME`: a function without a contract whose body cannot be turned into one (a `&mut` parameter, a closure parameter,
//! an iterator) is substituted at its call sites, so that its callers' contracts are checked against what it does.
//! A body with `?` or `return` is substituted only where leaving it leaves the caller with the same value.
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    module: String,
    self_ty: Option<String>,
    generics: Vec<String>,
    outer: Vec<String>,
    recv: Option<bool>, // Some(true): by reference
    params: Vec<(Pat, Type)>,
    kind: String,
    block: Block,
    has_try: bool,
    has_return: bool,
    plain_return: bool,
}

fn s<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

fn kind_of(r: &ReturnType) -> String {
    let ReturnType::Type(_, t) = r else { return String::new() };
    let Type::Path(p) = &**t else { return String::new() };
    let Some(l) = p.path.segments.last() else { return String::new() };
    match l.ident.to_string().as_str() {
        "Option" => "O".into(),
        "Result" => {
            if let PathArguments::AngleBracketed(a) = &l.arguments {
                if let Some(e) = a.args.iter().nth(1) { return format!("R{}", s(e).rsplit(':').next().unwrap().trim()); }
            }
            "RError".into()
        }
        _ => String::new(),
    }
}

#[derive(Default)]
struct Exits { tri: bool, ret: bool, plain: bool }
impl<'a> Visit<'a> for Exits {
    fn visit_expr_try(&mut self, t: &'a ExprTry) { self.tri = true; visit::visit_expr_try(self, t); }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        let ok = match r.expr.as_deref() {
            Some(Expr::Call(c)) => matches!(s(&c.func).rsplit(' ').next(), Some("Err")),
            Some(Expr::Path(p)) => p.path.is_ident("None"),
            _ => false,
        };
        if !ok { self.plain = true; }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}

struct Idents(HashSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a Ident) { self.0.insert(i.to_string()); }
}
fn idents<T>(f: impl Fn(&mut Idents) -> T) -> HashSet<String> { let mut i = Idents(HashSet::new()); f(&mut i); i.0 }

fn tparams(g: &Generics) -> Vec<String> { g.type_params().map(|t| t.ident.to_string()).collect() }

fn helper(sig: &Signature, block: &Block, module: &str, self_ty: Option<String>, outer: Vec<String>) -> Option<Helper> {
    let mut recv = None;
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if r.colon_token.is_some() || (r.reference.is_some() && r.mutability.is_some()) { return None; }
                recv = Some(r.reference.is_some());
            }
            FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
        }
    }
    let mut e = Exits::default();
    e.visit_block(block);
    Some(Helper { module: module.into(), self_ty, generics: tparams(&sig.generics), outer, recv, params, kind: kind_of(&sig.output), block: block.clone(), has_try: e.tri, has_return: e.ret, plain_return: e.plain })
}

fn collect(items: &[Item], module: &str, names: &HashSet<String>, out: &mut HashMap<String, Vec<Helper>>) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, c)) = &m.content {
                let sub = if module.is_empty() { m.ident.to_string() } else { format!("{module}::{}", m.ident) };
                collect(c, &sub, names, out);
            },
            Item::Fn(f) if names.contains(&f.sig.ident.to_string()) => {
                if let Some(h) = helper(&f.sig, &f.block, module, None, vec![]) { out.entry(f.sig.ident.to_string()).or_default().push(h); }
            }
            Item::Impl(i) => for x in &i.items {
                if let ImplItem::Fn(f) = x {
                    if names.contains(&f.sig.ident.to_string()) {
                        if let Some(h) = helper(&f.sig, &f.block, module, Some(s(&i.self_ty)), tparams(&i.generics)) {
                            out.entry(f.sig.ident.to_string()).or_default().push(h);
                        }
                    }
                }
            },
            _ => {}
        }
    }
}

struct Subst { types: HashMap<String, Type>, slf: Option<Ident> }
impl VisitMut for Subst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(n) = self.types.get(&p.path.segments[0].ident.to_string()) { *t = n.clone(); return; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() { return; }
        if p.segments.len() == 1 && p.segments[0].ident == "self" {
            if let Some(n) = &self.slf { p.segments[0].ident = n.clone(); }
            return;
        }
        if let Some(Type::Path(n)) = self.types.get(&p.segments[0].ident.to_string()) {
            if n.qself.is_none() {
                let mut q = n.path.clone();
                for x in p.segments.iter().skip(1) { q.segments.push(x.clone()); }
                *p = q;
            }
        }
    }
}
struct NoLife;
impl VisitMut for NoLife {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = None; visit_mut::visit_type_reference_mut(self, r); }
}

struct Inliner<'a> {
    h: &'a HashMap<String, Helper>,
    name: String, // the function being rewritten
    module: String,
    self_ty: Option<String>,
    scope: HashSet<String>, // type parameters in scope
    kind: Option<String>,   // None inside a closure
    locals: HashSet<String>,
    n: usize,
    done: Vec<(String, String)>, // (helper module, idents used by its body)
    used: HashMap<String, HashSet<String>>,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Plain, Try, Tail }

impl<'a> Inliner<'a> {
    fn target(&self, e: &Expr) -> Option<(&'a Helper, String, Option<Expr>, Vec<Expr>, Vec<Type>)> {
        let (n, mut args, targs, recv) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let l = p.path.segments.last()?;
                (l.ident.to_string(), c.args.iter().cloned().collect::<Vec<_>>(), l.arguments.clone(), None)
            }
            Expr::MethodCall(m) => (m.method.to_string(), m.args.iter().cloned().collect(), m.turbofish.clone().map_or(PathArguments::None, PathArguments::AngleBracketed), Some((*m.receiver).clone())),
            _ => return None,
        };
        if n == self.name { return None; }
        if matches!(e, Expr::Call(_)) && self.locals.contains(&n) { return None; }
        let h = self.h.get(&n)?;
        let recv = match (recv, h.recv) {
            (Some(r), Some(_)) => Some(r),
            (None, Some(_)) if !args.is_empty() => {
                let r = args.remove(0);
                Some(match r { Expr::Reference(x) => (*x.expr).clone(), o => o })
            }
            (None, None) => None,
            _ => return None,
        };
        if args.len() != h.params.len() { return None; }
        let t = match targs {
            PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect(),
            _ => vec![],
        };
        Some((h, n, recv, args, t))
    }

    fn expand(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        let (h, name, recv, args, targs) = self.target(e)?;
        if h.has_try || h.has_return {
            let same = match (&self.kind, mode) {
                (_, Mode::Plain) => false,
                (Some(k), _) => *k == h.kind && !k.is_empty(),
                (None, Mode::Tail) => true,
                (None, _) => false,
            };
            if !same || (mode == Mode::Try && h.plain_return) { return None; }
        }
        let mut body = h.block.clone();
        let mut used = idents(|i| i.visit_block(&body));
        // type parameters
        let mut types = HashMap::new();
        let mut lost = HashSet::new();
        for (i, g) in h.generics.iter().enumerate() {
            match targs.get(i) {
                Some(Type::Infer(_)) | None => if !self.scope.contains(g) { lost.insert(g.clone()); },
                Some(t) => { if s(t) != *g { types.insert(g.clone(), t.clone()); } }
            }
        }
        for g in &h.outer { if !self.scope.contains(g) { lost.insert(g.clone()); } }
        if used.iter().any(|u| lost.contains(u)) { return None; }
        if h.self_ty != self.self_ty && used.contains("Self") { return None; }
        self.n += 1;
        let n = self.n;
        let mut pre: Vec<Stmt> = vec![];
        let mut slf = None;
        if let (Some(r), Some(by_ref)) = (&recv, h.recv) {
            if s(r) != "self" || h.self_ty != self.self_ty {
                let v = quote::format_ident!("vx_s{n}");
                pre.push(if by_ref && s(r) != "self" { parse_quote!(let #v = &#r;) } else { parse_quote!(let #v = #r;) });
                slf = Some(v);
            }
        }
        let mut sub = Subst { types, slf };
        sub.visit_block_mut(&mut body);
        let mut binds: Vec<Stmt> = vec![];
        for (i, ((pat, ty), a)) in h.params.iter().zip(args).enumerate() {
            let v = quote::format_ident!("vx_p{n}_{i}");
            let mut ty = ty.clone();
            sub.visit_type_mut(&mut ty);
            NoLife.visit_type_mut(&mut ty);
            let m = idents(|x| x.visit_type(&ty));
            let ann = matches!(ty, Type::Reference(_)) && !m.iter().any(|x| lost.contains(x) || x == "Self") && !s(&ty).contains("impl ");
            pre.push(if ann { parse_quote!(let #v: #ty = #a;) } else { parse_quote!(let #v = #a;) });
            if !matches!(pat, Pat::Wild(_)) { binds.push(parse_quote!(let #pat = #v;)); }
        }
        used.extend(h.params.iter().flat_map(|(_, t)| idents(|x| x.visit_type(t))));
        self.used.entry(h.module.clone()).or_default().extend(used);
        self.done.push((name, self.name.clone()));
        pre.extend(binds);
        pre.extend(body.stmts);
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: pre } }))
    }

    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => if let Some(x) = self.expand(e, Mode::Tail) { *e = x; },
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => { self.tail_block(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.tail(x); } }
            Expr::Match(m) => for a in &mut m.arms { self.tail(&mut a.body); },
            Expr::Paren(p) => self.tail(&mut p.expr),
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.tail(e); }
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(c) => {
                let k = self.kind.take();
                let mut b = (*c.body).clone();
                self.tail(&mut b);
                *c.body = b;
                visit_mut::visit_expr_mut(self, &mut c.body);
                self.kind = k;
                return;
            }
            Expr::Try(t) => {
                let x = self.expand(&t.expr, Mode::Try);
                if let Some(x) = x { *t.expr = x; }
            }
            Expr::Return(r) => if let Some(x) = &mut r.expr { let mut y = (**x).clone(); self.tail(&mut y); **x = y; },
            Expr::Call(_) | Expr::MethodCall(_) => {
                let x = self.expand(e, Mode::Plain);
                if let Some(x) = x { *e = x; }
            }
            _ => {}
        }
        // a helper passed as a value: `.map(helper)` -> `.map(|x| helper(x))`
        let eta = |a: &mut Expr, me: &mut Self| {
            let Expr::Path(p) = &*a else { return };
            let Some(l) = p.path.segments.last() else { return };
            let Some(h) = me.h.get(&l.ident.to_string()) else { return };
            if h.recv.is_some() || l.ident == me.name || me.locals.contains(&l.ident.to_string()) { return; }
            me.n += 1;
            let v: Vec<Ident> = (0..h.params.len()).map(|i| quote::format_ident!("vx_e{}_{i}", me.n)).collect();
            let f = &*a;
            *a = parse_quote!(|#(#v),*| #f(#(#v),*));
        };
        match e {
            Expr::MethodCall(m) => for a in m.args.iter_mut() { eta(a, self); },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn leaves(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(String, String)>) {
    match t {
        UseTree::Path(p) => { pre.push(p.ident.to_string()); leaves(&p.tree, pre, out); pre.pop(); }
        UseTree::Name(n) => {
            let n = n.ident.to_string();
            if n == "self" { out.push((pre.join("::"), pre.last().cloned().unwrap_or_default())); } else { out.push((format!("{}::{n}", pre.join("::")), n)); }
        }
        UseTree::Rename(r) => out.push((format!("{}::{}", pre.join("::"), r.ident), r.rename.to_string())),
        UseTree::Group(g) => for x in &g.items { leaves(x, pre, out); },
        UseTree::Glob(_) => {}
    }
}

/// names a module has: (name, absolute path)
fn scope_of(items: &[Item], module: &str) -> Vec<(String, String)> {
    let mut o = vec![];
    let here = if module.is_empty() { "crate".to_string() } else { format!("crate::{module}") };
    for it in items {
        let n = match it {
            Item::Use(u) => {
                let mut l = vec![];
                leaves(&u.tree, &mut vec![], &mut l);
                for (p, n) in l {
                    let p = if let Some(r) = p.strip_prefix("super::") {
                        match here.rsplit_once("::") { Some((b, _)) => format!("{b}::{r}"), None => p }
                    } else if let Some(r) = p.strip_prefix("self::") { format!("{here}::{r}") } else { p };
                    o.push((n, p));
                }
                continue;
            }
            Item::Fn(f) => f.sig.ident.to_string(),
            Item::Const(c) => c.ident.to_string(),
            Item::Struct(c) => c.ident.to_string(),
            Item::Enum(c) => c.ident.to_string(),
            Item::Trait(c) => c.ident.to_string(),
            Item::Type(c) => c.ident.to_string(),
            _ => continue,
        };
        o.push((n.clone(), format!("{here}::{n}")));
    }
    o
}

struct Run<'a> { h: &'a HashMap<String, Helper>, scopes: &'a HashMap<String, Vec<(String, String)>>, changed: bool, n: usize }

impl Run<'_> {
    fn module(&mut self, items: &mut Vec<Item>, module: &str) {
        let mut used: HashMap<String, HashSet<String>> = HashMap::new();
        for it in items.iter_mut() {
            match it {
                Item::Mod(m) => {
                    let sub = if module.is_empty() { m.ident.to_string() } else { format!("{module}::{}", m.ident) };
                    if let Some((_, c)) = &mut m.content { self.module(c, &sub); }
                }
                Item::Fn(f) => self.body(&f.sig.clone(), &mut f.block, module, None, &[], &mut used),
                Item::Impl(i) => {
                    let (st, g) = (s(&i.self_ty), tparams(&i.generics));
                    for x in &mut i.items { if let ImplItem::Fn(f) = x { self.body(&f.sig.clone(), &mut f.block, module, Some(st.clone()), &g, &mut used); } }
                }
                _ => {}
            }
        }
        let have: HashSet<String> = scope_of(items, module).into_iter().map(|x| x.0).collect();
        let mut add = HashSet::new();
        for (m, ids) in used {
            if m == module { continue; }
            for (n, p) in self.scopes.get(&m).into_iter().flatten() {
                if ids.contains(n) && !have.contains(n) && add.insert(n.clone()) {
                    let last = p.rsplit("::").next().unwrap();
                    let u: std::result::Result<Item, _> = if last == n { parse_str(&format!("use {p};")) } else { parse_str(&format!("use {p} as {n};")) };
                    if let Ok(u) = u { items.insert(0, u); }
                }
            }
        }
    }
    fn body(&mut self, sig: &Signature, b: &mut Block, module: &str, self_ty: Option<String>, outer: &[String], used: &mut HashMap<String, HashSet<String>>) {
        let mut scope: HashSet<String> = outer.iter().cloned().collect();
        scope.extend(tparams(&sig.generics));
        let mut loc = Locals(HashSet::new());
        loc.visit_signature(sig);
        loc.visit_block(b);
        let mut i = Inliner { locals: loc.0, h: self.h, name: sig.ident.to_string(), module: module.into(), self_ty, scope, kind: Some(kind_of(&sig.output)), n: self.n, done: vec![], used: HashMap::new() };
        i.tail_block(b);
        i.visit_block_mut(b);
        let _ = &i.module;
        self.n = i.n;
        if !i.done.is_empty() { self.changed = true; }
        for (m, u) in i.used { used.entry(m).or_default().extend(u); }
    }
}

struct Locals(HashSet<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
    fn visit_item(&mut self, _: &'a Item) {}
}

struct Count<'a>(&'a str, usize);
impl<'a> Visit<'a> for Count<'_> {
    fn visit_ident(&mut self, i: &'a Ident) { if i == self.0 { self.1 += 1; } }
}

pub fn inline(items: &mut Vec<Item>, names: &HashSet<String>) {
    for pass in 0..4 {
        let mut all = HashMap::new();
        collect(items, "", names, &mut all);
        let h: HashMap<String, Helper> = all.into_iter().filter(|(_, v)| v.len() == 1).map(|(k, mut v)| (k, v.pop().unwrap())).collect();
        let mut scopes = HashMap::new();
        fn sc(items: &[Item], module: &str, out: &mut HashMap<String, Vec<(String, String)>>) {
            out.insert(module.into(), scope_of(items, module));
            for it in items {
                if let Item::Mod(m) = it {
                    let sub = if module.is_empty() { m.ident.to_string() } else { format!("{module}::{}", m.ident) };
                    if let Some((_, c)) = &m.content { sc(c, &sub, out); }
                }
            }
        }
        sc(items, "", &mut scopes);
        let mut r = Run { h: &h, scopes: &scopes, changed: false, n: 0 };
        r.n = 10000 * pass;
        r.module(items, "");
        if !r.changed { break; }
    }
    // a helper nobody mentions any more is gone with its obligations
    for n in names {
        let mut c = Count(n, 0);
        for i in items.iter() { c.visit_item(i); }
        if c.1 == 1 { remove(items, n); }
    }
}

fn remove(items: &mut Vec<Item>, n: &str) {
    items.retain(|i| !matches!(i, Item::Fn(f) if f.sig.ident == n));
    for it in items.iter_mut() {
        match it {
            Item::Mod(m) => if let Some((_, c)) = &mut m.content { remove(c, n); },
            Item::Impl(i) if i.trait_.is_none() => i.items.retain(|x| !matches!(x, ImplItem::Fn(f) if f.sig.ident == n)),
            _ => {}
        }
    }
}
