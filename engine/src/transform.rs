//! Mechanical, syntax-directed rewriting of the compiler-expanded source into
//! the subset of Rust that Verus accepts.  Every rule is listed in DESIGN.md.
use crate::contracts::*;
use crate::spec::*;
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const EXT: &[&str] = &[
    "core", "alloc", "std", "digest", "generic_array", "rand_core", "subtle", "zeroize", "elliptic_curve", "curve25519_dalek", "sha2", "serde",
];

pub fn is_ext(s: &str) -> bool {
    EXT.contains(&s)
}

#[derive(Clone)]
pub struct Alias {
    pub generics: Generics,
    pub ty: Type,
}

pub struct Global {
    /// aliases to expand: (module path, name)
    pub aliases: HashMap<(String, String), Alias>,
    /// extension-trait methods: method name -> absolute path of the free function
    pub extm: HashMap<String, String>,
    pub names: Names,
    pub known_fns: HashSet<String>,
    pub children: HashSet<String>, // "a::b" existing local modules
}

pub struct Tx<'g> {
    pub g: &'g Global,
    pub module: String,
    pub raws: Vec<String>,
    pub nloop: usize,
    pub nclos: usize,
    pub ncalls: usize,
    /// the for loop being translated
    pub cur_loop: Option<usize>,
    /// parameters of type `&mut`
    pub mutrefs: BTreeSet<String>,
    pub fc: Option<FnC>,
    pub subst: HashMap<String, String>,
    pub noauto: bool,
    pub gens: Vec<String>,
    pub notes: Vec<String>,
    pub undecided: Vec<String>,
    pub rules: BTreeMap<String, usize>,
    /// `break` targets: stack of "has user break"
    pub self_subst: Option<Type>,
    pub rename_self: Option<String>,
    pub assigned: BTreeSet<String>,
}

fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn tstr<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn parse<T: parse::Parse>(s: &str) -> T {
    syn::parse_str::<T>(s).unwrap_or_else(|e| panic!("internal parse error {e} in {s}"))
}

pub fn subst_names(text: &str, subst: &HashMap<String, String>) -> std::result::Result<String, String> {
    // $name -> subst[name]
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() && (b[i + 1].is_alphabetic() || b[i + 1] == '_') {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let n: String = b[i + 1..j].iter().collect();
            match subst.get(&n) {
                Some(v) => out.push_str(v),
                None => return Err(format!("contract name ${n} has no counterpart in the code")),
            }
            i = j;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Ok(out)
}

fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

pub fn contains_barefn(t: &Type) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_type_bare_fn(&mut self, _: &'a TypeBareFn) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    visit::Visit::visit_type(&mut v, t);
    v.0
}

impl<'g> Tx<'g> {
    pub fn rule(&mut self, s: &str) {
        *self.rules.entry(s.to_string()).or_default() += 1;
    }
    fn raw(&mut self, s: String) -> usize {
        self.raws.push(s);
        self.raws.len() - 1
    }

    fn fix_root(&mut self, p: &mut Path) {
        if p.segments.len() < 2 {
            return;
        }
        let f = p.segments[0].ident.to_string();
        let local = self.g.children.contains(&format!("{}::{}", self.module, f)) && p.leading_colon.is_none();
        if is_ext(&f) && !local && !self.subst.contains_key(&f) {
            p.leading_colon = None;
            let mut np: Path = parse("crate::ext");
            for s in p.segments.iter() {
                np.segments.push(s.clone());
            }
            *p = np;
            self.rule("external crate path -> shim path");
        }
    }

    pub fn bounds(&mut self, b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
        let mut out: punctuated::Punctuated<TypeParamBound, Token![+]> = punctuated::Punctuated::new();
        let is_digest = b.iter().any(|x| matches!(x, TypeParamBound::Trait(t) if last_seg(&t.path) == "HashMarker"));
        if is_digest {
            out.push(parse::<TypeParamBound>("crate::vx::Digest"));
            self.rule("BlockSizeUser+Default+FixedOutput+HashMarker -> Digest");
        }
        for x in b.iter() {
            if let TypeParamBound::Trait(t) = x {
                let n = last_seg(&t.path);
                if n == "IsLess" || n == "IsLessOrEqual" {
                    self.rule("drop type-level bound IsLess/IsLessOrEqual");
                    continue;
                }
                if is_digest && ["BlockSizeUser", "Default", "FixedOutput", "HashMarker"].contains(&n.as_str()) {
                    continue;
                }
                if n == "ArrayLength" {
                    out.push(parse::<TypeParamBound>("crate::vx::ArrayLength"));
                    continue;
                }
                if n == "AsRef" {
                    out.push(parse::<TypeParamBound>("crate::vx::AsRefU8"));
                    self.rule("AsRef<[u8]> -> AsRefU8");
                    continue;
                }
                if n == "Unsigned" {
                    continue;
                }
            }
            out.push(x.clone());
        }
        *b = out;
    }

    pub fn where_clause(&mut self, w: &mut Option<WhereClause>) {
        if let Some(wc) = w {
            let mut out = punctuated::Punctuated::new();
            for p in wc.predicates.iter() {
                let mut p = p.clone();
                if let WherePredicate::Type(t) = &mut p {
                    let s = tstr(&t.bounded_ty);
                    if s.contains("OutputSize") || s.contains("BlockSize") {
                        self.rule("drop type-level where predicate on OutputSize");
                        continue;
                    }
                    let had = !t.bounds.is_empty();
                    self.bounds(&mut t.bounds);
                    if had && t.bounds.is_empty() {
                        continue;
                    }
                }
                out.push(p);
            }
            wc.predicates = out;
            if wc.predicates.is_empty() {
                *w = None;
            }
        }
    }

    fn expand_alias(&mut self, p: &Path) -> Option<Type> {
        if p.leading_colon.is_some() {
            return None;
        }
        let name = last_seg(p);
        let a = if p.segments.len() == 1 {
            match self.g.aliases.get(&(self.module.clone(), name.clone())) {
                Some(a) => a.clone(),
                None => {
                    let c: Vec<_> = self.g.aliases.iter().filter(|(k, _)| k.1 == name).collect();
                    if c.len() != 1 {
                        return None;
                    }
                    c[0].1.clone()
                }
            }
        } else {
            return None;
        };
        let args: Vec<GenericArgument> = match &p.segments.last().unwrap().arguments {
            PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(),
            _ => vec![],
        };
        let mut lts = args.iter().filter_map(|a| if let GenericArgument::Lifetime(l) = a { Some(l.clone()) } else { None });
        let mut tys = args.iter().filter_map(|a| if let GenericArgument::Type(l) = a { Some(l.clone()) } else { None });
        let mut ml: HashMap<String, Lifetime> = HashMap::new();
        let mut mt: HashMap<String, Type> = HashMap::new();
        for gp in &a.generics.params {
            match gp {
                GenericParam::Lifetime(l) => {
                    ml.insert(l.lifetime.ident.to_string(), lts.next().unwrap_or(Lifetime::new("'_", Span::call_site())));
                }
                GenericParam::Type(t) => {
                    let ty = tys.next().or(t.default.clone())?;
                    mt.insert(t.ident.to_string(), ty);
                }
                _ => return None,
            }
        }
        struct S {
            ml: HashMap<String, Lifetime>,
            mt: HashMap<String, Type>,
        }
        impl VisitMut for S {
            fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
                if let Some(x) = self.ml.get(&l.ident.to_string()) {
                    *l = x.clone();
                }
            }
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t {
                    if p.qself.is_none() {
                        if let Some(i) = p.path.get_ident() {
                            if let Some(x) = self.mt.get(&i.to_string()) {
                                *t = x.clone();
                                return;
                            }
                        }
                    }
                }
                visit_mut::visit_type_mut(self, t)
            }
        }
        let mut t = a.ty.clone();
        S { ml, mt }.visit_type_mut(&mut t);
        self.rule("type alias over fn pointers expanded");
        Some(t)
    }

    fn subst_self_ty(&mut self, t: &mut Type) {
        if let Some(s) = &self.self_subst {
            if let Type::Path(p) = t {
                if p.qself.is_none() && p.path.is_ident("Self") {
                    *t = s.clone();
                }
            }
        }
    }

    /// is `e` an integer literal (possibly parenthesised)
    fn lit(e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Int(_)),
            Expr::Paren(p) => Self::lit(&p.expr),
            _ => false,
        }
    }

    fn eta(&mut self, a: &mut Expr) {
        if let Expr::Path(p) = a {
            let n = last_seg(&p.path);
            let up = n.chars().next().map_or(false, |c| c.is_uppercase());
            if p.path.segments.len() > 1 || up || self.g.known_fns.contains(&n) {
                let f = a.clone();
                *a = parse_quote!(|vx_e| #f(vx_e));
                self.rule("path used as function value -> closure (eta expansion)");
            }
        }
    }

    fn slice_pat(&mut self, l: &mut Local) {
        // `let [a, b] = x` -> `let (a, b) = (x[0], x[1])`
        if let (Pat::Slice(ps), Some(init)) = (&l.pat, &mut l.init) {
            if init.diverge.is_none() && ps.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) || matches!(p, Pat::Wild(_))) {
                let n: Vec<proc_macro2::Literal> = (0..ps.elems.len()).map(proc_macro2::Literal::usize_unsuffixed).collect();
                let elems = ps.elems.iter().cloned().collect::<Vec<_>>();
                let ie = &init.expr;
                let t: Expr = parse_quote!(match #ie { vx_sl => (#(vx_sl[#n]),*) });
                let np = Pat::Tuple(PatTuple { attrs: vec![], paren_token: Default::default(), elems: elems.into_iter().collect() });
                init.expr = Box::new(t);
                l.pat = np;
                self.rule("array pattern -> elements");
            }
        }
    }

    fn closure(&mut self, c: &mut ExprClosure) {
        // parameters become plain identifiers
        let mut lets: Vec<Stmt> = vec![];
        for (i, p) in c.inputs.iter_mut().enumerate() {
            let (inner, ty) = match &*p {
                Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                o => (o.clone(), None),
            };
            match &inner {
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => {}
                Pat::Wild(_) => {
                    let id = ident(&format!("vx_w{i}"));
                    let np: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None });
                    *p = match ty {
                        Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(np), colon_token: Default::default(), ty: Box::new(t) }),
                        None => np,
                    };
                    self.rule("closure parameter pattern -> identifier + let");
                }
                _ => {
                    let id = ident(&format!("vx_p{i}"));
                    let mut st: Stmt = parse_quote!(let #inner = #id;);
                    if let Stmt::Local(l) = &mut st {
                        self.slice_pat(l);
                    }
                    lets.push(st);
                    let np: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None });
                    *p = match ty {
                        Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(np), colon_token: Default::default(), ty: Box::new(t) }),
                        None => np,
                    };
                    self.rule("closure parameter pattern -> identifier + let");
                }
            }
        }
        let body = (*c.body).clone();
        let mut block: Block = match body {
            Expr::Block(b) if lets.is_empty() && b.label.is_none() => b.block,
            e => parse_quote!({ #(#lets)* #e }),
        };
        let n = self.nclos;
        self.nclos += 1;
        // contract
        let ret_ty = match &c.output {
            ReturnType::Type(_, t) => tstr(t),
            _ => "_".into(),
        };
        let mut text = format!("-> (vx_cr: {ret_ty}) ");
        let over = self.fc.as_ref().and_then(|f| f.closures.get(&n).cloned());
        if let Some(cl) = over {
            let mut sub = self.subst.clone();
            for (i, p) in c.inputs.iter().enumerate() {
                let p = match p {
                    Pat::Type(t) => &*t.pat,
                    o => o,
                };
                sub.insert(format!("p{i}"), tstr(p));
            }
            sub.insert("r".into(), "vx_cr".into());
            let mut req = vec![];
            let mut ens = vec![];
            for x in cl {
                let (k, t) = x.text.split_once(' ').unwrap_or(("", ""));
                match subst_names(t, &sub) {
                    Ok(s) => if k == "req" { req.push(s) } else { ens.push(s) },
                    Err(e) => self.undecided.push(e),
                }
            }
            if !req.is_empty() {
                text.push_str(&format!("requires {}, ", req.join(", ")));
            }
            text.push_str(&format!("ensures {}, ", ens.join(", ")));
        } else if self.noauto {
            self.notes.push(format!("closure {n}: automatic postcondition disabled"));
        } else {
            let mut sx = Sx { n: &self.g.names, mode: Mode::Val, cnt: 0, gens: self.gens.clone() };
            let v = sx.body(&block);
            let mut sq = Sx { n: &self.g.names, mode: Mode::Safe, cnt: 0, gens: self.gens.clone() };
            let q = sq.body(&block);
            match (v, q) {
                (Ok(v), Ok(q)) => {
                    if !trivially_true(&q) {
                        text.push_str(&format!("requires ({q}), "));
                    }
                    text.push_str(&format!("ensures crate::vx::same(vx_cr, {v}), "));
                }
                (Err(e), _) | (_, Err(e)) => self.notes.push(format!("closure {n}: no automatic postcondition ({e})")),
            }
        }
        let id = self.raw(text);
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        block.stmts.insert(0, parse_quote!(vx_clo!(#lit);));
        c.output = ReturnType::Default;
        c.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block }));
        self.rule("closure: generated postcondition");
    }

    fn loop_text(&mut self, n: usize, auto_inv: Vec<String>, auto_ens: Vec<String>, auto_dec: Option<String>) -> (String, String, String) {
        let mut inv: Vec<String> = auto_inv.iter().map(|s| format!("{s},")).collect();
        let mut ens: Vec<String> = auto_ens.iter().map(|s| format!("{s},")).collect();
        let mut dec = auto_dec;
        let (mut start, mut end) = (String::new(), String::new());
        let key = self.fc.as_ref().map(|f| f.key.clone()).unwrap_or_default();
        if let Some(lp) = self.fc.as_ref().and_then(|f| f.loops.get(n).cloned()) {
            let mut sub = self.subst.clone();
            // locals: by name, or by position among assigned variables
            let missing: Vec<&String> = lp.locals.iter().filter(|l| !self.assigned.contains(*l)).collect();
            if missing.is_empty() {
                for l in &lp.locals {
                    sub.insert(l.clone(), l.clone());
                }
            } else {
                let cand: Vec<String> = self.assigned.iter().filter(|a| !lp.locals.contains(a)).cloned().collect();
                if cand.len() == missing.len() && cand.len() == 1 {
                    for l in &lp.locals {
                        sub.insert(l.clone(), l.clone());
                    }
                    sub.insert(missing[0].clone(), cand[0].clone());
                } else {
                    self.undecided.push(format!("loop {n}: variables {:?} of the invariant not found", lp.locals));
                }
            }
            sub.insert("it".into(), format!("vx_s{n}"));
            sub.insert("k".into(), format!("vx_k{n}"));
            let sub2 = sub;
            let f = |t: &str, s: &mut Self| match subst_names(t, &sub2) {
                Ok(x) => x,
                Err(e) => {
                    s.undecided.push(e);
                    "true".into()
                }
            };
            for (i, c) in lp.inv.iter().enumerate() {
                let t = f(&c.text, self);
                inv.push(format!("{}, //@I {key}|{n}.{i}|{}", t, c.labels));
            }
            for (i, c) in lp.ens.iter().enumerate() {
                let t = f(&c.text, self);
                ens.push(format!("{}, //@I {key}|{n}.e{i}|{}", t, c.labels));
            }
            if let Some(d) = &lp.decreases {
                dec = Some(f(d, self));
            }
            start = f(&lp.start, self);
            end = f(&lp.end, self);
        }
        let mut t = String::new();
        if !inv.is_empty() {
            t.push_str("\n invariant\n  ");
            t.push_str(&inv.join("\n  "));
        }
        if !ens.is_empty() {
            t.push_str("\n ensures\n  ");
            t.push_str(&ens.join("\n  "));
        }
        if let Some(d) = dec {
            t.push_str(&format!("\n decreases {d},"));
        }
        t.push('\n');
        (t, start, end)
    }
}

fn trivially_true(q: &str) -> bool {
    // a safety predicate in which every leaf is `true`
    let mut toks: Vec<&str> = q.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
    toks.retain(|t| *t != "true");
    !q.contains("_q") && !q.contains("s_okay") && !q.contains("&&")
}

fn user_breaks(b: &Block) -> bool {
    struct V(bool, usize);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Break(b) => {
                    if self.1 == 0 || b.label.is_some() {
                        self.0 = true
                    }
                }
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                    self.1 += 1;
                    visit::visit_expr(self, e);
                    self.1 -= 1;
                }
                Expr::Closure(_) => {}
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(false, 0);
    for s in &b.stmts {
        visit::Visit::visit_stmt(&mut v, s);
    }
    v.0
}

impl<'g> VisitMut for Tx<'g> {
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                t.attrs.clear();
                self.bounds(&mut t.bounds);
            }
        }
        self.where_clause(&mut g.where_clause);
        visit_mut::visit_generics_mut(self, g);
    }

    fn visit_type_impl_trait_mut(&mut self, t: &mut TypeImplTrait) {
        self.bounds(&mut t.bounds);
        visit_mut::visit_type_impl_trait_mut(self, t);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        for _ in 0..8 {
            let n = match t {
                Type::Path(p) if p.qself.is_none() => self.expand_alias(&p.path),
                _ => None,
            };
            match n {
                Some(n) => *t = n,
                None => break,
            }
        }
        if let Type::Path(p) = t {
            let last = last_seg(&p.path);
            // <X as Group>::Elem and P::Elem
            if last == "Elem" || last == "Scalar" {
                let k = if last == "Elem" { "El" } else { "Sc" };
                if let Some(q) = &p.qself {
                    if p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Group" {
                        let mut inner = (*q.ty).clone();
                        self.visit_type_mut(&mut inner);
                        let k = ident(k);
                        *t = parse_quote!(crate::vx::#k<#inner>);
                        self.rule("<G as Group>::Elem/Scalar -> El<G>/Sc<G>");
                        return;
                    }
                } else if p.path.segments.len() == 2 && p.path.leading_colon.is_none() {
                    let f = p.path.segments[0].ident.to_string();
                    if f == "Self" || f.len() <= 2 {
                        let inner = ident(&f);
                        let k = ident(k);
                        *t = parse_quote!(crate::vx::#k<#inner>);
                        self.rule("<G as Group>::Elem/Scalar -> El<G>/Sc<G>");
                        return;
                    }
                }
            }
            // Map<I, fn(..) -> R>
            if last == "Map" {
                if let PathArguments::AngleBracketed(a) = &mut p.path.segments.last_mut().unwrap().arguments {
                    for x in a.args.iter_mut() {
                        if let GenericArgument::Type(Type::BareFn(f)) = x {
                            let r = match &f.output {
                                ReturnType::Type(_, t) => (**t).clone(),
                                _ => parse_quote!(()),
                            };
                            *x = GenericArgument::Type(r);
                        }
                    }
                    self.rules.entry("Map<I, fn(..) -> R> -> Map<I, R>".into()).and_modify(|x| *x += 1).or_insert(1);
                }
            }
        }
        self.subst_self_ty(t);
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        self.fix_root(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if matches!(&*init.expr, Expr::Reference(r) if r.mutability.is_some()) {
                self.mutrefs.insert(i.ident.to_string());
            }
        }
        self.slice_pat(l);
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let callee = match e {
            Expr::Call(c) => match &*c.func { Expr::Path(p) => Some(last_seg(&p.path)), _ => None },
            _ => None,
        };
        self.expr(e);
        let (Some(callee), Some(f)) = (callee, self.fc.clone()) else { return };
        let mut wrapped = Vec::new();
        let whole = match &*e { Expr::Call(c) => c.clone(), _ => return };
        let mut call = whole.clone();
        for (i, (n, k, cl)) in f.calls.iter().enumerate() {
            if *n != callee || *k >= whole.args.len() { continue; }
            // the argument is bound, and what is claimed of it stands before the call
            let v = format!("vx_d{k}");
            let mut sb = self.subst.clone();
            sb.insert("arg".into(), v.clone());
            if let Some(n) = self.cur_loop {
                sb.insert("it".into(), format!("vx_s{n}"));
                sb.insert("k".into(), format!("vx_k{n}"));
            }
            match subst_names(&cl.text, &sb) {
                Ok(t) => {
                    let r = self.raw(format!(" assert({t}); //@E {}|c{i}|{}\n", f.key, cl.labels));
                    let v = ident(&v);
                    if !wrapped.iter().any(|(a, _)| a == k) {
                        call.args[*k] = parse_quote!(#v);
                    }
                    wrapped.push((*k, r));
                    self.ncalls += 1;
                    self.rule("f(.., a, ..) -> match a { x => { assert(..); f(.., x, ..) } } where a contract speaks about the argument");
                }
                Err(x) => self.undecided.push(x),
            }
        }
        if wrapped.is_empty() { return; }
        let rs = wrapped.iter().map(|(_, r)| proc_macro2::Literal::usize_unsuffixed(*r));
        let mut out: Expr = parse_quote!({ #(vx_raw!(#rs);)* #call });
        // the arguments are evaluated from left to right, as in the call
        let mut bound: Vec<usize> = wrapped.iter().map(|(k, _)| *k).collect();
        bound.sort();
        bound.dedup();
        for k in bound.iter().rev() {
            let (v, a) = (ident(&format!("vx_d{k}")), &whole.args[*k]);
            out = parse_quote!((match #a { #v => #out }));
        }
        *e = out;
    }
}
impl<'g> Tx<'g> {
    fn expr(&mut self, e: &mut Expr) {
        // `a[lo..hi].copy_from_slice(b)` and `a[lo..hi]` (before ranges are rewritten)
        if let Expr::MethodCall(m) = e {
            if m.method == "copy_from_slice" && m.args.len() == 1 {
                if let Expr::Index(ix) = &*m.receiver {
                    if let Expr::Range(r) = &*ix.index {
                        let base = &ix.expr;
                        let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                        let hi: Expr = match (&r.end, &r.limits) {
                            (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(),
                            (Some(x), RangeLimits::Closed(_)) => parse_quote!(#x + 1),
                            (None, _) => parse_quote!(#base.vx_buf_len()),
                        };
                        let b = &m.args[0];
                        *e = parse_quote!(#base.vx_copy_range(#lo, #hi, #b));
                        self.rule("a[lo..hi].copy_from_slice(b) -> vx_copy_range");
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        // `x[i] = v`, `x[i] op= v`
        {
            let set = match &*e {
                Expr::Assign(a) => match &*a.left { Expr::Index(ix) if !matches!(&*ix.index, Expr::Range(_)) => Some((ix.clone(), (*a.right).clone())), _ => None },
                Expr::Binary(b) => match &*b.left {
                    Expr::Index(ix) if !matches!(&*ix.index, Expr::Range(_)) => {
                        let (l, r) = (&b.left, &b.right);
                        let v: Option<Expr> = match b.op {
                            BinOp::AddAssign(_) => Some(parse_quote!(#l + #r)),
                            BinOp::SubAssign(_) => Some(parse_quote!(#l - #r)),
                            BinOp::BitAndAssign(_) => Some(parse_quote!(#l & #r)),
                            BinOp::BitOrAssign(_) => Some(parse_quote!(#l | #r)),
                            BinOp::BitXorAssign(_) => Some(parse_quote!(#l ^ #r)),
                            BinOp::ShlAssign(_) => Some(parse_quote!(#l << #r)),
                            BinOp::ShrAssign(_) => Some(parse_quote!(#l >> #r)),
                            _ => None,
                        };
                        v.map(|v| (ix.clone(), v))
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some((ix, v)) = set {
                let (b, i) = (&ix.expr, &ix.index);
                *e = parse_quote!({ let vx_i = #i; let vx_v = #v; #b.vx_set(vx_i, vx_v) });
                self.rule("x[i] = v -> vx_set");
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        // `&mut a[lo..hi]`, `a[lo..hi].reverse()`, `a[lo..hi].fill(x)`
        {
            let tgt: Option<&mut Expr> = match e {
                Expr::Reference(r) if r.mutability.is_some() => Some(&mut *e),
                Expr::MethodCall(m) if m.method == "reverse" || m.method == "fill" => Some(&mut m.receiver),
                _ => None,
            };
            if let Some(t) = tgt {
                let ix = match &*t {
                    Expr::Reference(r) => match &*r.expr { Expr::Index(ix) => Some(ix.clone()), _ => None },
                    Expr::Index(ix) => Some(ix.clone()),
                    _ => None,
                };
                if let Some(ix) = ix {
                    if let Expr::Range(r) = &*ix.index {
                        let base = &ix.expr;
                        let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                        *t = match (&r.end, &r.limits) {
                            (Some(x), RangeLimits::HalfOpen(_)) => parse_quote!(#base.vx_sub_mut(#lo, #x)),
                            (Some(x), RangeLimits::Closed(_)) => parse_quote!(#base.vx_sub_mut(#lo, #x + 1)),
                            (None, _) => parse_quote!(#base.vx_sub_mut_from(#lo)),
                        };
                        self.rule("&mut a[lo..hi] -> vx_sub_mut");
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = &*ix.index {
                let base = &ix.expr;
                let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                *e = match (&r.end, &r.limits) {
                    (Some(x), RangeLimits::HalfOpen(_)) => parse_quote!((*#base.vx_sub(#lo, #x))),
                    (Some(x), RangeLimits::Closed(_)) => parse_quote!((*#base.vx_sub(#lo, #x + 1))),
                    (None, _) => parse_quote!((*#base.vx_sub_from(#lo))),
                };
                self.rule("slice a[lo..hi] -> vx_sub");
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        // pre-order cases
        match e {
            Expr::Index(ix) => {
                self.visit_expr_mut(&mut ix.expr);
                if let Expr::Range(r) = &mut *ix.index {
                    if let Some(s) = &mut r.start {
                        self.visit_expr_mut(s);
                    }
                    if let Some(s) = &mut r.end {
                        self.visit_expr_mut(s);
                    }
                } else {
                    self.visit_expr_mut(&mut ix.index);
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let path = tstr(&p.path).replace(' ', "");
                    if path.ends_with("thread::panicking") {
                        *e = parse_quote!(crate::vx::vx_panicking());
                        self.rule("std::thread::panicking() -> vx_panicking() (any answer)");
                        return;
                    }
                    if path.contains("panicking::") || path.contains("begin_panic") || path.contains("panic_explicit") || path.ends_with("unreachable_display") {
                        *e = parse_quote!(crate::vx::vx_panic());
                        self.rule("panic machinery -> vx_panic() (requires false)");
                        return;
                    }
                    if let Some(q) = &p.qself {
                        if matches!(&*q.ty, Type::BareFn(_)) && last_seg(&p.path) == "from" && c.args.len() == 1 {
                            let mut inner = c.args[0].clone();
                            self.visit_expr_mut(&mut inner);
                            *e = inner;
                            self.rule("<fn(..) -> ..>::from(closure) -> closure");
                            return;
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                if let Type::BareFn(_) = &*c.ty {
                    let mut inner = (*c.expr).clone();
                    self.visit_expr_mut(&mut inner);
                    *e = inner;
                    self.rule("closure as fn(..) -> closure");
                    return;
                }
            }
            Expr::Closure(c) => {
                c.attrs.clear();
                // own `return`/`?` are native in Verus closures
                let saved = self.nloop;
                visit_mut::visit_expr_closure_mut(self, c);
                self.nloop = saved;
                self.closure(c);
                return;
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["map", "map_err", "and_then", "filter", "for_each"].contains(&n.as_str()) {
                    for a in m.args.iter_mut() {
                        self.eta(a);
                    }
                }
            }
            _ => {}
        }
        // loops are numbered in source order (pre-order)
        if let Expr::ForLoop(f) = e {
            let n = self.nloop;
            self.nloop += 1;
            let f = f.clone();
            let mut it = (*f.expr).clone();
            self.visit_expr_mut(&mut it);
            let mut body = f.body.clone();
            let ub = user_breaks(&body);
            let outer = self.cur_loop.replace(n);
            self.visit_block_mut(&mut body);
            self.cur_loop = outer;
            let pat = (*f.pat).clone();
            let (iv, s, k) = (ident(&format!("vx_i{n}")), format!("vx_s{n}"), format!("vx_k{n}"));
            let mut ai = vec![
                format!("!{iv}.inf()"),
                format!("0 <= {k} <= {s}.len()"),
                format!("{iv}.seq() == {s}.skip({k})"),
            ];
            if !ub {
                ai.push("true".into());
            }
            let ae = if ub { vec![] } else { vec![format!("{k} == {s}.len()")] };
            let (t, st, en) = self.loop_text(n, ai, ae, Some(format!("{iv}.seq().len()")));
            let r_inv = self.raw(t);
            let r_pre = self.raw(format!("let ghost {s} = {iv}.seq(); let ghost mut {k}: int = 0; proof {{ assert({iv}.seq() =~= {s}.skip(0)); }}"));
            let r_st = self.raw(format!("proof {{ {k} = {k} + 1; assert({iv}.seq() =~= {s}.skip({k})); {st} }}"));
            let r_en = self.raw(if en.trim().is_empty() { String::new() } else { format!("proof {{ {en} }}") });
            let (l_inv, l_pre, l_st, l_en) = (
                proc_macro2::Literal::usize_unsuffixed(r_inv),
                proc_macro2::Literal::usize_unsuffixed(r_pre),
                proc_macro2::Literal::usize_unsuffixed(r_st),
                proc_macro2::Literal::usize_unsuffixed(r_en),
            );
            let stmts = &body.stmts;
            // a trailing expression of unit type needs a semicolon before the ghost code
            let stmts: Vec<Stmt> = stmts
                .iter()
                .map(|s| match s {
                    Stmt::Expr(e, None) => Stmt::Expr(e.clone(), Some(Default::default())),
                    o => o.clone(),
                })
                .collect();
            let label = f.label.clone();
            let lp: Expr = parse_quote!(#label loop {
                match crate::vx::Iterator::next(&mut #iv) {
                    None => break,
                    Some(#pat) => {
                        vx_raw!(#l_st);
                        #(#stmts)*
                        vx_raw!(#l_en);
                    }
                }
            });
            *e = parse_quote!({
                let mut #iv = crate::vx::IntoIterator::into_iter(#it);
                vx_raw!(#l_pre);
                vx_inv!(#l_inv);
                #lp
            });
            self.rule("for loop -> loop over next() with ghost index");
            return;
        }
        if matches!(e, Expr::Loop(_) | Expr::While(_)) {
            let n = self.nloop;
            self.nloop += 1;
            visit_mut::visit_expr_mut(self, e);
            let (t, _st, _en) = self.loop_text(n, vec![], vec![], None);
            let r = self.raw(t);
            let l = proc_macro2::Literal::usize_unsuffixed(r);
            // `break value` is not supported by Verus: a value loop in tail position becomes returns
            let inner = e.clone();
            *e = parse_quote!({ vx_inv!(#l); #inner });
            return;
        }

        visit_mut::visit_expr_mut(self, e);

        // post-order cases
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::ByteStr(b) => {
                    let v: Vec<proc_macro2::Literal> = b.value().iter().map(|x| proc_macro2::Literal::u8_suffixed(*x)).collect();
                    *e = parse_quote!(&[#(#v),*]);
                    self.rule("byte string literal -> array literal");
                }
                Lit::Byte(b) => {
                    let v = proc_macro2::Literal::u8_suffixed(b.value());
                    *e = parse_quote!(#v);
                }
                _ => {}
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                // `!choice`
                let n = match &*u.expr {
                    Expr::MethodCall(m) => m.method.to_string(),
                    Expr::Call(c) => match &*c.func { Expr::Path(p) => last_seg(&p.path), _ => String::new() },
                    _ => String::new(),
                };
                if ["ct_eq", "is_identity_elem", "is_zero_scalar", "is_identity"].contains(&n.as_str()) {
                    let x = &u.expr;
                    *e = parse_quote!(#x.op_not());
                    self.rule("!choice -> op_not");
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && !matches!(&*u.expr, Expr::Lit(_)) => {
                let x = &u.expr;
                *e = parse_quote!((#x).op_neg());
                self.rule("operator -> shim operator call");
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Expr::Reference(r) = &*u.expr {
                    if matches!(&*r.expr, Expr::Array(_)) {
                        *e = (*r.expr).clone();
                    }
                }
            }
            Expr::Range(r) => {
                let (s, en) = (r.start.clone(), r.end.clone());
                if let (Some(s), Some(en)) = (s, en) {
                    *e = match r.limits {
                        RangeLimits::HalfOpen(_) => parse_quote!(crate::vx::vx_range(#s, #en)),
                        RangeLimits::Closed(_) => parse_quote!(crate::vx::vx_range_incl(#s, #en)),
                    };
                    self.rule("range value -> vx_range");
                }
            }
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                if !Self::lit(l) && !Self::lit(r) {
                    let m = match b.op {
                        BinOp::Add(_) => Some("op_add"),
                        BinOp::Sub(_) => Some("op_sub"),
                        BinOp::Mul(_) => Some("op_mul"),
                        BinOp::BitOr(_) => Some("op_or"),
                        BinOp::BitAnd(_) => Some("op_and"),
                        BinOp::BitXor(_) => Some("op_xor"),
                        _ => None,
                    };
                    if let Some(m) = m {
                        let m = ident(m);
                        let l2: Expr = match &**l {
                            Expr::Unary(_) | Expr::Reference(_) | Expr::Binary(_) | Expr::Cast(_) => parse_quote!((#l)),
                            o => o.clone(),
                        };
                        *e = parse_quote!(#l2.#m(#r));
                        self.rule("operator + - * -> op_add/op_sub/op_mul");
                    } else {
                        let m = match b.op {
                            BinOp::AddAssign(_) => Some("op_add"),
                            BinOp::SubAssign(_) => Some("op_sub"),
                            BinOp::MulAssign(_) => Some("op_mul"),
                            _ => None,
                        };
                        if let Some(m) = m {
                            let m = ident(m);
                            *e = parse_quote!(#l = #l.#m(#r));
                            self.rule("compound assignment -> assignment");
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(f) = self.g.extm.get(&n) {
                    let by_mut = f.starts_with('&');
                    let f: Path = parse(f.trim_start_matches('&'));
                    let r = &m.receiver;
                    let a = m.args.iter();
                    // auto-ref: a receiver that is not itself a `&mut` parameter is borrowed
                    let place = match &**r {
                        Expr::Path(p) => p.path.get_ident().map_or(true, |i| !self.mutrefs.contains(&i.to_string())),
                        Expr::Reference(_) => false,
                        _ => true,
                    };
                    *e = if by_mut && place { parse_quote!(#f(&mut #r, #(#a),*)) } else { parse_quote!(#f(#r, #(#a),*)) };
                    self.rule("extension-trait method call -> free function call");
                    return;
                }
                let ren = match n.as_str() {
                    "to_be_bytes" => Some("vx_to_be_bytes"),
                    "to_le_bytes" => Some("vx_to_le_bytes"),
                    "as_ref" => Some("vx_as_ref"),
                    "unwrap_or_default" => Some("vx_unwrap_or_default"),
                    "filter" => Some("vx_filter"),
                    "strip_prefix" => Some("vx_strip_prefix"),
                    "strip_suffix" => Some("vx_strip_suffix"),
                    "trim_ascii" | "trim_ascii_start" | "trim_ascii_end" | "trim" | "trim_start" | "trim_end" => Some("vx_trim"),
                    "trim_matches" | "trim_start_matches" | "trim_end_matches" => Some("vx_trim_with"),
                    "is_power_of_two" => Some("vxi_is_power_of_two"),
                    "count_ones" => Some("vxi_count_ones"),
                    "count_zeros" => Some("vxi_count_zeros"),
                    "ilog2" => Some("vxi_ilog2"),
                    "div_ceil" => Some("vxi_div_ceil"),
                    "rotate_left" => Some("vxi_rotate_left"),
                    "rotate_right" => Some("vxi_rotate_right"),
                    "swap" if m.args.len() == 2 => Some("vx_swap"),
                    "sort" | "sort_unstable" if m.args.is_empty() => Some("vx_sort"),
                    "sort_by" | "sort_unstable_by" => Some("vx_sort_by"),
                    "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" => Some("vx_sort_by_key"),
                    "dedup" if m.args.is_empty() => Some("vx_shrink"),
                    "retain" => Some("vx_retain"),
                    "swap_bytes" => Some("vxi_swap_bytes"),
                    "reverse_bits" => Some("vxi_reverse_bits"),
                    "is_multiple_of" => Some("vxi_is_multiple_of"),
                    "next_power_of_two" => Some("vxi_next_power_of_two"),

                    "reverse" if m.args.is_empty() => Some("vx_reverse"),
                    "fill" if m.args.len() == 1 => Some("vx_fill"),
                    "iter" if m.args.is_empty() => Some("vx_iter"),
                    "copy_from_slice" => Some("vx_copy_from_slice"),
                    "try_into" => Some("vx_try_into"),
                    "__derive_where_zeroize_or_on_drop" => Some("vx_zod"),
                    _ => None,
                };
                if n == "into_iter" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!(crate::vx::IntoIterator::into_iter(#r));
                    self.rule("into_iter method -> trait call");
                    return;
                }
                if let Some(r) = ren {
                    m.method = ident(r);
                    self.rule("std method -> shim method");
                }
            }
            Expr::Path(p) => {
                let n = last_seg(&p.path);
                if ["USIZE", "U8", "U16", "U32", "U64"].contains(&n.as_str()) && (p.path.segments.len() >= 2) {
                    let mut q = p.clone();
                    q.path.segments.pop();
                    let last = q.path.segments.pop().unwrap().into_value();
                    q.path.segments.push_value(last);
                    if n == "MAX" {
                        return;
                    }
                    let ty: Type = if q.qself.is_some() {
                        // <X as Group>::ElemLen::U16
                        let qs = q.qself.clone().unwrap();
                        Type::Path(TypePath { qself: Some(QSelf { position: qs.position.min(q.path.segments.len()), ..qs }), path: q.path.clone() })
                    } else {
                        Type::Path(TypePath { qself: None, path: q.path.clone() })
                    };
                    let f = ident(&format!("tn_{}", n.to_lowercase()));
                    *e = parse_quote!(crate::vx::#f::<#ty>());
                    self.rule("typenum constant -> tn_*()");
                } else if p.qself.is_none() && p.path.is_ident("self") {
                    if let Some(s) = &self.rename_self {
                        let i = ident(s);
                        *e = parse_quote!(#i);
                    }
                }
            }
            _ => {}
        }
    }
}

/// identifiers bound by `let` anywhere in the block and those assigned
/// names that a `let` or a match arm of the body binds
pub fn bound_vars(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p)
        }
    }
    let mut v = V(BTreeSet::new());
    visit::Visit::visit_block(&mut v, b);
    v.0
}
pub fn assigned_vars(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            let l = match e {
                Expr::Assign(a) => Some(&*a.left),
                Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) => Some(&*b.left),
                _ => None,
            };
            if let Some(Expr::Path(p)) = l {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
            if let Some(Expr::Tuple(t)) = l {
                for x in &t.elems {
                    if let Expr::Path(p) = x {
                        if let Some(i) = p.path.get_ident() {
                            self.0.insert(i.to_string());
                        }
                    }
                }
            }
            // method calls on a mutable local (`hash.update(..)`) also count
            visit::visit_expr(self, e)
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.mutability.is_some() {
                self.0.insert(p.ident.to_string());
            }
        }
    }
    let mut v = V(BTreeSet::new());
    visit::Visit::visit_block(&mut v, b);
    v.0
}

#[allow(dead_code)]
pub fn dummy() {
    let _ = quote!();
}
