//! vx-engine: turns the compiler-expanded source of /repo into one Verus file.
//!   vx-engine EXPANDED.rs CONTRACT_DIR SHIM_DIR OUT.rs MAP.json [--external key]* [--drop key]* [--noauto key]*
mod contracts;
mod glue;
mod hoist;
mod inline;
mod spec;
mod transform;
use contracts::*;
use proc_macro2::Span;
use quote::{quote, ToTokens};
use spec::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;
use transform::*;

const DROP_MODS: &[&str] = &["tests", "test"];
const KEEP_EXT_TRAITS: &[&str] = &["From", "Into", "TryFrom", "Default", "Add", "Mul", "Sub"];

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}
/// fingerprint of the loops of a body (the driver trusts a loop invariant's failure only on the loop it was written for)
/// what the loop invariants of a function were written for: what each loop iterates over, how many variables it
/// carries from one iteration to the next, and whether it is left early
fn shape_of(b: &Block) -> String {
    struct V(String);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            let (head, body) = match e {
                Expr::ForLoop(f) => (format!("for {}", f.expr.to_token_stream()), &f.body),
                Expr::While(w) => (format!("while {}", w.cond.to_token_stream()), &w.body),
                Expr::Loop(l) => ("loop".to_string(), &l.body),
                _ => return syn::visit::visit_expr(self, e),
            };
            let bound = bound_vars(body);
            let carried = assigned_vars(body).into_iter().filter(|x| !bound.contains(x)).count();
            // every other kind of early exit or nesting also changes what has to be said about the loop
            let mut k = Kinds::default();
            syn::visit::Visit::visit_block(&mut k, body);
            self.0.push_str(&format!("{head} {{{carried} {} {}", k.breaks, k.muts));
            syn::visit::visit_block(self, body);
            self.0.push('}');
        }
    }
    #[derive(Default)]
    struct Kinds { breaks: usize, muts: usize }
    impl<'a> syn::visit::Visit<'a> for Kinds {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Break(_) => self.breaks += 1,
                // state carried through a mutable borrow
                Expr::Reference(r) if r.mutability.is_some() => self.muts += 1,
                _ => {}
            }
            syn::visit::visit_expr(self, e)
        }
    }
    let mut v = V(String::new());
    syn::visit::Visit::visit_block(&mut v, b);
    if v.0.is_empty() { String::new() } else { fnv(&v.0) }
}

struct FnRec {
    key: String,
    contract: bool,
    auto: bool,
    qtwin: bool,
    external: bool,
    nens: usize,
    nreq: usize,
    nloops: usize,
    nclosures: usize,
    notes: Vec<String>,
    undecided: Vec<String>,
    def: String,
    labels: Vec<String>,
    shape: String,
    body: String,
    params: Vec<String>,
    ngen: usize,
}

struct Em<'g> {
    g: &'g Global,
    c: &'g Contracts,
    out: String,
    recs: Vec<FnRec>,
    rules: BTreeMap<String, usize>,
    dropped: Vec<String>,
    external: HashSet<String>,
    drop: HashSet<String>,
    noauto: HashSet<String>,
    used: HashSet<String>,
    crate_traits: HashSet<String>,
    clone_types: HashSet<String>,
    copy_types: HashSet<String>,
    zod_types: HashSet<String>,
    drops: HashMap<String, ImplItemFn>,
    clones: HashMap<String, (Vec<String>, ImplItemFn)>,
    zeroize: Vec<String>,
    structs: HashMap<String, ItemStruct>,
    sanity: bool,
    consts: Vec<(String, String)>,
}

fn has_attr(a: &[Attribute], n: &str) -> bool {
    a.iter().any(|x| x.path().segments.last().map_or(false, |s| s.ident == n))
}
fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Slice(_) => "[T]".into(),
        _ => tstr(t).replace(' ', ""),
    }
}

fn type_params(g: &Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(c) => Some(c.ident.to_string()),
            _ => None,
        })
        .collect()
}

/// insert line breaks so that verifier messages point to a statement
fn pretty(s: &str) -> String {
    let mut o = String::new();
    let mut in_s = false;
    let b: Vec<char> = s.chars().collect();
    let mut depth = 0i32;
    for i in 0..b.len() {
        let c = b[i];
        if c == '"' && (i == 0 || b[i - 1] != '\\') {
            in_s = !in_s;
        }
        if !in_s && (c == '(' || c == '[') {
            depth += 1;
        }
        if !in_s && (c == ')' || c == ']') {
            depth -= 1;
        }
        o.push(c);
        if !in_s && ((c == ';' && depth <= 0) || c == '{' || c == '}') {
            o.push('\n');
        }
    }
    o
}

fn fill(s: &str, raws: &[String]) -> std::result::Result<String, String> {
    // replaces vx_raw!(n); vx_inv!(n); vx_clo!(n); placeholders
    let mut t = s.to_string();
    // closures: `| x | { vx_clo ! (n) ; body }` -> `| x | CONTRACT { body }`
    while let Some(p) = t.find("vx_clo ! (") {
        let e = t[p..].find(')').unwrap() + p;
        let n: usize = t[p + 10..e].trim().parse().map_err(|_| "clo")?;
        let brace = t[..p].rfind('{').ok_or("clo brace")?;
        let after = t[e + 1..].find(';').unwrap() + e + 2;
        t = format!("{}{} {{{}", &t[..brace], raws[n], &t[after..]);
    }
    while let Some(p) = t.find("vx_inv ! (") {
        let e = t[p..].find(')').unwrap() + p;
        let n: usize = t[p + 10..e].trim().parse().map_err(|_| "inv")?;
        let after = t[e + 1..].find(';').unwrap() + e + 2;
        let brace = t[after..].find('{').unwrap() + after;
        t = format!("{}{}{}{}", &t[..p], &t[after..brace], raws[n], &t[brace..]);
    }
    while let Some(p) = t.find("vx_raw ! (") {
        let e = t[p..].find(')').unwrap() + p;
        let n: usize = t[p + 10..e].trim().parse().map_err(|_| "raw")?;
        let after = t[e + 1..].find(';').unwrap() + e + 2;
        t = format!("{}{}{}", &t[..p], raws[n], &t[after..]);
    }
    Ok(t)
}

fn tail_loop_to_return(b: &mut Block) {
    // `fn f() -> T { ..; loop { .. break v; .. } }`  ==>  break v -> return v
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() {
        struct V(usize);
        impl VisitMut for V {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Break(b) if self.0 == 0 && b.label.is_none() => {
                        let v = b.expr.take();
                        *e = parse_quote!(return #v);
                    }
                    Expr::Closure(_) => {}
                    Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                        self.0 += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.0 -= 1;
                    }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let has_value = {
            struct W(bool);
            impl<'a> visit::Visit<'a> for W {
                fn visit_expr_break(&mut self, b: &'a ExprBreak) {
                    if b.expr.is_some() {
                        self.0 = true
                    }
                }
            }
            let mut w = W(false);
            visit::Visit::visit_block(&mut w, &l.body);
            w.0
        };
        if has_value {
            V(0).visit_block_mut(&mut l.body);
        }
    }
}

impl<'g> Em<'g> {
    fn tx(&self, module: &str) -> Tx<'g> {
        Tx {
            g: self.g,
            module: module.into(),
            raws: vec![],
            nloop: 0,
            nclos: 0,
            ncalls: 0,
            cur_loop: None,
            mutrefs: Default::default(),
            fc: None,
            subst: HashMap::new(),
            noauto: false,
            gens: vec![],
            notes: vec![],
            undecided: vec![],
            rules: BTreeMap::new(),
            self_subst: None,
            rename_self: None,
            assigned: Default::default(),
        }
    }
    fn merge_rules(&mut self, t: &Tx) {
        for (k, v) in &t.rules {
            *self.rules.entry(k.clone()).or_default() += v;
        }
    }

    /// emit one function.  `outer` = generics of the impl, `body` None for trait declarations.
    #[allow(clippy::too_many_arguments)]
    fn func(&mut self, key: &str, module: &str, outer: &[String], sig: &Signature, body: Option<&Block>, vis: bool, self_subst: Option<Type>, rename_self: Option<String>, extra_ens: &[(String, String)], in_trait_impl: bool) {
        if self.drop.contains(key) {
            self.recs.push(FnRec { key: key.into(), contract: false, auto: false, qtwin: false, external: true, nens: 0, nreq: 0, nloops: 0, nclosures: 0, notes: vec![], undecided: vec!["dropped: outside the verifier's reach".into()], def: self.c.fns.get(key).map(|f| f.def.clone()).unwrap_or_default(), labels: self.c.fns.get(key).map(|f| f.ens.iter().map(|e| e.labels.clone()).collect()).unwrap_or_default(), shape: String::new(), body: String::new(), params: vec![], ngen: 0 });
            return;
        }
        let mut t = self.tx(module);
        t.gens = outer.iter().cloned().chain(type_params(&sig.generics)).collect();
        t.self_subst = self_subst;
        t.rename_self = rename_self.clone();
        t.noauto = self.noauto.contains(key);
        let mut sig = sig.clone();
        let mut und: Vec<String> = vec![];
        let fc = self.c.fns.get(key).cloned();
        let fc = fc.filter(|_| true);
        // parameter names
        let mut pn: Vec<String> = vec![];
        let mut has_mut_ref = false;
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if let Some(rn) = &rename_self {
                        let ty = (*r.ty).clone();
                        let id = Ident::new(rn, Span::call_site());
                        let m = r.mutability.filter(|_| r.reference.is_none());
                        *a = parse_quote!(#m #id: #ty);
                        pn.push(rn.clone());
                        if matches!(ty, Type::Reference(ref x) if x.mutability.is_some()) {
                            has_mut_ref = true;
                            t.mutrefs.insert(rn.clone());
                        }
                    } else {
                        if r.reference.is_some() && r.mutability.is_some() {
                            has_mut_ref = true;
                            t.mutrefs.insert("self".into());
                        }
                    }
                }
                FnArg::Typed(p) => {
                    p.attrs.clear();
                    if matches!(&*p.ty, Type::Reference(x) if x.mutability.is_some()) {
                        has_mut_ref = true;
                        if let Pat::Ident(i) = &*p.pat {
                            t.mutrefs.insert(i.ident.to_string());
                        }
                    }
                    let name = match &*p.pat {
                        Pat::Ident(i) if i.subpat.is_none() => i.ident.to_string(),
                        _ => {
                            let n = format!("vx_a{i}");
                            if !matches!(&*p.pat, Pat::Wild(_)) {
                                und.push("parameter pattern".into());
                            }
                            let id = Ident::new(&n, Span::call_site());
                            p.pat = Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None }));
                            n
                        }
                    };
                    pn.push(name);
                }
            }
        }
        let gens: Vec<String> = outer.iter().cloned().chain(type_params(&sig.generics)).collect();
        let mut subst: HashMap<String, String> = HashMap::new();
        subst.insert("r".into(), "vx_r".into());
        let mut use_contract = false;
        if let Some(f) = &fc {
            self.used.insert(key.to_string());
            if f.params.len() == pn.len() && f.generics.len() == gens.len() {
                use_contract = true;
                for (a, b) in f.params.iter().zip(&pn) {
                    subst.insert(a.clone(), b.clone());
                }
                for (a, b) in f.generics.iter().zip(&gens) {
                    subst.insert(a.clone(), b.clone());
                }
            } else {
                und.push(format!("signature changed: contract expects generics {:?} and parameters {:?}, code has {:?} {:?}", f.generics, f.params, gens, pn));
            }
        }
        t.subst = subst.clone();
        if use_contract {
            t.fc = fc.clone();
        }
        // signature
        t.visit_signature_mut(&mut sig);
        let w = sig.generics.where_clause.take();
        let ret = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, ty) => Some(tstr(ty)),
        };
        // body
        let mut nl = 0;
        let mut ncl = 0;
        let mut ncalls = 0;
        let mut body_s: Option<String> = None;
        let mut entry: Vec<String> = vec![];
        let mut auto_spec: Option<(String, String)> = None;
        let (mut shape, mut body_h) = (String::new(), String::new());
        if let Some(b) = body {
            shape = shape_of(b);
            body_h = fnv(&tstr(b));
            let mut b = b.clone();
            // nested items in a body are not supported (derive helper traits are dropped)
            b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
            tail_loop_to_return(&mut b);
            t.assigned = assigned_vars(&b);
            // a parameter that the body shadows: what is claimed inside the body speaks about its value at the start
            if use_contract {
                let bound = bound_vars(&b);
                for (a, n) in fc.as_ref().unwrap().params.clone().iter().zip(&pn) {
                    if bound.contains(n) {
                        t.subst.insert(a.clone(), format!("vx_p_{n}"));
                        entry.push(n.clone());
                    }
                }
            }
            t.visit_block_mut(&mut b);
            nl = t.nloop;
            ncl = t.nclos;
            ncalls = t.ncalls;
            if let Some(f) = &t.fc {
                if f.calls.len() > ncalls {
                    t.notes.push("a call the contract speaks about is gone".into());
                }
            }
            if let Some(f) = &t.fc {
                if f.loops.len() != nl && !f.loops.is_empty() {
                    und.push(format!("contract has {} loop invariants, code has {nl} loops", f.loops.len()));
                }
            }
            if (fc.is_none() || fc.as_ref().map_or(false, |f| f.auto)) && vis && !in_trait_impl && !t.noauto && !has_mut_ref && nl == 0 && extra_ens.is_empty() {
                let mut sx = Sx { n: &self.g.names, mode: Mode::Val, cnt: 0, gens: gens.clone() };
                let mut sq = Sx { n: &self.g.names, mode: Mode::Safe, cnt: 0, gens: gens.clone() };
                match (sx.body(&b), sq.body(&b)) {
                    (Ok(v), Ok(q)) => auto_spec = Some((v, q)),
                    (Err(e), _) | (_, Err(e)) => t.notes.push(format!("no automatic contract: {e}")),
                }
            }
            match fill(&tstr(&b), &t.raws) {
                Ok(s) => body_s = Some(s),
                Err(e) => und.push(format!("internal: {e}")),
            }
        }
        und.extend(t.undecided.clone());
        self.merge_rules(&t);
        let external = self.external.contains(key) || (!und.is_empty() && body.is_some());
        let mut o = String::new();
        let def = fc.as_ref().map(|f| f.def.clone()).unwrap_or_default();
        writeln!(o, "//@F {key}|{def}").unwrap();
        let name = sig.ident.to_string();
        if let (Some((v, q)), false) = (&auto_spec, external) {
            // spec twin
            let mut s2 = sig.clone();
            s2.ident = Ident::new(&format!("{name}_s"), Span::call_site());
            for a in s2.inputs.iter_mut() {
                match a {
                    FnArg::Receiver(r) => {
                        if r.reference.is_none() {
                            r.mutability = None
                        }
                    }
                    FnArg::Typed(p) => {
                        if let Pat::Ident(i) = &mut *p.pat {
                            i.mutability = None
                        }
                    }
                }
            }
            let ret_s = ret.clone().unwrap_or("()".into());
            s2.output = ReturnType::Default;
            let w_s = w.as_ref().map(tstr).unwrap_or_default();
            writeln!(o, "pub open spec {} -> {ret_s} {w_s} {{ {v} }}", tstr(&s2)).unwrap();
            if q.contains("_q") || q.contains("s_okay") {
                let mut s3 = s2.clone();
                s3.ident = Ident::new(&format!("{name}_q"), Span::call_site());
                writeln!(o, "pub open spec {} -> bool {w_s} {{ {q} }}", tstr(&s3)).unwrap();
            }
        }
        if let Some(f) = &fc {
            for a in &f.attrs {
                writeln!(o, "#[{a}]").unwrap();
            }
        }
        if external && body.is_some() {
            writeln!(o, "#[verifier::external_body]").unwrap();
        }
        if nl > 0 && !external {
            writeln!(o, "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]").unwrap();
        }
        let mut s2 = sig.clone();
        s2.output = ReturnType::Default;
        write!(o, "{}{}", if vis { "pub " } else { "" }, tstr(&s2)).unwrap();
        if let Some(r) = &ret {
            write!(o, " -> (vx_r: {r})").unwrap();
        }
        if let Some(w) = &w {
            write!(o, " {}", tstr(w).trim_end_matches(',')).unwrap();
            write!(o, ",").unwrap();
        }
        o.push('\n');
        let (mut nens, mut nreq) = (0, 0);
        let mut labels = vec![];
        let put = |o: &mut String, kind: &str, cl: &[Clause], und: &mut Vec<String>, n: &mut usize| {
            let mut first = true;
            for (i, c) in cl.iter().enumerate() {
                match subst_names(&c.text, &subst) {
                    Ok(s) => {
                        if first {
                            writeln!(o, " {}", if kind == "R" { "requires" } else { "ensures" }).unwrap();
                            first = false;
                        }
                        writeln!(o, "  {s}, //@{kind} {key}|{i}|{}", c.labels).unwrap();
                        *n += 1;
                    }
                    Err(e) => und.push(e),
                }
            }
            first
        };
        if let (Some(f), true) = (&fc, use_contract) {
            if !in_trait_impl {
                let mut rq = f.req.clone();
                if let (Some((_, q)), false) = (&auto_spec, external) {
                    if q.contains("_q") || q.contains("s_okay") {
                        let recv = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
                        let pre = if recv { "self.".to_string() } else if !outer.is_empty() && rename_self.is_none() { "Self::".to_string() } else { String::new() };
                        let tg = type_params(&sig.generics);
                        let tg = if tg.is_empty() { String::new() } else { format!("::<{}>", tg.join(", ")) };
                        rq.push(Clause { labels: String::new(), text: format!("{pre}{name}_q{tg}({})", pn.join(", ")) });
                    }
                }
                put(&mut o, "R", &rq, &mut und, &mut nreq);
            }
            let none = put(&mut o, "E", &f.ens, &mut und, &mut nens);
            for e in &f.ens {
                labels.push(e.labels.clone());
            }
            if !external {
                nens += ncalls;
                for (_, _, c) in &f.calls {
                    labels.push(c.labels.clone());
                }
            }
            if !extra_ens.is_empty() {
                if none {
                    writeln!(o, " ensures").unwrap();
                }
                for (i, (l, e)) in extra_ens.iter().enumerate() {
                    writeln!(o, "  {e}, //@E {key}|x{i}|{l}").unwrap();
                    nens += 1;
                }
            }
            if let (Some(_), false) = (&auto_spec, external) {
                let args: Vec<String> = pn.clone();
                let recv = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
                let pre = if recv { "self.".to_string() } else if !outer.is_empty() && rename_self.is_none() { "Self::".to_string() } else { String::new() };
                let tg = type_params(&sig.generics);
                let tg = if tg.is_empty() { String::new() } else { format!("::<{}>", tg.join(", ")) };
                if none && extra_ens.is_empty() { writeln!(o, " ensures").unwrap(); }
                writeln!(o, "  vx_r == {pre}{name}_s{tg}({}),", args.join(", ")).unwrap();
            }
        } else if !extra_ens.is_empty() {
            writeln!(o, " ensures").unwrap();
            for (i, (l, e)) in extra_ens.iter().enumerate() {
                writeln!(o, "  {e}, //@E {key}|x{i}|{l}").unwrap();
                labels.push(l.clone());
                nens += 1;
            }
        } else if let (Some((_, q)), false) = (&auto_spec, external) {
            let args: Vec<String> = pn.clone();
            let recv = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
            let in_impl = !outer.is_empty() || recv || key.matches("::").count() > 1;
            let f = |suf: &str| {
                let pre = if recv { "self.".to_string() } else if in_impl && rename_self.is_none() { "Self::".to_string() } else { String::new() };
                let tg = type_params(&sig.generics);
                let tg = if tg.is_empty() { String::new() } else { format!("::<{}>", tg.join(", ")) };
                format!("{pre}{name}_{suf}{tg}({})", args.join(", "))
            };
            if q.contains("_q") || q.contains("s_okay") {
                writeln!(o, " requires {},", f("q")).unwrap();
            }
            writeln!(o, " ensures vx_r == {},", f("s")).unwrap();
        }
        match body_s {
            None => {
                o.push_str(";\n");
            }
            Some(b) => {
                if external {
                    o.push_str("{ unimplemented!() }\n");
                } else {
                    let inner = b.trim();
                    let inner = &inner[1..inner.len() - 1];
                    o.push_str(if !vis && !in_trait_impl { "{\nbroadcast use crate::vx::vx_ax;\n" } else { "{\nbroadcast use {crate::vx::vx_ax, crate::sp::sp_ax, crate::vxc::vxc};\n" });
                    if self.sanity {
                        writeln!(o, " assert(false); //@S {key}").unwrap();
                    }
                    for n in &entry {
                        writeln!(o, " let ghost vx_p_{n} = {n};").unwrap();
                    }
                    if let (Some(f), true) = (&fc, use_contract) {
                        if !f.start.trim().is_empty() {
                            match subst_names(&f.start, &subst) {
                                Ok(s) => writeln!(o, "{s}").unwrap(),
                                Err(e) => und.push(e),
                            }
                        }
                    }
                    o.push_str(&pretty(inner));
                    o.push_str("\n}\n");
                }
            }
        }
        writeln!(o, "//@f").unwrap();
        self.out.push_str(&o);
        self.recs.push(FnRec {
            key: key.into(),
            contract: use_contract || !extra_ens.is_empty(),
            qtwin: !external && auto_spec.as_ref().map_or(false, |(_, q)| q.contains("_q") || q.contains("s_okay")),
            auto: auto_spec.is_some() && !external,
            external: external && body.is_some(),
            nens,
            nreq,
            nloops: nl,
            nclosures: ncl,
            notes: t.notes.clone(),
            undecided: und,
            def,
            labels,
            shape,
            body: body_h,
            params: pn.clone(),
            ngen: gens.len(),
        });
    }

    fn use_tree(&mut self, u: &ItemUse) {
        fn first(t: &UseTree) -> Option<String> {
            match t {
                UseTree::Path(p) => Some(p.ident.to_string()),
                UseTree::Name(p) => Some(p.ident.to_string()),
                UseTree::Rename(p) => Some(p.ident.to_string()),
                _ => None,
            }
        }
        if has_attr(&u.attrs, "prelude_import") {
            return;
        }
        let f = first(&u.tree).unwrap_or_default();
        let tree = &u.tree;
        if ["derive_where", "displaydoc"].contains(&f.as_str()) {
            return;
        }
        if is_ext(&f) {
            writeln!(self.out, "#[allow(unused_imports)] use crate::ext::{};", tstr(tree)).unwrap();
        } else {
            fn prune(t: &UseTree, dead: &dyn Fn(&str) -> bool) -> Option<UseTree> {
                match t {
                    UseTree::Path(p) => { let mut p = p.clone(); p.tree = Box::new(prune(&p.tree, dead)?); Some(UseTree::Path(p)) }
                    UseTree::Name(n) => if dead(&n.ident.to_string()) { None } else { Some(t.clone()) },
                    UseTree::Rename(n) => if dead(&n.ident.to_string()) { None } else { Some(t.clone()) },
                    UseTree::Group(g) => {
                        let mut g = g.clone();
                        let items: Vec<UseTree> = g.items.iter().filter_map(|x| prune(x, dead)).collect();
                        if items.is_empty() { return None; }
                        g.items = items.into_iter().collect();
                        Some(UseTree::Group(g))
                    }
                    o => Some(o.clone()),
                }
            }
            let g = self.g;
            let dead = |n: &str| g.aliases.keys().any(|k| k.1 == n);
            let tree = match prune(tree, &dead) { Some(t) => t, None => return };
            // generated specification twins travel with the functions they describe
            fn twins(t: &UseTree, auto: &HashSet<String>) -> UseTree {
                match t {
                    UseTree::Path(p) => { let mut p = p.clone(); p.tree = Box::new(twins(&p.tree, auto)); UseTree::Path(p) }
                    UseTree::Name(n) => {
                        let mut v = vec![t.clone()];
                        for x in ["s", "q"] {
                            let k = format!("{}_{x}", n.ident);
                            if auto.contains(&format!("::{k}")) {
                                v.push(UseTree::Name(UseName { ident: Ident::new(&k, Span::call_site()) }));
                            }
                        }
                        if v.len() == 1 { t.clone() } else { UseTree::Group(UseGroup { brace_token: Default::default(), items: v.into_iter().collect() }) }
                    }
                    UseTree::Group(g) => { let mut g = g.clone(); g.items = g.items.iter().map(|x| twins(x, auto)).collect(); UseTree::Group(g) }
                    o => o.clone(),
                }
            }
            let tree = twins(&tree, &g.names.auto);
            let s = tstr(&tree);
            // imports of names that exist only in the shim or were turned into free functions are dropped
            writeln!(self.out, "#[allow(unused_imports)] pub use {s};").unwrap();
        }
    }

    fn items(&mut self, items: &[Item], module: &str) {
        for it in items {
            self.item(it, module);
        }
    }

    fn item(&mut self, it: &Item, module: &str) {
        let short = module.rsplit("::").next().unwrap_or("").to_string();
        match it {
            Item::Use(u) => self.use_tree(u),
            Item::ExternCrate(_) => {}
            Item::Mod(m) => {
                let n = m.ident.to_string();
                if DROP_MODS.contains(&n.as_str()) || m.content.is_none() {
                    self.dropped.push(format!("mod {n}"));
                    return;
                }
                writeln!(self.out, "pub mod {n} {{\n#[allow(unused_imports)] use crate::vx::*;\n#[allow(unused_imports)] use crate::sp::*;\n#[allow(unused_imports)] use vstd::prelude::*;").unwrap();
                let sub = if module.is_empty() { n.clone() } else { format!("{module}::{n}") };
                self.items(&m.content.as_ref().unwrap().1, &sub);
                if let Some(t) = self.c.modtext.get(&sub) {
                    writeln!(self.out, "//@M {sub}\n{t}\n//@m").unwrap();
                }
                writeln!(self.out, "}}").unwrap();
            }
            Item::Const(c) => {
                if c.ident == "_" {
                    return;
                }
                let mut c = c.clone();
                let opaque = has_attr(&c.attrs, "external_body");
                c.attrs.clear();
                c.vis = Visibility::Public(Default::default());
                if opaque {
                    writeln!(self.out, "#[verifier::external_body] {}", tstr(&c)).unwrap();
                    return;
                }
                let mut t = self.tx(module);
                t.visit_item_const_mut(&mut c);
                if let Expr::Array(a) = &*c.expr {
                    if a.elems.iter().all(|e| matches!(e, Expr::Lit(_))) {
                        let path = if module.is_empty() { format!("crate::{}", c.ident) } else { format!("crate::{module}::{}", c.ident) };
                        self.consts.push((path, tstr(a)));
                    }
                }
                self.merge_rules(&t);
                writeln!(self.out, "{}", tstr(&c)).unwrap();
            }
            Item::Type(ty) => {
                if self.g.aliases.contains_key(&(module.to_string(), ty.ident.to_string())) {
                    return;
                }
                let mut ty = ty.clone();
                ty.attrs.clear();
                ty.vis = Visibility::Public(Default::default());
                let mut t = self.tx(module);
                t.visit_item_type_mut(&mut ty);
                self.merge_rules(&t);
                writeln!(self.out, "{}", tstr(&ty)).unwrap();
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = Visibility::Public(Default::default());
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = Visibility::Public(Default::default());
                }
                let mut t = self.tx(module);
                t.visit_item_struct_mut(&mut s);
                self.merge_rules(&t);
                let name = s.ident.to_string();
                for p in type_params(&s.generics) {
                    writeln!(self.out, "#[verifier::reject_recursive_types({p})]").unwrap();
                }
                let w = s.generics.where_clause.clone();
                s.generics.where_clause = w;
                writeln!(self.out, "{}", tstr(&s)).unwrap();
                let (ig, tg, wc) = s.generics.split_for_impl();
                if self.clone_types.contains(&name) {
                    match self.clones.get(&name).cloned() {
                        Some((g, f)) if g == type_params(&s.generics) => {
                            writeln!(self.out, "impl {} Clone for {name} {} {} {{", tstr(&ig), tstr(&tg), tstr(&wc)).unwrap();
                            let lab = match name.as_str() { x if x.starts_with("Oprf") => "C01", x if x.starts_with("Voprf") => "C02", x if x.starts_with("Poprf") => "C03", _ => "C01,C02,C03" };
                            self.func(&format!("{name}::clone"), module, &g, &f.sig, Some(&f.block), false, None, None, &[(lab.to_string(), "*self == vx_r".to_string())], true);
                            writeln!(self.out, "}}").unwrap();
                        }
                        _ => {
                            writeln!(self.out, "impl {} Clone for {name} {} {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}", tstr(&ig), tstr(&tg), tstr(&wc)).unwrap();
                        }
                    }
                    if self.copy_types.contains(&name) {
                        writeln!(self.out, "impl {} Copy for {name} {} {} {{}}", tstr(&ig), tstr(&tg), tstr(&wc)).unwrap();
                    }
                }
                if self.zod_types.contains(&name) {
                    writeln!(self.out, "impl {} crate::vx::VxZod for {name} {} {} {{ open spec fn wiped(&self) -> bool {{ true }} fn vx_zod(&mut self) {{}} }}", tstr(&ig), tstr(&tg), tstr(&wc)).unwrap();
                }
                if let Some(x) = self.c.inject.get(&format!("struct {name}")) {
                    writeln!(self.out, "impl {} {name} {} {} {{\n{x}}}", tstr(&ig), tstr(&tg), tstr(&wc)).unwrap();
                }
                // drop contract
                if self.zeroize.contains(&name) || self.drops.contains_key(&name) {
                    let mut ens = vec![];
                    for (i, f) in s.fields.iter().enumerate() {
                        let ty = type_name(&f.ty);
                        let m = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                        if ty == "El" || ty == "Sc" {
                            ens.push(("C14".to_string(), format!("crate::vx::VxZod::wiped(&final(self).{m})")));
                        }
                    }
                    let outer = type_params(&s.generics);
                    let (f, missing) = match self.drops.get(&name) {
                        Some(f) => (f.clone(), false),
                        None => (parse_quote!(fn drop(&mut self) {}), true),
                    };
                    let mut sig = f.sig.clone();
                    sig.ident = Ident::new("vx_drop", Span::call_site());
                    writeln!(self.out, "impl {} {name} {} {} {{", tstr(&ig), tstr(&tg), tstr(&wc)).unwrap();
                    let key = format!("{name}::drop");
                    let n0 = self.recs.len();
                    self.func(&key, module, &outer, &sig, Some(&f.block), true, None, None, &ens, false);
                    if missing {
                        if let Some(r) = self.recs.get_mut(n0) {
                            r.notes.push("no Drop impl in the expanded source".into());
                        }
                    }
                    writeln!(self.out, "}}").unwrap();
                }
            }
            Item::Enum(e) => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = Visibility::Public(Default::default());
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                }
                let n = e.ident.to_string();
                if self.copy_types.contains(&n) {
                    writeln!(self.out, "impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\nimpl Copy for {n} {{}}\nimpl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\nimpl Eq for {n} {{}}\nimpl PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}").unwrap();
                }
                let mut t = self.tx(module);
                t.visit_item_enum_mut(&mut e);
                writeln!(self.out, "{}", tstr(&e)).unwrap();
                if let Some(x) = self.c.inject.get(&format!("enum {n}")) {
                    writeln!(self.out, "impl {n} {{\n{x}}}").unwrap();
                }
                if e.generics.params.is_empty() {
                    writeln!(self.out, "impl core::fmt::Debug for {n} {{ #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ unimplemented!() }} }}").unwrap();
                }
            }
            Item::Fn(f) => {
                let key = format!("{short}::{}", f.sig.ident);
                self.func(&key, module, &[], &f.sig, Some(&f.block), true, None, None, &[], false);
            }
            Item::Trait(tr) => {
                let name = tr.ident.to_string();
                if self.is_ext_trait(&name) {
                    return; // handled at its blanket impl
                }
                let mut tr2 = tr.clone();
                tr2.attrs.clear();
                let mut t = self.tx(module);
                t.bounds(&mut tr2.supertraits);
                tr2.items.clear();
                t.visit_generics_mut(&mut tr2.generics);
                self.merge_rules(&t);
                let g = &tr2.generics;
                let sup = &tr2.supertraits;
                let supt = if sup.is_empty() { ": Sized".to_string() } else { format!(": Sized + {}", tstr(sup)) };
                writeln!(self.out, "pub trait {name} {} {supt} {} {{", tstr(g), g.where_clause.as_ref().map(tstr).unwrap_or_default()).unwrap();
                if let Some(x) = self.c.inject.get(&format!("trait {name}")) {
                    writeln!(self.out, "{x}").unwrap();
                }
                for ti in &tr.items {
                    match ti {
                        TraitItem::Type(ty) => {
                            if name == "Group" && (ty.ident == "Elem" || ty.ident == "Scalar") {
                                *self.rules.entry("Group::Elem/Scalar associated types -> opaque El/Sc".into()).or_default() += 1;
                                continue;
                            }
                            let mut ty = ty.clone();
                            ty.attrs.clear();
                            let mut t = self.tx(module);
                            t.bounds(&mut ty.bounds);
                            t.visit_trait_item_type_mut(&mut ty);
                            writeln!(self.out, "{}", tstr(&ty)).unwrap();
                        }
                        TraitItem::Const(c) => {
                            let mut c = c.clone();
                            c.attrs.clear();
                            writeln!(self.out, "{}", tstr(&c)).unwrap();
                        }
                        TraitItem::Fn(f) => {
                            let key = format!("{name}::{}", f.sig.ident);
                            self.func(&key, module, &type_params(&tr.generics), &f.sig, f.default.as_ref(), false, None, None, &[], false);
                        }
                        _ => {}
                    }
                }
                writeln!(self.out, "}}").unwrap();
            }
            Item::Impl(im) => self.imp(im, module),
            Item::Macro(_) => {}
            other => self.dropped.push(format!("{module}: item {}", &tstr(other)[..40.min(tstr(other).len())])),
        }
    }

    fn is_ext_trait(&self, name: &str) -> bool {
        EXT_TRAITS.with(|e| e.borrow().contains(name))
    }

    fn imp(&mut self, im: &ItemImpl, module: &str) {
        let ty = type_name(&im.self_ty);
        let gens = type_params(&im.generics);
        if let Some((_, tp, _)) = &im.trait_ {
            let tn = tp.segments.last().unwrap().ident.to_string();
            if EXT_TRAITS.with(|e| e.borrow().contains(&tn)) {
                // blanket impl of an extension trait: methods become free functions
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        let mut sig = f.sig.clone();
                        // merge generics
                        let mut g = im.generics.clone();
                        let mut lts: Vec<GenericParam> = vec![];
                        let mut rest: Vec<GenericParam> = vec![];
                        for p in g.params.iter().chain(sig.generics.params.iter()) {
                            match p {
                                GenericParam::Lifetime(_) => lts.push(p.clone()),
                                _ => rest.push(p.clone()),
                            }
                        }
                        g.params = lts.into_iter().chain(rest).collect();
                        if let Some(w) = &sig.generics.where_clause {
                            let wc = g.make_where_clause();
                            for p in &w.predicates {
                                wc.predicates.push(p.clone());
                            }
                        }
                        sig.generics = g;
                        let short = module.rsplit("::").next().unwrap_or("").to_string();
                        let key = format!("{short}::{}", f.sig.ident);
                        self.func(&key, module, &[], &sig, Some(&f.block), true, Some((*im.self_ty).clone()), Some("vx_self".into()), &[], false);
                        *self.rules.entry("extension trait with one blanket impl -> free functions".into()).or_default() += 1;
                    }
                }
                return;
            }
            let local = self.crate_traits.contains(&tn);
            if has_attr(&im.attrs, "automatically_derived") || tn == "Drop" || (!local && !KEEP_EXT_TRAITS.contains(&tn.as_str()) && !has_attr(&im.attrs, "vx_glue")) {
                if !has_attr(&im.attrs, "automatically_derived") && tn != "Drop" && !["Debug", "Display", "Error", "ZeroizeOnDrop", "Clone", "Eq", "PartialEq", "Ord", "PartialOrd", "Hash", "Copy", "StructuralPartialEq", "Freeze"].contains(&tn.as_str()) {
                    self.dropped.push(format!("{module}: impl {tn} for {ty}"));
                }
                return;
            }
        }
        let mut head = im.clone();
        head.attrs.clear();
        head.items.clear();
        let mut t = self.tx(module);
        t.visit_item_impl_mut(&mut head);
        self.merge_rules(&t);
        let g = head.generics.clone();
        let w = g.where_clause.as_ref().map(tstr).unwrap_or_default();
        let tn = head.trait_.as_ref().map(|(_, p, _)| tstr(p));
        let tlast = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        writeln!(self.out, "impl {} {} {} {w} {{", tstr(&g), tn.as_ref().map(|t| format!("{t} for")).unwrap_or_default(), tstr(&head.self_ty)).unwrap();
        if let Some(tl) = &tlast {
            if let Some(x) = self.c.inject.get(&format!("impl {tl} for {ty}")) {
                writeln!(self.out, "{x}").unwrap();
            }
        }
        for ii in &im.items {
            match ii {
                ImplItem::Type(ty) => {
                    if tlast.as_deref() == Some("Group") && (ty.ident == "Elem" || ty.ident == "Scalar") {
                        continue;
                    }
                    let mut ty = ty.clone();
                    ty.attrs.clear();
                    let mut t = self.tx(module);
                    t.visit_impl_item_type_mut(&mut ty);
                    writeln!(self.out, "{}", tstr(&ty)).unwrap();
                }
                ImplItem::Const(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    if tlast.is_none() {
                        c.vis = Visibility::Public(Default::default());
                    }
                    let mut t = self.tx(module);
                    t.visit_impl_item_const_mut(&mut c);
                    writeln!(self.out, "{}", tstr(&c)).unwrap();
                }
                ImplItem::Fn(f) => {
                    let key = match &tlast {
                        Some(tl) => format!("{ty}:{tl}::{}", f.sig.ident),
                        None => format!("{ty}::{}", f.sig.ident),
                    };
                    self.func(&key, module, &gens, &f.sig, Some(&f.block), tlast.is_none(), None, None, &[], tlast.is_some());
                }
                _ => {}
            }
        }
        writeln!(self.out, "}}").unwrap();
    }
}

thread_local! {
    static EXT_TRAITS: std::cell::RefCell<HashSet<String>> = Default::default();
}

fn walk<'a>(items: &'a [Item], module: String, f: &mut dyn FnMut(&'a Item, &str)) {
    for it in items {
        f(it, &module);
        if let Item::Mod(m) = it {
            if DROP_MODS.contains(&m.ident.to_string().as_str()) {
                continue;
            }
            if let Some((_, c)) = &m.content {
                let sub = if module.is_empty() { m.ident.to_string() } else { format!("{module}::{}", m.ident) };
                walk(c, sub, f);
            }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

fn spec_names(text: &str, s: &mut HashSet<String>, q: &mut HashSet<String>) {
    for w in text.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect::<Vec<_>>().windows(2) {
        if w[0] == "fn" {
            if w[1].ends_with("_s") {
                s.insert(w[1].to_string());
            }
            if w[1].ends_with("_q") {
                q.insert(w[1].to_string());
            }
        }
    }
}

/// the names of types and functions of the crate under the chosen features
fn item_names(items: &[Item], out: &mut HashSet<String>) {
    for it in items {
        match it {
            Item::Struct(s) => { out.insert(s.ident.to_string()); }
            Item::Fn(f) => { out.insert(f.sig.ident.to_string()); }
            Item::Impl(i) => i.items.iter().for_each(|x| if let ImplItem::Fn(f) = x { out.insert(f.sig.ident.to_string()); }),
            Item::Mod(m) => if let Some((_, v)) = &m.content { item_names(v, out) },
            _ => {}
        }
    }
}

/// keeps the lines between `//@cfg NAME` and `//@endcfg` only if the crate has an item NAME (line count unchanged)
fn cfg_text(t: &str, names: &HashSet<String>) -> String {
    let mut on = true;
    let mut o = String::new();
    for l in t.lines() {
        if let Some(n) = l.trim().strip_prefix("//@cfg ") {
            on = names.contains(n.trim());
        } else if l.trim() == "//@endcfg" {
            on = true;
        } else if on {
            o.push_str(l);
        }
        o.push('\n');
    }
    o
}

/// a contract whose function has another name (or module) in this source
fn renamed(t: &str, x: &str, y: &str) -> String {
    let t = t.replace(&format!("\nfn {x} "), &format!("\nfn {y} "));
    let last = |k: &str| k.rsplit(':').next().unwrap().to_string();
    let (a, b) = (last(x), last(y));
    if a == b { return t; }
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let (mut o, mut i) = (String::new(), 0);
    while let Some(j) = t[i..].find(&a) {
        let j = i + j;
        let e = j + a.len();
        let free = !t[..j].chars().next_back().map_or(false, w) && !t[e..].chars().next().map_or(false, w);
        o.push_str(&t[i..j]);
        o.push_str(if free { &b } else { &a });
        i = e;
    }
    o.push_str(&t[i..]);
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vx-engine EXPANDED CONTRACTS SHIM OUT MAP [--external k|--drop k|--noauto k|--sanity]");
        std::process::exit(2);
    }
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut file: File = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot parse expanded source: {e}");
            std::process::exit(3);
        }
    };
    let noglue = a.iter().any(|x| x == "--noglue");
    let glue = if noglue { glue::Gen { text: String::new(), notes: vec![] } } else { glue::glue(&mut file.items) };
    hoist::hoist(&mut file.items);
    let (mut external, mut drop, mut noauto) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut sanity = false;
    let mut inl = HashSet::new();
    let mut i = 6;
    let mut alias: Vec<(String, String)> = vec![];
    while i < a.len() {
        match a[i].as_str() {
            "--external" => { external.insert(a[i + 1].clone()); i += 1; }
            "--drop" => { drop.insert(a[i + 1].clone()); i += 1; }
            "--alias" => { if let Some((x, y)) = a[i + 1].split_once('=') { alias.push((x.to_string(), y.to_string())); } i += 1; }
            "--inline" => { inl.insert(a[i + 1].rsplit(|c| c == ':').next().unwrap().to_string()); i += 1; }
            "--noauto" => { noauto.insert(a[i + 1].clone()); i += 1; }
            "--sanity" => sanity = true,
            "--noglue" => {}
            x => panic!("unknown option {x}"),
        }
        i += 1;
    }
    inline::inline(&mut file.items, &inl);
    let mut names = HashSet::new();
    item_names(&file.items, &mut names);
    let mut c = Contracts::default();
    let mut zeroize = vec![];
    let mut shim = String::new();
    let mut files: Vec<_> = std::fs::read_dir(&a[2]).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    let mut alltext = String::new();
    for f in &files {
        let mut t = cfg_text(&std::fs::read_to_string(f).unwrap(), &names);
        if f.extension().map_or(false, |e| e == "vc") {
            for (x, y) in &alias { t = renamed(&t, x, y); }
        }
        if f.extension().map_or(false, |e| e == "vc") {
            let mut rest = String::new();
            for l in t.lines() {
                if let Some(z) = l.strip_prefix("zeroize ") {
                    zeroize.extend(z.split_whitespace().map(|s| s.to_string()));
                    rest.push('\n');
                } else {
                    rest.push_str(l);
                    rest.push('\n');
                }
            }
            c.parse(f.to_str().unwrap(), &rest);
            alltext.push_str(&t);
        }
    }
    c.parse("serde derives", &glue.text);
    alltext.push_str(&glue.text);
    let mut sf: Vec<_> = std::fs::read_dir(&a[3]).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "rs")).collect();
    sf.sort();
    for f in &sf {
        let t = cfg_text(&std::fs::read_to_string(f).unwrap(), &names);
        writeln!(shim, "//@B {}\n{t}\n//@b", f.file_name().unwrap().to_str().unwrap()).unwrap();
    }
    alltext.push_str(&shim);
    let (mut sn, mut qn) = (HashSet::new(), HashSet::new());
    spec_names(&alltext, &mut sn, &mut qn);
    let free: HashSet<String> = shim.lines().filter_map(|l| l.strip_prefix("pub open spec fn ")).map(|l| l.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap().to_string()).collect();
    qn.insert("unwrap_q".into());
    qn.insert("expect_q".into());

    // ---- collection
    let mut aliases = HashMap::new();
    let mut known = HashSet::new();
    let mut children = HashSet::new();
    let mut traits: HashMap<String, (String, ItemTrait)> = HashMap::new();
    let mut impls: HashMap<String, Vec<(String, ItemImpl)>> = HashMap::new();
    let (mut clone_types, mut copy_types, mut zod_types) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut drops = HashMap::new();
    let mut clones: HashMap<String, (Vec<String>, ImplItemFn)> = HashMap::new();
    let mut structs = HashMap::new();
    let mut uncontracted: Vec<String> = vec![];
    walk(&file.items, String::new(), &mut |it, m| match it {
        Item::Type(t) => {
            aliases.insert((m.to_string(), t.ident.to_string()), Alias { generics: t.generics.clone(), ty: (*t.ty).clone() });
        }
        Item::Fn(f) => {
            known.insert(f.sig.ident.to_string());
            let short = m.rsplit("::").next().unwrap_or("");
            if !c.fns.contains_key(&format!("{short}::{}", f.sig.ident)) {
                uncontracted.push(format!("::{}", f.sig.ident));
            }
        }
        Item::Mod(x) => {
            children.insert(format!("{m}::{}", x.ident));
        }
        Item::Trait(t) => {
            traits.insert(t.ident.to_string(), (m.to_string(), t.clone()));
        }
        Item::Struct(s) => {
            structs.insert(s.ident.to_string(), s.clone());
        }
        Item::Impl(im) => {
            let tn = type_name(&im.self_ty);
            match &im.trait_ {
                Some((_, p, _)) => {
                    let t = p.segments.last().unwrap().ident.to_string();
                    match t.as_str() {
                        "Clone" => {
                            clone_types.insert(tn.clone());
                            for ii in &im.items {
                                if let ImplItem::Fn(f) = ii {
                                    if f.sig.ident == "clone" { clones.insert(tn.clone(), (type_params(&im.generics), f.clone())); }
                                }
                            }
                        }
                        "Copy" => { copy_types.insert(tn.clone()); }
                        "ZeroizeOnDrop" => { zod_types.insert(tn.clone()); }
                        "Drop" => {
                            for ii in &im.items {
                                if let ImplItem::Fn(f) = ii {
                                    drops.insert(tn.clone(), f.clone());
                                }
                            }
                        }
                        _ => {}
                    }
                    impls.entry(t).or_default().push((m.to_string(), im.clone()));
                }
                None => {
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if !c.fns.contains_key(&format!("{tn}::{}", f.sig.ident)) {
                                uncontracted.push(f.sig.ident.to_string());
                            }
                        }
                    }
                }
            }
        }
        _ => {}
    });
    // aliases that mention fn pointers, transitively
    loop {
        let mut bad: HashSet<(String, String)> = HashSet::new();
        for (k, al) in &aliases {
            let mut hit = contains_barefn(&al.ty);
            struct V<'a>(&'a HashMap<(String, String), Alias>, bool, String);
            impl<'a, 'b> visit::Visit<'a> for V<'b> {
                fn visit_type_path(&mut self, p: &'a TypePath) {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let cand: Vec<_> = self.0.iter().filter(|(k, _)| k.1 == n && (k.0 == self.2 || true)).collect();
                    if cand.iter().any(|(_, a)| contains_barefn(&a.ty)) {
                        self.1 = true;
                    }
                    visit::visit_type_path(self, p);
                }
            }
            let mut v = V(&aliases, false, k.0.clone());
            visit::Visit::visit_type(&mut v, &al.ty);
            hit |= v.1;
            if !hit {
                bad.insert(k.clone());
            }
        }
        let n = aliases.len();
        if bad.is_empty() || n == 0 {
            break;
        }
        let before = aliases.len();
        let keep: HashMap<_, _> = aliases.iter().filter(|(k, _)| !bad.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        aliases = keep;
        if aliases.len() == before {
            break;
        }
    }
    // extension traits
    let mut extm = HashMap::new();
    for (n, (_tm, t)) in &traits {
        if let Some(v) = impls.get(n) {
            if v.len() == 1 {
                let (im_m, im) = &v[0];
                let blanket = match &*im.self_ty {
                    Type::Slice(_) => true,
                    Type::Path(p) => p.path.get_ident().map_or(false, |i| type_params(&im.generics).contains(&i.to_string())),
                    _ => false,
                };
                if blanket && t.items.iter().all(|x| matches!(x, TraitItem::Fn(_))) && n != "Group" && n != "CipherSuite" {
                    EXT_TRAITS.with(|e| e.borrow_mut().insert(n.clone()));
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            // `&`: the receiver is passed by mutable reference
                            let by_mut = f.sig.inputs.iter().any(|a| match a {
                                FnArg::Receiver(r) => matches!(&*r.ty, Type::Reference(t) if t.mutability.is_some()),
                                _ => false,
                            });
                            extm.insert(f.sig.ident.to_string(), format!("{}crate::{im_m}::{}", if by_mut { "&" } else { "" }, f.sig.ident));
                            let short = im_m.rsplit("::").next().unwrap();
                            if !c.fns.contains_key(&format!("{short}::{}", f.sig.ident)) {
                                uncontracted.push(format!("::{}", f.sig.ident));
                            }
                        }
                    }
                }
            }
        }
    }
    // helper functions without a hand-written contract get an automatic one: their
    // spec twins exist only if the twin can be generated, decided optimistically in a first pass
    let base = sn.clone();
    let mut avail: HashSet<String> = c.fns.iter().filter(|(_, f)| f.auto).map(|(k, _)| { let name = k.rsplit("::").next().unwrap(); let pre = if k.starts_with(|c: char| c.is_lowercase()) { "::" } else { "" }; format!("{pre}{name}_s") }).chain(uncontracted.iter().map(|n| format!("{n}_s"))).collect();
    let mut base = base;
    let mut bytes: HashMap<String, Vec<bool>> = HashMap::new();
    {
        let mut add = |sig: &Signature, pre: &str| {
            let v: Vec<bool> = sig.inputs.iter().filter_map(|a| match a {
                FnArg::Typed(p) => Some(matches!(&*p.ty, Type::Reference(r) if r.mutability.is_none() && tstr(&r.elem).replace(' ', "") == "[u8]")),
                _ => None,
            }).collect();
            let n = format!("{pre}{}", sig.ident);
            match bytes.get(&n) {
                Some(o) if *o != v => { bytes.insert(n, vec![]); }
                _ => { bytes.insert(n, v); }
            }
        };
        walk(&file.items, String::new(), &mut |it, _| match it {
            Item::Fn(f) => add(&f.sig, "::"),
            Item::Trait(t) => for i in &t.items { if let TraitItem::Fn(f) = i { add(&f.sig, "") } },
            Item::Impl(t) => for i in &t.items { if let ImplItem::Fn(f) = i { add(&f.sig, "") } },
            _ => {}
        });
    }
    let gstructs: HashMap<String, Vec<String>> = structs.iter().map(|(n, s): (&String, &ItemStruct)| (n.clone(), type_params(&s.generics))).collect();
    for f in &free {
        if f.ends_with("_s") { base.insert(format!("::{f}")); }
        if f.ends_with("_q") { qn.insert(format!("::{f}")); }
    }
    let mut qavail: HashSet<String> = HashSet::new();
    for _round in 0..8 {
        let mut s = base.clone();
        s.extend(avail.iter().cloned());
        let mut q = qn.clone();
        q.extend(qavail.iter().cloned());
        let g = Global { aliases: aliases.clone(), extm: extm.clone(), names: Names { s, q, free: free.clone(), auto: avail.iter().chain(qavail.iter()).cloned().collect(), gstructs: gstructs.clone(), bytes: bytes.clone() }, known_fns: known.clone(), children: children.clone() };
        let mut em = Em {
            g: &g, c: &c, out: String::new(), recs: vec![], rules: Default::default(), dropped: vec![], external: external.clone(), drop: drop.clone(), noauto: noauto.clone(),
            used: Default::default(), crate_traits: traits.keys().cloned().collect(), clone_types: clone_types.clone(), copy_types: copy_types.clone(), zod_types: zod_types.clone(),
            drops: drops.clone(), clones: clones.clone(), zeroize: zeroize.clone(), structs: structs.clone(), sanity, consts: vec![],
        };
        em.items(&file.items, "");
        let _ = &em.structs;
        // which spec twins were really generated?
        let mut got = HashSet::new();
        let mut gotq = HashSet::new();
        for r in &em.recs {
            let name = r.key.rsplit("::").next().unwrap();
            let pre = if r.key.starts_with(|c: char| c.is_lowercase()) { "::" } else { "" };
            if r.auto { got.insert(format!("{pre}{name}_s")); }
            if r.qtwin { gotq.insert(format!("{pre}{name}_q")); }
        }
        // a method name counts only if every uncontracted method of that name got its twin
        let lost: HashSet<String> = em.recs.iter().filter(|r| !r.auto && (!r.contract || c.fns.get(&r.key).map_or(false, |f| f.auto))).map(|r| {
            let name = r.key.rsplit("::").next().unwrap();
            let pre = if r.key.starts_with(|c: char| c.is_lowercase()) { "::" } else { "" };
            format!("{pre}{name}_s")
        }).collect();
        let need: HashSet<String> = avail.iter().filter(|n| got.contains(*n) && !lost.contains(*n)).cloned().collect();
        if need == avail && gotq == qavail {
            finish(&a, &em, &shim, &c);
            return;
        }
        avail = need;
        qavail = gotq;
    }
    // could not stabilise: no automatic contracts
    let g = Global { aliases, extm, names: Names { s: base, q: qn, free, auto: Default::default(), gstructs, bytes }, known_fns: known, children };
    let mut em = Em {
        g: &g, c: &c, out: String::new(), recs: vec![], rules: Default::default(), dropped: vec![], external, drop, noauto,
        used: Default::default(), crate_traits: traits.keys().cloned().collect(), clone_types, copy_types, zod_types, drops, clones, zeroize, structs, sanity, consts: vec![],
    };
    em.items(&file.items, "");
    finish(&a, &em, &shim, &c);
}

fn finish(a: &[String], em: &Em, shim: &str, c: &Contracts) {
    let mut o = String::new();
    o.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, unreachable_code, unused_assignments, private_interfaces)]\nuse vstd::prelude::*;\nverus! {\n");
    o.push_str(shim);
    o.push_str("\n//@X extracted\nuse crate::vx::*;\nuse crate::sp::*;\nuse vstd::prelude::*;\nbroadcast use {crate::vx::vx_ax, crate::sp::sp_ax, crate::vxc::vxc};\n");
    o.push_str(&em.out);
    if let Some(t) = c.modtext.get("") {
        writeln!(o, "//@M root\n{t}\n//@m").unwrap();
    }
    o.push_str("pub mod vxc {\nuse vstd::prelude::*;\n");
    let mut names = vec!["vxc_dummy".to_string()];
    o.push_str("pub broadcast proof fn vxc_dummy() ensures #[trigger] Seq::<u8>::empty() == Seq::<u8>::empty() {}\n");
    for (i, (p, v)) in em.consts.iter().enumerate() {
        writeln!(o, "pub broadcast proof fn vxc_{i}() ensures #[trigger] ({p})@ == seq!{v} {{ assert(({p})@ =~= seq!{v}); }}").unwrap();
        names.push(format!("vxc_{i}"));
    }
    writeln!(o, "pub broadcast group vxc {{ {} }}\n}}", names.join(", ")).unwrap();
    o.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&a[4], &o).unwrap();
    let mut j = String::from("{\n\"functions\": [\n");
    for (i, r) in em.recs.iter().enumerate() {
        write!(
            j,
            "  {{\"key\": {}, \"contract\": {}, \"auto\": {}, \"external\": {}, \"ensures\": {}, \"requires\": {}, \"loops\": {}, \"closures\": {}, \"notes\": {}, \"undecided\": {}, \"def\": {}, \"labels\": {}, \"shape\": {}, \"body\": {}, \"params\": {}, \"ngen\": {}}}{}\n",
            json_str(&r.key), r.contract, r.auto, r.external, r.nens, r.nreq, r.nloops, r.nclosures, jarr(&r.notes), jarr(&r.undecided), json_str(&r.def), jarr(&r.labels), json_str(&r.shape), json_str(&r.body), jarr(&r.params), r.ngen,
            if i + 1 < em.recs.len() { "," } else { "" }
        )
        .unwrap();
    }
    j.push_str("],\n\"missing\": [\n");
    let miss: Vec<String> = c.order.iter().filter(|k| !em.used.contains(*k)).map(|k| {
        let f = &c.fns[k];
        let mut l: Vec<String> = f.ens.iter().map(|e| e.labels.clone()).collect();
        l.push(f.def.clone());
        format!("  {{\"key\": {}, \"labels\": {}, \"params\": {}, \"ngen\": {}}}", json_str(k), jarr(&l), jarr(&f.params), f.generics.len())
    }).collect();
    j.push_str(&miss.join(",\n"));
    write!(j, "\n],\n\"dropped\": {},\n\"rules\": {{{}}}\n}}\n", jarr(&em.dropped), em.rules.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ")).unwrap();
    std::fs::write(&a[5], j).unwrap();
    let _ = quote!();
    let _: Option<proc_macro2::TokenStream> = None::<Type>.map(|t| t.to_token_stream());
}
