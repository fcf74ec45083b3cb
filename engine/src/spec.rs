//! Translation of pure expression bodies to specification expressions
//! (used for closure postconditions and for the contracts of helper functions
//! that have no hand-written contract).  The result is never trusted: Verus
//! proves the executable body against it.
use quote::ToTokens;
use std::collections::HashSet;
use syn::*;

pub struct Names {
    /// names of available spec functions (`f_s`)
    pub s: HashSet<String>,
    /// names of available precondition predicates (`f_q`)
    pub q: HashSet<String>,
    /// free spec functions of the shim (reachable unqualified everywhere)
    pub free: HashSet<String>,
    /// generated twins
    pub auto: HashSet<String>,
    /// generic parameters of the crate's structs
    /// crate functions: which parameters are byte slices (arguments may be auto-dereferenced)
    pub bytes: std::collections::HashMap<String, Vec<bool>>,
    pub gstructs: std::collections::HashMap<String, Vec<String>>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Val,
    Safe,
}

pub struct Sx<'a> {
    pub n: &'a Names,
    pub mode: Mode,
    pub cnt: usize,
    pub gens: Vec<String>,
}

type R = std::result::Result<String, String>;

/// key of a called path in the name sets: free functions are prefixed with `::`
pub fn fkey(p: &Path, suffix: &str) -> String {
    let n = p.segments.len();
    let l = &p.segments[n - 1].ident;
    let free = n < 2 || p.segments[n - 2].ident.to_string().starts_with(|c: char| c.is_lowercase());
    if free { format!("::{l}_{suffix}") } else { format!("{l}_{suffix}") }
}

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn is_ctor(id: &str) -> bool {
    id.chars().next().map_or(false, |c| c.is_uppercase()) && id.chars().any(|c| c.is_lowercase())
}

/// does the expression leave its function early (`?`, return) - not looking into closures
fn exits(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Try(_) | Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl<'a> Sx<'a> {
    fn fresh(&mut self, p: &str) -> String {
        self.cnt += 1;
        format!("vx_{p}{}", self.cnt)
    }
    fn has_q(&self, e: &Expr) -> bool {
        if self.mode == Mode::Val {
            return false;
        }
        struct V<'b>(&'b HashSet<String>, bool);
        impl<'a, 'b> visit::Visit<'a> for V<'b> {
            fn visit_expr(&mut self, e: &'a Expr) {
                match e {
                    Expr::Call(c) => {
                        if let Expr::Path(p) = &*c.func {
                            if self.0.contains(&fkey(&p.path, "q")) {
                                self.1 = true;
                            }
                        }
                    }
                    Expr::MethodCall(m) => {
                        if self.0.contains(&format!("{}_q", m.method)) {
                            self.1 = true;
                        }
                    }
                    _ => {}
                }
                visit::visit_expr(self, e)
            }
        }
        let mut v = V(&self.n.q, false);
        visit::Visit::visit_expr(&mut v, e);
        v.1
    }
    fn simple(&self, e: &Expr) -> bool {
        !exits(e) && !self.has_q(e)
    }
    fn fin(&self, v: String) -> String {
        match self.mode {
            Mode::Val => v,
            Mode::Safe => "true".into(),
        }
    }

    /// constructor path with the generic arguments spelled out when they are those in scope
    fn ctor(&self, p: &Path) -> String {
        if p.segments.len() == 1 && p.segments[0].arguments.is_empty() {
            if let Some(g) = self.n.gstructs.get(&p.segments[0].ident.to_string()) {
                if !g.is_empty() && g.iter().all(|x| self.gens.contains(x)) {
                    return format!("{}::<{}>", p.segments[0].ident, g.join(", "));
                }
            }
        }
        ts(p)
    }

    /// whole body
    pub fn body(&mut self, b: &Block) -> R {
        self.block(b, &mut |s, v| Ok(s.fin(v)))
    }

    fn pat(&self, p: &Pat) -> R {
        match p {
            Pat::Ident(i) if i.subpat.is_none() => {
                if i.mutability.is_some() {
                    return Err("mut binding".into());
                }
                Ok(i.ident.to_string())
            }
            Pat::Tuple(t) => Ok(format!("({})", t.elems.iter().map(|p| self.pat(p)).collect::<std::result::Result<Vec<_>, _>>()?.join(", "))),
            Pat::Wild(_) => Ok("_".into()),
            Pat::Type(t) => self.pat(&t.pat),
            Pat::TupleStruct(t) => Ok(format!("{}({})", ts(&t.path), t.elems.iter().map(|p| self.pat(p)).collect::<std::result::Result<Vec<_>, _>>()?.join(", "))),
            Pat::Struct(s) => {
                let mut f = vec![];
                for x in &s.fields {
                    f.push(format!("{}: {}", ts(&x.member), self.pat(&x.pat)?));
                }
                Ok(format!("{} {{ {} {} }}", ts(&s.path), f.iter().map(|x| format!("{x}, ")).collect::<String>(), if s.rest.is_some() { ".." } else { "" }))
            }
            Pat::Lit(_) | Pat::Path(_) => Ok(ts(p)),
            Pat::Or(o) => Ok(o.cases.iter().map(|p| self.pat(p)).collect::<std::result::Result<Vec<_>, _>>()?.join(" | ")),
            Pat::Reference(r) => self.pat(&r.pat),
            Pat::Paren(r) => self.pat(&r.pat),
            _ => Err(format!("pattern {}", ts(p))),
        }
    }

    fn block(&mut self, b: &Block, k: &mut dyn FnMut(&mut Self, String) -> R) -> R {
        self.stmts(&b.stmts, k)
    }

    fn stmts(&mut self, st: &[Stmt], k: &mut dyn FnMut(&mut Self, String) -> R) -> R {
        if st.is_empty() {
            return k(self, "()".into());
        }
        let rest = &st[1..];
        match &st[0] {
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("uninitialised let")?;
                let pat = self.pat(&l.pat)?;
                if let Some((_, d)) = &init.diverge {
                    let d = d.clone();
                    return self.expr(&init.expr, &mut |s, v| {
                        let r = s.stmts(rest, k)?;
                        let e = s.expr(&d, &mut |s, v| Ok(s.fin(v)))?;
                        Ok(format!("match {v} {{ {pat} => {r}, _ => {e} }}"))
                    });
                }
                self.expr(&init.expr, &mut |s, v| {
                    let r = s.stmts(rest, k)?;
                    Ok(format!("{{ let {pat} = {v}; {r} }}"))
                })
            }
            Stmt::Expr(e, semi) => {
                if rest.is_empty() && semi.is_none() {
                    return self.expr(e, k);
                }
                // statement position
                match e {
                    Expr::Return(_) => self.expr(e, k),
                    Expr::Assign(a) => {
                        // straight-line reassignment becomes a shadowing let
                        if let Expr::Path(p) = &*a.left {
                            if let Some(id) = p.path.get_ident() {
                                let id = id.to_string();
                                return self.expr(&a.right, &mut |s, v| {
                                    let r = s.stmts(rest, k)?;
                                    Ok(format!("{{ let {id} = {v}; {r} }}"))
                                });
                            }
                        }
                        Err("assignment".into())
                    }
                    Expr::If(_) | Expr::Match(_) | Expr::Block(_) if exits(e) || self.has_q(e) => {
                        // a guard: every arm either leaves or falls through
                        if has_assign(e) {
                            return Err("assignment in branch".into());
                        }
                        self.branch(e, &mut |s, _v| s.stmts(rest, k))
                    }
                    Expr::If(_) | Expr::Match(_) | Expr::Block(_) => {
                        if has_assign(e) {
                            return Err("assignment in branch".into());
                        }
                        if !harmless(e) {
                            return Err("effect statement".into());
                        }
                        self.stmts(rest, k)
                    }
                    e if simple_path(e) => self.stmts(rest, k),
                    Expr::Try(_) => self.expr(e, &mut |s, _v| s.stmts(rest, k)),
                    _ => Err(format!("statement {}", ts(e))),
                }
            }
            Stmt::Item(_) => Err("item".into()),
            Stmt::Macro(_) => Err("macro".into()),
        }
    }

    /// branches evaluated with a (duplicated) continuation
    fn branch(&mut self, e: &Expr, k: &mut dyn FnMut(&mut Self, String) -> R) -> R {
        match e {
            Expr::If(i) => {
                let els: Option<&Expr> = i.else_branch.as_ref().map(|(_, e)| &**e);
                if let Expr::Let(l) = &*i.cond {
                    let pat = self.pat(&l.pat)?;
                    return self.expr(&l.expr, &mut |s, v| {
                        let t = s.block(&i.then_branch, k)?;
                        let f = match els {
                            Some(e) => s.branch(e, k)?,
                            None => k(s, "()".into())?,
                        };
                        Ok(format!("match {v} {{ {pat} => {t}, _ => {f} }}"))
                    });
                }
                self.expr(&i.cond, &mut |s, c| {
                    let t = s.block(&i.then_branch, k)?;
                    let f = match els {
                        Some(e) => s.branch(e, k)?,
                        None => k(s, "()".into())?,
                    };
                    Ok(format!("if {c} {{ {t} }} else {{ {f} }}"))
                })
            }
            Expr::Match(m) => self.expr(&m.expr, &mut |s, v| {
                let mut o = format!("match {v} {{ ");
                for a in &m.arms {
                    if a.guard.is_some() {
                        return Err("match guard".into());
                    }
                    let p = s.pat(&a.pat)?;
                    let b = s.branch(&a.body, k)?;
                    o.push_str(&format!("{p} => {{ {b} }}, "));
                }
                o.push('}');
                Ok(o)
            }),
            Expr::Block(b) if b.label.is_none() => self.block(&b.block, k),
            _ => self.expr(e, k),
        }
    }

    fn exprs(&mut self, es: &[&Expr], acc: Vec<String>, k: &mut dyn FnMut(&mut Self, Vec<String>) -> R) -> R {
        if es.is_empty() {
            return k(self, acc);
        }
        let rest = &es[1..];
        self.expr(es[0], &mut |s, v| {
            let mut a = acc.clone();
            a.push(v);
            s.exprs(rest, a, k)
        })
    }

    pub fn expr(&mut self, e: &Expr, k: &mut dyn FnMut(&mut Self, String) -> R) -> R {
        match e {
            Expr::Paren(p) => self.expr(&p.expr, &mut |s, v| k(s, format!("({v})"))),
            Expr::Group(p) => self.expr(&p.expr, k),
            Expr::Lit(l) => match &l.lit {
                Lit::Int(_) | Lit::Bool(_) => k(self, ts(l)),
                _ => Err("literal".into()),
            },
            Expr::Path(p) => k(self, ts(p)),
            Expr::Field(f) => {
                let m = ts(&f.member);
                self.expr(&f.base, &mut |s, v| k(s, format!("{v}.{m}")))
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    return Err("&mut".into());
                }
                self.expr(&r.expr, &mut |s, v| k(s, format!("(&{v})")))
            }
            Expr::Unary(u) => {
                let op = ts(&u.op);
                if matches!(u.op, UnOp::Neg(_)) {
                    return Err("neg".into());
                }
                self.expr(&u.expr, &mut |s, v| k(s, format!("({op}{v})")))
            }
            Expr::Tuple(t) => {
                let es: Vec<&Expr> = t.elems.iter().collect();
                self.exprs(&es, vec![], &mut |s, v| k(s, if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }))
            }
            Expr::Struct(st) => {
                if st.rest.is_some() {
                    return Err("struct update".into());
                }
                let es: Vec<&Expr> = st.fields.iter().map(|f| &f.expr).collect();
                let names: Vec<String> = st.fields.iter().map(|f| ts(&f.member)).collect();
                let path = self.ctor(&st.path);
                self.exprs(&es, vec![], &mut |s, v| {
                    let f: Vec<String> = names.iter().zip(&v).map(|(n, v)| format!("{n}: {v}")).collect();
                    k(s, format!("{path} {{ {} }}", f.join(", ")))
                })
            }
            Expr::Array(a) => {
                let es: Vec<&Expr> = a.elems.iter().collect();
                self.exprs(&es, vec![], &mut |s, v| k(s, format!("[{}]", v.join(", "))))
            }
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::And(_) | BinOp::Or(_) => {
                        if !self.simple(&b.right) {
                            return Err("short-circuit with effects".into());
                        }
                        ts(&b.op)
                    }
                    BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => ts(&b.op),
                    _ => return Err("arithmetic".into()),
                };
                self.expr(&b.left, &mut |s, l| s.expr(&b.right, &mut |s, r| k(s, format!("({l} {op} {r})"))))
            }
            Expr::Cast(_) => Err("cast".into()),
            Expr::If(_) | Expr::Match(_) => {
                if exits(e) || self.has_q(e) {
                    self.branch(e, k)
                } else {
                    // pure conditional value, continuation used once
                    let m = self.mode;
                    self.mode = Mode::Val;
                    let v = self.branch(e, &mut |_s, v| Ok(v));
                    self.mode = m;
                    let v = v?;
                    k(self, format!("({v})"))
                }
            }
            Expr::Block(b) if b.label.is_none() => {
                if exits(e) || self.has_q(e) {
                    self.block(&b.block, k)
                } else {
                    let m = self.mode;
                    self.mode = Mode::Val;
                    let v = self.block(&b.block, &mut |_s, v| Ok(v));
                    self.mode = m;
                    let v = v?;
                    k(self, v)
                }
            }
            Expr::Return(r) => match &r.expr {
                Some(e) => self.expr(e, &mut |s, v| Ok(s.fin(v))),
                None => Ok(self.fin("()".into())),
            },
            Expr::Try(t) => {
                let (o, er) = (self.fresh("o"), self.fresh("e"));
                self.expr(&t.expr, &mut |s, v| {
                    let r = k(s, o.clone())?;
                    let f = s.fin(format!("Err({er})"));
                    Ok(format!("match {v} {{ Ok({o}) => {{ {r} }}, Err({er}) => {{ {f} }} }}"))
                })
            }
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) => p,
                    _ => return Err("call".into()),
                };
                let last = p.path.segments.last().unwrap().ident.to_string();
                let es: Vec<&Expr> = c.args.iter().collect();
                if is_ctor(&last) || last == "Self" {
                    let f = self.ctor(&p.path);
                    return self.exprs(&es, vec![], &mut |s, v| k(s, format!("{f}({})", v.join(", "))));
                }
                let first = p.path.segments.first().unwrap().ident.to_string();
                if last == "from" && first == "bool" && es.len() == 1 {
                    return self.expr(es[0], &mut |s, v| k(s, format!("{v}.b")));
                }
                if !self.n.s.contains(&fkey(&p.path, "s")) {
                    return Err(format!("no spec for {last}"));
                }
                let q = self.mode == Mode::Safe && self.n.q.contains(&fkey(&p.path, "q"));
                let mk = |suffix: &str| {
                    let mut p2 = p.clone();
                    let nm = format!("{last}_{suffix}");
                    let nseg = p2.path.segments.len();
                    if p2.qself.is_none() && self.n.free.contains(&nm) && !self.n.auto.contains(&format!("::{nm}"))
                        && (nseg < 2 || p2.path.segments[nseg - 2].ident.to_string().starts_with(|c: char| c.is_lowercase()))
                    {
                        let l = p2.path.segments.last().unwrap().clone();
                        p2.path = Path { leading_colon: None, segments: [l].into_iter().collect() };
                    }
                    if let (Some(_), true) = (&p2.qself, nseg >= 2) {
                        let tr = p2.path.segments[nseg - 2].ident.to_string();
                        if tr == "Group" || tr == "Digest" {
                            let g = Ident::new(&format!("{tr}Spec"), p2.path.segments[nseg - 2].ident.span());
                            let l = p2.path.segments.last().unwrap().clone();
                            p2.path = parse_quote!(#g :: #l);
                            p2.qself.as_mut().unwrap().position = 1;
                            p2.qself.as_mut().unwrap().as_token = Some(Default::default());
                        }
                    }
                    let l = p2.path.segments.last_mut().unwrap();
                    l.ident = Ident::new(&format!("{last}_{suffix}"), l.ident.span());
                    ts(&p2)
                };
                let (fs, fq) = (mk("s"), mk("q"));
                let by = self.n.bytes.get(fkey(&p.path, "s").strip_suffix("_s").unwrap()).cloned().unwrap_or_default();
                self.exprs(&es, vec![], &mut |s, v| {
                    let a = v.iter().enumerate().map(|(i, x)| if by.len() == v.len() && by[i] { format!("{x}.vx_as_ref_s()") } else { x.clone() }).collect::<Vec<_>>().join(", ");
                    let r = k(s, format!("{fs}({a})"))?;
                    Ok(if q { format!("(({fq}({a})) && ({r}))") } else { r })
                })
            }
            Expr::MethodCall(m) => self.method(m, k),
            Expr::Closure(_) => Err("closure value".into()),
            _ => Err(format!("expression {}", ts(e))),
        }
    }

    /// inline a one-parameter closure body as a pure value over `arg`
    fn inline(&mut self, c: &Expr, arg: &str) -> R {
        let c = match c {
            Expr::Closure(c) => c,
            _ => return Err("not a closure".into()),
        };
        if c.inputs.len() != 1 {
            return Err("closure arity".into());
        }
        let p = match &c.inputs[0] {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Type(t) => self.pat(&t.pat)?,
            o => self.pat(o)?,
        };
        if self.has_q(&c.body) {
            return Err("precondition inside a combinator closure".into());
        }
        let m = self.mode;
        self.mode = Mode::Val;
        let b = match &*c.body {
            // closure bodies carry a vx_ens placeholder as their first statement
            Expr::Block(b) => {
                let st: Vec<Stmt> = b.block.stmts.iter().filter(|s| !matches!(s, Stmt::Macro(_))).cloned().collect();
                self.stmts(&st, &mut |_s, v| Ok(v))
            }
            e => self.expr(e, &mut |_s, v| Ok(v)),
        };
        self.mode = m;
        Ok(format!("{{ let {p} = {arg}; {} }}", b?))
    }

    fn method(&mut self, m: &ExprMethodCall, k: &mut dyn FnMut(&mut Self, String) -> R) -> R {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        match (name.as_str(), a.len()) {
            ("map_err", 1) => {
                let (o, er) = (self.fresh("o"), self.fresh("e"));
                let body = self.inline(a[0], &er)?;
                self.expr(recv, &mut |s, v| k(s, format!("(match {v} {{ Ok({o}) => Ok({o}), Err({er}) => Err({body}) }})")))
            }
            ("map", 1) => {
                let t = self.fresh("t");
                let body = self.inline(a[0], &format!("{t}.s_val()"))?;
                self.expr(recv, &mut |s, v| k(s, format!("{{ let {t} = {v}; {t}.s_mk({body}) }}")))
            }
            ("and_then", 1) => {
                let t = self.fresh("t");
                let body = self.inline(a[0], &format!("{t}.s_val()"))?;
                self.expr(recv, &mut |s, v| k(s, format!("{{ let {t} = {v}; {t}.s_and({body}) }}")))
            }
            ("vx_filter", 1) => {
                let t = self.fresh("t");
                let body = self.inline(a[0], &format!("(&{t})"))?;
                self.expr(recv, &mut |s, v| k(s, format!("(match {v} {{ Some({t}) => if {body} {{ Some({t}) }} else {{ None }}, None => None }})")))
            }
            ("ok_or", 1) => {
                let t = self.fresh("t");
                self.expr(recv, &mut |s, v| s.expr(a[0], &mut |s, w| k(s, format!("(match {v} {{ Some({t}) => Ok({t}), None => Err({w}) }})"))))
            }
            ("ok", 0) => {
                let t = self.fresh("t");
                self.expr(recv, &mut |s, v| k(s, format!("(match {v} {{ Ok({t}) => Some({t}), Err(_) => None }})")))
            }
            ("is_some", 0) => self.expr(recv, &mut |s, v| k(s, format!("({v} is Some)"))),
            ("is_none", 0) => self.expr(recv, &mut |s, v| k(s, format!("({v} is None)"))),
            ("is_ok", 0) => self.expr(recv, &mut |s, v| k(s, format!("({v} is Ok)"))),
            ("is_err", 0) => self.expr(recv, &mut |s, v| k(s, format!("({v} is Err)"))),
            ("clone", 0) => self.expr(recv, k),
            ("len", 0) => self.expr(recv, &mut |s, v| k(s, format!("{v}.vx_len_s()"))),
            ("unwrap", 0) | ("expect", 1) => {
                let safe = self.mode == Mode::Safe;
                self.expr(recv, &mut |s, v| {
                    let r = k(s, format!("{v}.s_val()"))?;
                    Ok(if safe { format!("(({v}.s_okay()) && ({r}))") } else { r })
                })
            }
            _ => {
                if !self.n.s.contains(&format!("{name}_s")) {
                    return Err(format!("no spec for method {name}"));
                }
                let q = self.mode == Mode::Safe && self.n.q.contains(&format!("{name}_q"));
                let tf = m.turbofish.as_ref().map(|t| ts(t)).unwrap_or_default();
                let mut es: Vec<&Expr> = vec![recv];
                es.extend(a);
                self.exprs(&es, vec![], &mut |s, v| {
                    let args = v[1..].join(", ");
                    let r = k(s, format!("{}.{name}_s{tf}({args})", v[0]))?;
                    Ok(if q { format!("(({}.{name}_q({args})) && ({r}))", v[0]) } else { r })
                })
            }
        }
    }
}

fn simple_path(e: &Expr) -> bool {
    matches!(e, Expr::Path(_) | Expr::Lit(_)) || matches!(e, Expr::Tuple(t) if t.elems.is_empty())
}
fn harmless(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_) | Expr::Loop(_) | Expr::While(_) => self.0 = false,
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(true);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn has_assign(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Assign(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}
