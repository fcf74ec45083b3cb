//! Parser for the contract files (contracts/*.vc).
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub labels: String,
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub locals: Vec<String>,
    pub inv: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub start: String,
    pub end: String,
    pub decreases: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct FnC {
    pub key: String,
    pub generics: Vec<String>,
    pub params: Vec<String>,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub def: String,
    pub start: String,
    pub attrs: Vec<String>,
    pub loops: Vec<LoopC>,
    pub closures: HashMap<usize, Vec<Clause>>,
    /// obligations at calls of a function: its name, the argument they speak about ($a), the clause
    pub calls: Vec<(String, usize, Clause)>,
    pub trusted: bool,
    pub auto: bool,
}
#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: HashMap<String, FnC>,
    pub order: Vec<String>,
    /// raw text injected at the start of a trait or impl body, by key
    pub inject: HashMap<String, String>,
    /// raw text appended to a module
    pub modtext: HashMap<String, String>,
}

fn split_labels(s: &str) -> (String, String) {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('[') {
        if let Some(i) = r.find(']') {
            let l = &r[..i];
            if l.split(',').all(|x| x.trim().starts_with('C') && x.trim().len() == 3) {
                return (l.replace(' ', ""), r[i + 1..].trim().to_string());
            }
        }
    }
    (String::new(), s.to_string())
}

impl Contracts {
    pub fn parse(&mut self, file: &str, text: &str) {
        let mut lines: Vec<String> = Vec::new();
        // strip comments starting with `##`
        for l in text.lines() {
            let l = match l.find("##") {
                Some(i) => &l[..i],
                None => l,
            };
            lines.push(l.trim_end().to_string());
        }
        let mut i = 0;
        let mut cur: Option<FnC> = None;
        let mut curloop: Option<LoopC> = None;
        // gather a `{ ... }` block whose closing brace is alone in its line at the indent of the opener
        fn block(lines: &[String], i: &mut usize) -> String {
            let ind = lines[*i].len() - lines[*i].trim_start().len();
            let mut out = String::new();
            *i += 1;
            while *i < lines.len() {
                let l = &lines[*i];
                if l.trim() == "}" && l.len() - l.trim_start().len() == ind {
                    break;
                }
                out.push_str(l);
                out.push('\n');
                *i += 1;
            }
            out
        }
        fn cont(lines: &[String], i: &mut usize) -> String {
            // a clause and its continuation lines (deeper indentation)
            let ind = lines[*i].len() - lines[*i].trim_start().len();
            let mut s = lines[*i].trim().to_string();
            while *i + 1 < lines.len() {
                let n = &lines[*i + 1];
                if n.trim().is_empty() || n.len() - n.trim_start().len() <= ind {
                    break;
                }
                s.push(' ');
                s.push_str(n.trim());
                *i += 1;
            }
            s
        }
        while i < lines.len() {
            let l = lines[i].trim().to_string();
            if l.is_empty() {
                i += 1;
                continue;
            }
            let (kw, rest) = match l.find(char::is_whitespace) {
                Some(p) => (l[..p].to_string(), l[p..].trim().to_string()),
                None => (l.clone(), String::new()),
            };
            match kw.as_str() {
                "fn" => {
                    // fn key <G,..> (a, b)
                    let mut f = FnC::default();
                    let (k, mut r) = match rest.find([' ', '(', '<']) {
                        Some(p) => (rest[..p].to_string(), rest[p..].trim().to_string()),
                        None => (rest.clone(), String::new()),
                    };
                    f.key = k;
                    if r.starts_with('<') {
                        let e = r.find('>').unwrap();
                        f.generics = r[1..e].split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                        r = r[e + 1..].trim().to_string();
                    }
                    if r.starts_with('(') {
                        let e = r.find(')').unwrap();
                        f.params = r[1..e].split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                    }
                    cur = Some(f);
                }
                "end" => {
                    if let Some(lp) = curloop.take() {
                        cur.as_mut().unwrap().loops.push(lp);
                    } else {
                        let f = cur.take().unwrap_or_else(|| panic!("{file}:{}: stray end", i + 1));
                        self.order.push(f.key.clone());
                        if self.fns.insert(f.key.clone(), f.clone()).is_some() {
                            panic!("{file}: duplicate contract {}", f.key);
                        }
                    }
                }
                "loop" => {
                    let mut lp = LoopC::default();
                    if let (Some(a), Some(b)) = (rest.find('('), rest.find(')')) {
                        lp.locals = rest[a + 1..b].split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                    }
                    curloop = Some(lp);
                }
                "req" | "ens" | "inv" | "dec" => {
                    let s = cont(&lines, &mut i);
                    let (labels, text) = split_labels(s[3..].trim());
                    let c = Clause { labels, text };
                    match (kw.as_str(), curloop.as_mut()) {
                        ("inv", Some(lp)) => lp.inv.push(c),
                        ("ens", Some(lp)) => lp.ens.push(c),
                        ("dec", Some(lp)) => lp.decreases = Some(c.text),
                        ("req", None) => cur.as_mut().unwrap().req.push(c),
                        ("ens", None) => cur.as_mut().unwrap_or_else(|| panic!("{file}:{}", i + 1)).ens.push(c),
                        _ => panic!("{file}:{}: misplaced {kw}", i + 1),
                    }
                }
                "def" => cur.as_mut().unwrap().def = rest.replace(' ', ""),
                "attr" => cur.as_mut().unwrap().attrs.push(rest),
                "auto" => cur.as_mut().unwrap().auto = true,
                "trusted" => cur.as_mut().unwrap().trusted = true,
                "call" => {
                    let s = cont(&lines, &mut i);
                    let s = s["call".len()..].trim().to_string();
                    let mut w = s.splitn(3, ' ');
                    let (n, k, r) = (w.next().unwrap().to_string(), w.next().unwrap().parse().unwrap(), w.next().unwrap());
                    let (labels, text) = split_labels(r);
                    cur.as_mut().unwrap().calls.push((n, k, Clause { labels, text }));
                }
                "closure" => {
                    let s = cont(&lines, &mut i);
                    let s = s["closure".len()..].trim().to_string();
                    let p = s.find(' ').unwrap();
                    let n: usize = s[..p].parse().unwrap();
                    cur.as_mut().unwrap().closures.entry(n).or_default().push(Clause { labels: String::new(), text: s[p..].trim().to_string() });
                }
                "start" => {
                    let b = block(&lines, &mut i);
                    match curloop.as_mut() {
                        Some(lp) => lp.start = b,
                        None => cur.as_mut().unwrap().start = b,
                    }
                }
                "bodyend" => {
                    let b = block(&lines, &mut i);
                    curloop.as_mut().unwrap().end = b;
                }
                "inject" => {
                    let k = rest.trim_end_matches('{').trim().to_string();
                    let b = block(&lines, &mut i);
                    self.inject.entry(k).or_default().push_str(&b);
                }
                "module" => {
                    let k = rest.trim_end_matches('{').trim().to_string();
                    let b = block(&lines, &mut i);
                    self.modtext.entry(k).or_default().push_str(&b);
                }
                _ => panic!("{file}:{}: unknown keyword {kw}", i + 1),
            }
            i += 1;
        }
    }
}
