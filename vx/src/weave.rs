//! Contracts: the specification files and their weaving into the functions.
use crate::index::{toks, FnDef, Index};
use crate::print::{print, Side};
use crate::stdmap::StdMap;
use crate::xform::*;
use proc_macro2::{Ident, Span};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub key: String,
    pub emit: Option<String>,
    pub ret: String,
    pub locals: Vec<String>,
    pub attrs: Vec<String>,
    /// The signature may be replaced (generic arguments of the helper).
    pub sig: Option<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: String,
    /// (loop, section) -> clauses
    pub loops: BTreeMap<usize, Vec<(String, Vec<Clause>)>>,
    /// (anchor, tags, text)
    pub ghosts: Vec<(String, Vec<String>, String)>,
    pub closures: BTreeMap<usize, String>,
    /// A closure which becomes a method: `Key#n`, the result type.
    pub lift: Option<(String, String)>,
    /// The value of a statement becomes a method: key, variable, number, types.
    pub outline: Option<(String, String, usize, String)>,
    pub file: String,
    /// Type parameters with a fixed type.
    pub binds: BTreeMap<String, String>,
}

fn tags_of(l: &str) -> (Vec<String>, &str) {
    let t = l.trim_start();
    if let Some(r) = t.strip_prefix('[') {
        if let Some(e) = r.find(']') {
            let inner = &r[..e];
            if inner.split_whitespace().all(|w| w.starts_with('C') && w[1..].chars().all(|c| c.is_ascii_digit())) && !inner.trim().is_empty() {
                return (inner.split_whitespace().map(String::from).collect(), &r[e + 1..]);
            }
        }
    }
    (vec![], l)
}

fn clauses(ls: &[String]) -> Vec<Clause> {
    let mut v = vec![];
    let mut cur = Clause::default();
    for l in ls {
        if l.trim().is_empty() || l.trim().starts_with("//") {
            continue;
        }
        if cur.text.is_empty() {
            let (t, r) = tags_of(l);
            cur.tags = t;
            cur.text = r.trim().to_string();
        } else {
            cur.text += " ";
            cur.text += l.trim();
        }
        if balanced(&cur.text) && cur.text.ends_with(',') {
            cur.text.pop();
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.text.is_empty() {
        v.push(cur);
    }
    v
}

fn balanced(s: &str) -> bool {
    let mut d = 0i32;
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => d += 1,
            ')' | ']' | '}' => d -= 1,
            _ => {}
        }
    }
    d == 0
}

pub fn parse(text: &str, file: &str) -> Vec<FnSpec> {
    let mut out: Vec<FnSpec> = vec![];
    let mut sec = String::new();
    let mut buf: Vec<String> = vec![];
    fn flush(out: &mut Vec<FnSpec>, sec: &str, buf: &mut Vec<String>) {
        let ls = std::mem::take(buf);
        let Some(f) = out.last_mut() else { return };
        let w: Vec<&str> = sec.split_whitespace().collect();
        match w.first().copied() {
            Some("requires") => f.requires = clauses(&ls),
            Some("ensures") => f.ensures.extend(clauses(&ls)),
            Some("decreases") => {
                f.decreases = sec["decreases".len()..].trim().to_string() + &ls.join(" ");
            }
            Some("loop") if w.len() >= 3 && !matches!(w[2], "start" | "end") => {
                let n = w[1].parse().unwrap();
                f.loops.entry(n).or_default().push((w[2].to_string(), clauses(&ls)));
            }
            Some("closure") => {
                f.closures.insert(w[1].parse().unwrap(), ls.join("\n"));
            }
            Some("outline") => f.outline = Some((w[1].to_string(), w[2].to_string(), w[3].parse().unwrap(), w[4..].join(" "))),
            Some("lift") => f.lift = Some((w[1].to_string(), w[2..].join(" "))),
            Some("sig") => f.sig = Some(ls.join(" ")),
            Some("proof") => {
                let (t, a) = tags_of(&sec["proof".len()..]);
                f.ghosts.push((a.trim().to_string(), t, ls.join("\n")));
            }
            None => {}
            Some(x) => panic!("{}: unknown section {x}", f.key),
        }
    }
    for l in text.lines() {
        if let Some(k) = l.strip_prefix("== ") {
            flush(&mut out, &sec, &mut buf);
            sec.clear();
            let (k, e) = match k.split_once(" => ") {
                Some((a, b)) => (a, Some(b.trim().to_string())),
                None => (k, None),
            };
            out.push(FnSpec { key: k.trim().to_string(), emit: e, ret: "r".into(), file: file.into(), ..Default::default() });
        } else if l.starts_with(' ') || l.starts_with('\t') || l.is_empty() {
            buf.push(l.to_string());
        } else if l.starts_with('#') && !l.starts_with("#[") {
            continue;
        } else {
            flush(&mut out, &sec, &mut buf);
            sec.clear();
            let Some(f) = out.last_mut() else { continue };
            let (w, r) = l.split_once(' ').unwrap_or((l, ""));
            match w {
                "ret" => f.ret = r.trim().into(),
                "locals" => f.locals = r.split_whitespace().map(String::from).collect(),
                "attr" => f.attrs.push(r.into()),
                "bind" => {
                    let (a, b) = r.trim().split_once(' ').unwrap();
                    f.binds.insert(a.into(), b.trim().into());
                }
                _ => sec = l.to_string(),
            }
        }
    }
    flush(&mut out, &sec, &mut buf);
    out
}

/// Local names in the order of their first binding.
struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && !self.0.contains(&s) {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}

struct Marks<'a> {
    spec: &'a FnSpec,
    keep: &'a dyn Fn(&[String]) -> bool,
    side: Side,
    nloop: usize,
    ncl: usize,
    calls: BTreeMap<String, usize>,
    used: BTreeSet<String>,
}

impl Marks<'_> {
    fn ghost(&mut self, anchor: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (a, t, text) in &self.spec.ghosts {
            if a == anchor {
                self.used.insert(a.clone());
                if !(self.keep)(t) {
                    continue;
                }
                let k = self.side.ghost.len();
                self.side.ghost.push(text.clone());
                let l = LitInt::new(&k.to_string(), Span::call_site());
                v.push(parse_quote!(__gh!{#l};));
            }
        }
        v
    }

    fn loop_spec(&mut self, n: usize) -> String {
        let mut s = String::new();
        if let Some(secs) = self.spec.loops.get(&n) {
            let rank = |n: &str| ["invariant_except_break", "invariant", "ensures", "decreases"].iter().position(|x| *x == n).unwrap_or(9);
            let mut secs = secs.clone();
            secs.sort_by_key(|(n, _)| rank(n));
            for (name, cl) in &secs {
                let ls: Vec<&Clause> = cl.iter().filter(|c| (self.keep)(&c.tags)).collect();
                if ls.is_empty() {
                    continue;
                }
                s += &format!("    {name}\n");
                for (i, c) in ls.iter().enumerate() {
                    s += &format!("        {}, //@ loop {n} {name} {i} [{}]\n", c.text, c.tags.join(" "));
                }
            }
        }
        s
    }

    fn body(&mut self, b: &mut Block, cond: Option<&Expr>) {
        let _ = cond;
        let n = self.nloop;
        self.nloop += 1;
        let text = self.loop_spec(n);
        let k = self.side.loops.len();
        self.side.loops.push(text);
        self.visit_block_mut(b);
        let pre = self.ghost(&format!("loop {n} start"));
        let post = self.ghost(&format!("loop {n} end"));
        // the last statement gets a semicolon when ghost code follows
        if !post.is_empty() {
            if let Some(Stmt::Expr(_, s @ None)) = b.stmts.last_mut() {
                *s = Some(Default::default());
            }
        }
        let l = LitInt::new(&k.to_string(), Span::call_site());
        let mut st: Vec<Stmt> = vec![parse_quote!(__inv!{#l};)];
        st.extend(pre);
        st.append(&mut b.stmts);
        st.extend(post);
        b.stmts = st;
    }
}

/// Names called directly in a statement (nested blocks not entered).
struct Called(Vec<String>);
impl<'a> Visit<'a> for Called {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        visit::visit_expr_call(self, m);
        if let Expr::Path(p) = &*m.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
}

impl VisitMut for Marks<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let mut c = Called(vec![]);
            c.visit_stmt(&s);
            let first_loop = self.nloop;
            let mut pre = vec![];
            let mut post = vec![];
            for name in c.0 {
                let k = self.calls.entry(name.clone()).or_insert(0);
                let id = *k;
                *k += 1;
                pre.extend(self.ghost(&format!("before {name} {id}")));
                post.extend(self.ghost(&format!("after {name} {id}")));
            }
            let is_loop = matches!(&s, Stmt::Expr(Expr::Loop(_) | Expr::While(_), _))
                || matches!(&s, Stmt::Expr(Expr::Block(b), _) if matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::While(_), _))));
            if is_loop {
                pre.extend(self.ghost(&format!("before loop {first_loop}")));
            }
            self.visit_stmt_mut(&mut s);
            if is_loop {
                post.extend(self.ghost(&format!("after loop {first_loop}")));
            }
            out.extend(pre);
            let last = i + 1 == n;
            if !post.is_empty() {
                match s {
                    Stmt::Expr(e, None) if last && !matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::Block(_)) => {
                        out.push(parse_quote!(let tail__ = #e;));
                        out.extend(post);
                        out.push(Stmt::Expr(ex(quote!(tail__)), None));
                    }
                    s => {
                        out.push(s);
                        out.extend(post);
                    }
                }
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(ExprReturn { expr: Some(_), .. }) => {
                visit_mut::visit_expr_mut(self, e);
                let gh = self.ghost("exits");
                if let (false, Expr::Return(r)) = (gh.is_empty(), &*e) {
                    let x = &r.expr;
                    *e = ex(quote!({ let ret__ = #x; #(#gh)* return ret__; }));
                }
            }
            Expr::Loop(l) => self.body(&mut l.body, None),
            Expr::While(l) => {
                self.visit_expr_mut(&mut l.cond);
                self.body(&mut l.body, None)
            }
            Expr::Closure(c) => {
                let n = self.ncl;
                self.ncl += 1;
                self.visit_expr_mut(&mut c.body);
                let body = blk((*c.body).clone());
                let head = match self.spec.closures.get(&n) {
                    Some(h) => h.trim().to_string(),
                    None => {
                        let p = c.inputs.iter().map(|p| match p {
                            Pat::Type(t) => t.to_token_stream().to_string(),
                            p => format!("{}: &u8", toks(p)),
                        }).collect::<Vec<_>>().join(", ");
                        let mv = if c.capture.is_some() { "move " } else { "" };
                        format!("{mv}|{p}| -> (r__: bool) ensures r__ == ({})", toks(&c.body))
                    }
                };
                let k = self.side.closures.len();
                self.side.closures.push((head, body.to_token_stream()));
                let l = LitInt::new(&k.to_string(), Span::call_site());
                *e = Expr::Macro(parse_quote!(__cl!{#l}));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Whole-word replacement in contract text.
pub fn rename_words(s: &str, m: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    let put = |out: &mut String, w: &mut String, prev: char| {
        if prev != '.' {
            if let Some(n) = m.get(w.as_str()) {
                out.push_str(n);
                w.clear();
                return;
            }
        }
        out.push_str(w);
        w.clear();
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            if !w.is_empty() {
                put(&mut out, &mut w, prev);
            }
            out.push(c);
            prev = c;
        }
    }
    if !w.is_empty() {
        put(&mut out, &mut w, prev);
    }
    out
}

fn rename_spec(sp: &FnSpec, m: &BTreeMap<String, String>) -> FnSpec {
    let mut sp = sp.clone();
    let cl = |v: &mut Vec<Clause>| {
        for c in v {
            c.text = rename_words(&c.text, m);
        }
    };
    cl(&mut sp.requires);
    cl(&mut sp.ensures);
    sp.decreases = rename_words(&sp.decreases, m);
    for l in sp.loops.values_mut() {
        for (_, c) in l {
            cl(c);
        }
    }
    for g in &mut sp.ghosts {
        g.2 = rename_words(&g.2, m);
    }
    for c in sp.closures.values_mut() {
        *c = rename_words(c, m);
    }
    sp
}

pub struct Woven {
    pub text: String,
    pub self_ty: Option<String>,
    pub inlined: BTreeSet<String>,
    pub loops: usize,
    pub soft: String,
}

struct Consts<'a>(&'a Index);
impl VisitMut for Consts<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some((_, x)) = self.0.consts.get(&p.path.segments[0].ident.to_string()) {
                    *e = const_fold(x);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn const_fold(e: &Expr) -> Expr {
    if let Expr::If(i) = e {
        if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = &*i.cond {
            let br = if b.value { Expr::Block(parse_quote!({})) } else { Expr::Block(parse_quote!({})) };
            let _ = br;
            let blk = if b.value {
                Some(i.then_branch.clone())
            } else {
                i.else_branch.as_ref().and_then(|(_, e)| if let Expr::Block(b) = &**e { Some(b.block.clone()) } else { None })
            };
            if let Some(b) = blk {
                if let Some(Stmt::Expr(x, None)) = b.stmts.first() {
                    return const_fold(x);
                }
            }
        }
    }
    e.clone()
}

pub fn weave(
    ix: &Index,
    sp: &FnSpec,
    contracted: &BTreeSet<String>,
    keep: &dyn Fn(&[String]) -> bool,
    is_ext: bool,
) -> R<Woven> {
    let f = ix.fns.get(&sp.key).ok_or_else(|| format!("lost anchor: function {} is gone", sp.key))?;
    let mut xf = Xf {
        ix,
        contracted,
        self_ty: None,
        n: 0,
        depth: 0,
        inlined: Default::default(),
        called: Default::default(),
        closures: Default::default(),
        binds: sp.binds.clone(),
        acts: Default::default(),
    };
    let (mut sig, mut b) = if is_ext {
        (xf.signature(f), parse_quote!({}))
    } else {
        xf.function(f).map_err(|e| format!("{}: {e}", sp.key))?
    };
    Consts(ix).visit_block_mut(&mut b);
    let ret_text = matches!(&sig.output, ReturnType::Type(_, t) if crate::index::toks(t) == "Str");
    let mut sm = StdMap { n: 0, errs: vec![], texts: Default::default(), ret_text };
    sm.tail(&mut b);
    sm.visit_block_mut(&mut b);
    if let Some(e) = sm.errs.first() {
        return Err(format!("{}: {e}", sp.key));
    }
    renumber(&mut b);
    // parameters and locals may have been renamed
    let mut lo = Locals(vec![]);
    lo.visit_signature(&sig);
    lo.visit_block(&b);
    let mut ren = BTreeMap::new();
    if !sp.locals.is_empty() {
        let missing: Vec<&String> = sp.locals.iter().filter(|l| !lo.0.contains(l)).collect();
        let new: Vec<&String> = lo.0.iter().filter(|l| !sp.locals.contains(l)).collect();
        if missing.len() <= new.len() {
            for (m, n) in missing.iter().zip(new.iter()) {
                ren.insert((*m).clone(), (*n).clone());
            }
        }
    }
    let sp2 = rename_spec(sp, &ren);
    let sp = &sp2;
    let mut mk = Marks {
        spec: sp,
        keep,
        side: Side::default(),
        nloop: 0,
        ncl: 0,
        calls: Default::default(),
        used: Default::default(),
    };
    mk.visit_block_mut(&mut b);
    let start = mk.ghost("start");
    let end = mk.ghost("end");
    if !end.is_empty() {
        match b.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                if matches!(sig.output, ReturnType::Default) {
                    b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                    b.stmts.extend(end);
                } else {
                    b.stmts.push(parse_quote!(let end__ = #e;));
                    b.stmts.extend(end);
                    b.stmts.push(Stmt::Expr(ex(quote!(end__)), None));
                }
            }
            Some(s) => {
                b.stmts.push(s);
                b.stmts.extend(end);
            }
            None => b.stmts.extend(end),
        }
    }
    if !start.is_empty() {
        let mut st = start;
        st.append(&mut b.stmts);
        b.stmts = st;
    }
    // hints without their place are left out
    let mut soft = String::new();
    for (a, _, _) in &sp.ghosts {
        if !mk.used.contains(a) && !is_ext && a != "exits" {
            soft = format!("lost anchor: {} at `{a}`", sp.key);
        }
    }
    for n in sp.loops.keys() {
        if *n >= mk.nloop && !is_ext {
            soft = format!("lost anchor: {} loop {n}", sp.key);
        }
    }
    if mk.nloop > sp.loops.len() && !is_ext && sp.loops.keys().max().map_or(true, |m| mk.nloop > m + 1) {
        soft = format!("lost anchor: {} has a new loop", sp.key);
    }
    // signature
    let mut text = String::new();
    if is_ext {
        text += "#[verifier::external_body]\n";
    }
    for a in &sp.attrs {
        text += &format!("{a}\n");
    }
    let name = sp.emit.clone().unwrap_or(f.name.clone());
    sig.ident = Ident::new(&name, Span::call_site());
    let (mut gens, wh) = (toks(&sig.generics), sig.generics.where_clause.as_ref().map(toks).unwrap_or_default());
    if gens == "< >" {
        gens.clear();
    }
    let ins: Vec<String> = sig.inputs.iter().map(|a| match a {
        FnArg::Typed(t) => print(t.to_token_stream(), &Side::default()),
        FnArg::Receiver(r) => toks(r).replace("& mut self", "&mut self").replace("& self", "&self"),
    }).collect();
    let out = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> ({}: {})", sp.ret, toks(&**t)),
    };
    match &sp.sig {
        Some(s) => text += &format!("{}\n", s.trim()),
        None => text += &format!("pub fn {name}{gens}({}){out} {wh}\n", ins.join(", ")),
    }
    let mut put = |kw: &str, cl: &[Clause]| {
        let v: Vec<&Clause> = cl.iter().filter(|c| keep(&c.tags)).collect();
        if !v.is_empty() {
            text += &format!("    {kw}\n");
            for (i, c) in v.iter().enumerate() {
                text += &format!("        {}, //@ {kw} {i} [{}]\n", c.text, c.tags.join(" "));
            }
        }
    };
    put("requires", &sp.requires);
    put("ensures", &sp.ensures);
    if !sp.decreases.is_empty() {
        text += &format!("    decreases {},\n", sp.decreases);
    }
    if is_ext {
        text += if out.contains("impl Fn") { "{ |_c| unimplemented!() }\n" } else { "{ unimplemented!() }\n" };
        return Ok(Woven { text, self_ty: f.self_ty.clone(), inlined: xf.inlined, loops: mk.nloop, soft });
    }
    text += "{";
    let body = print(b.stmts.iter().map(|s| s.to_token_stream()).collect(), &mk.side);
    text += "\n    ";
    text += &body;
    text += "\n}\n";
    Ok(Woven { text, self_ty: f.self_ty.clone(), inlined: xf.inlined, loops: mk.nloop, soft })
}
