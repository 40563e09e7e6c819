//! Library idioms to contracted stubs; `for` to `while`; literals.
use crate::index::toks;
use crate::xform::*;
use quote::{format_ident, quote};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct StdMap {
    pub n: usize,
    pub errs: Vec<String>,
    /// Locals which are texts for sure.
    pub texts: std::collections::BTreeSet<String>,
    /// The type of the result is a text.
    pub ret_text: bool,
}

struct HasExit(bool);
impl<'a> syn::visit::Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
}

/// A closure with one parameter which only gives a value.
fn simple_closure(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let mut h = HasExit(false);
            syn::visit::Visit::visit_expr(&mut h, &c.body);
            if !h.0 {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                return Some((p, (*c.body).clone()));
            }
        }
    }
    None
}

/// A source of elements as an indexed row: the row, and are elements references into it?
fn row(e: &Expr) -> Option<(Expr, bool, bool)> {
    let mut src = e.clone();
    let mut enumerate = false;
    loop {
        match &src {
            Expr::Paren(p) => src = (*p.expr).clone(),
            Expr::MethodCall(m) if m.args.is_empty() => {
                let r = &m.receiver;
                match m.method.to_string().as_str() {
                    "enumerate" if !enumerate => {
                        enumerate = true;
                        src = (**r).clone();
                    }
                    "iter" => return Some((ex(quote!(#r.vs_seq())), true, enumerate)),
                    "lines" => return Some((ex(quote!(#r.vs_lines())), false, enumerate)),
                    "chars" => return Some((ex(quote!(#r.vs_chars())), false, enumerate)),
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
}

fn is_bytes(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::ByteStr(_)),
        Expr::MethodCall(m) => m.method == "as_bytes",
        Expr::Paren(p) => is_bytes(&p.expr),
        Expr::Reference(r) => matches!(&*r.expr, Expr::Array(_)),
        _ => false,
    }
}

fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)))
}

fn lit_call(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("lit")),
        _ => false,
    }
}

/// `"c".repeat(n)` of one character
fn char_repeat(e: &Expr) -> Option<(LitChar, Expr)> {
    match e {
        Expr::Paren(p) => char_repeat(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => char_repeat(&r.expr),
        Expr::MethodCall(m) if m.method == "repeat" && m.args.len() == 1 => match &*m.receiver {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let t = s.value();
                let mut c = t.chars();
                match (c.next(), c.next()) {
                    (Some(x), None) => Some((LitChar::new(x, s.span()), m.args[0].clone())),
                    _ => None,
                }
            }
            _ => None,
        },
        _ => None,
    }
}

/// A closure over characters which is a choice of literals: those.
fn char_choice(e: &Expr) -> Option<Vec<LitChar>> {
    fn chars(p: &Pat, out: &mut Vec<LitChar>) -> bool {
        match p {
            Pat::Lit(l) => match &l.lit {
                Lit::Char(c) => {
                    out.push(c.clone());
                    true
                }
                _ => false,
            },
            Pat::Or(o) => o.cases.iter().all(|c| chars(c, out)),
            Pat::Paren(p) => chars(&p.pat, out),
            _ => false,
        }
    }
    fn go(c: &Ident, e: &Expr, out: &mut Vec<LitChar>) -> bool {
        let is = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(c));
        match e {
            Expr::Paren(p) => go(c, &p.expr, out),
            Expr::Block(b) => matches!(&b.block.stmts[..], [Stmt::Expr(e, None)] if go(c, e, out)),
            Expr::Binary(b) if matches!(b.op, BinOp::Or(_)) => go(c, &b.left, out) && go(c, &b.right, out),
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => match (&*b.left, &*b.right) {
                (l, Expr::Lit(ExprLit { lit: Lit::Char(x), .. })) if is(l) => {
                    out.push(x.clone());
                    true
                }
                (Expr::Lit(ExprLit { lit: Lit::Char(x), .. }), r) if is(r) => {
                    out.push(x.clone());
                    true
                }
                _ => false,
            },
            Expr::Match(m) if is(&m.expr) => match &m.arms[..] {
                [a, b] => {
                    let lit = |e: &Expr, v: bool| matches!(e, Expr::Lit(ExprLit { lit: Lit::Bool(x), .. }) if x.value == v);
                    a.guard.is_none() && b.guard.is_none() && matches!(b.pat, Pat::Wild(_)) && lit(&a.body, true) && lit(&b.body, false) && chars(&a.pat, out)
                }
                _ => false,
            },
            _ => false,
        }
    }
    let (p, body) = simple_closure(e)?;
    let Pat::Ident(p) = p else { return None };
    let mut out = vec![];
    go(&p.ident, &body, &mut out).then_some(out)
}

/// Is the expression a text for sure? (syntactically)
fn is_text(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_text(&p.expr),
        Expr::Reference(p) => is_text(&p.expr),
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "text" | "to_string" | "trim_end" | "trim_start" | "trim" | "as_str" | "vs_to_string" | "replace" | "repeat"),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vs_concat") || p.path.is_ident("vs_utf8_lossy")),
        Expr::Path(p) => p.path.is_ident("NL"),
        e => is_str_lit(e) || lit_call(e),
    }
}

impl StdMap {
    /// Is the value a text for sure?
    fn texty(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.texty(&p.expr),
            Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if self.texty(e)),
            Expr::Match(m) => m.arms.iter().any(|a| self.texty(&a.body)),
            Expr::If(i) => matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(e, None)) if self.texty(e)),
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if toks(&p.path).replace(' ', "") == "Str::new") || is_text(e),
            Expr::MethodCall(m) => is_text(e) || m.method == "clone" && self.texty(&m.receiver),
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.texts.contains(&i.to_string())),
            e => is_text(e),
        }
    }

    /// `row.map(f).collect()` and the like as a loop.
    fn chain(&mut self, e: &Expr, tail: bool) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        let i = self.n + 1;
        let (it, ix, out, x) = (format_ident!("it__{i}"), format_ident!("i__{i}"), format_ident!("out__{i}"), format_ident!("x__{i}"));
        let bind = |src: &Expr, pat: &Pat| -> Option<(Expr, proc_macro2::TokenStream)> {
            let (seq, by_ref, enumerate) = row(src)?;
            let elem = if by_ref { quote!(&#it[#ix]) } else { quote!(#it[#ix]) };
            let b = if enumerate {
                match pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => {
                        let (a, b) = (&t.elems[0], &t.elems[1]);
                        quote!(let #a = #ix; let #b = #elem;)
                    }
                    p => quote!(let #p = (#ix, #elem);),
                }
            } else {
                quote!(let #pat = #elem;)
            };
            Some((seq, b))
        };
        match (name.as_str(), m.args.len()) {
            ("find_map", 1) => {
                let (pat, body) = simple_closure(&m.args[0])?;
                let (seq, b) = bind(&m.receiver, &pat)?;
                self.n += 1;
                Some(ex(quote!({ let #it = #seq; let mut #ix: usize = 0; let mut #out = None;
                    while #ix < #it.len() && #out.is_none() { #b #out = #body; #ix += 1; } #out })))
            }
            ("collect", 0) => {
                let Expr::MethodCall(mm) = &*m.receiver else { return None };
                if mm.method != "map" || mm.args.len() != 1 {
                    return None;
                }
                let vec = m.turbofish.as_ref().is_some_and(|t| toks(t).replace(' ', "") == "::<Vec<_>>");
                let other = !vec && !(tail && self.ret_text) && m.turbofish.is_none();
                if !vec && m.turbofish.is_some() {
                    return None;
                }
                let (pat, body) = simple_closure(&mm.args[0])?;
                let (seq, b) = bind(&mm.receiver, &pat)?;
                self.n += 1;
                let (new, push) = if vec || other { (quote!(Vec::new()), quote!(#out.push(#x))) } else { (quote!(Str::new()), quote!(#out.push_str(&#x))) };
                let end = if other { quote!(#out.vs_collect()) } else { quote!(#out) };
                Some(ex(quote!({ let #it = #seq; let mut #ix: usize = 0; let mut #out = #new;
                    while #ix < #it.len() { #b let #x = #body; #push; #ix += 1; } #end })))
            }
            _ => None,
        }
    }

    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    fn for_loop(&mut self, l: &mut ExprForLoop) -> Expr {
        let i = self.fresh();
        let (it, ix, n) = (format_ident!("it__{i}"), format_ident!("i__{i}"), format_ident!("n__{i}"));
        let pat = &l.pat;
        let body = &l.body.stmts;
        let mut src = (*l.expr).clone();
        while let Expr::Paren(p) = src {
            src = *p.expr;
        }
        if let Expr::Range(r) = &src {
            let lo = r.start.as_ref().unwrap();
            // the same thing pushed again and again
            if let (Pat::Wild(_), Some(hi), RangeLimits::HalfOpen(_), [Stmt::Expr(Expr::MethodCall(m), _)]) = (&**pat, &r.end, &r.limits, &body[..]) {
                if m.method == "push" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(_)) && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) {
                    self.n -= 1;
                    let (v, c) = (&m.receiver, &m.args[0]);
                    return ex(quote!({ #v.vs_push_n(#lo, #hi, #c); }));
                }
            }
            let hi = r.end.as_ref().map(|e| quote!(#e)).unwrap_or(quote!(usize::MAX));
            let bind = if matches!(&**pat, Pat::Wild(_)) { quote!() } else { quote!(let #pat = #ix;) };
            if matches!(r.limits, RangeLimits::Closed(_)) {
                self.errs.push("inclusive range loop".into());
            }
            return ex(quote!({ let #n = #hi; let mut #ix = #lo;
                while #ix < #n { #bind #ix += 1; #(#body)* } }));
        }
        // chains
        let mut enumerate = false;
        let mut mode = "ref";
        loop {
            match &src {
                Expr::MethodCall(m) => match m.method.to_string().as_str() {
                    "enumerate" => {
                        enumerate = true;
                        src = (*m.receiver).clone();
                    }
                    "iter" => src = (*m.receiver).clone(),
                    "chars" => {
                        let r = &m.receiver;
                        src = ex(quote!(#r.vs_chars()));
                        mode = "val";
                        break;
                    }
                    "bytes" => {
                        let r = &m.receiver;
                        src = ex(quote!(#r.as_bytes()));
                        mode = "val";
                        break;
                    }
                    "split" => {
                        let r = &m.receiver;
                        let a = &m.args[0];
                        src = ex(quote!(vs_split(#r, #a)));
                        mode = "val";
                        break;
                    }
                    "sum" => {
                        break;
                    }
                    _ => break,
                },
                _ => break,
            }
        }
        // a sum as a loop bound
        let elem = if mode == "ref" { quote!(&#it[#ix]) } else { quote!(#it[#ix]) };
        let seq = if mode == "ref" { quote!(#src.vs_seq()) } else { quote!(#src) };
        let len = if mode == "ref" { quote!(#it.len()) } else { quote!(#it.len()) };
        let bind = if enumerate {
            if let Pat::Tuple(t) = &**pat {
                let (a, b) = (&t.elems[0], &t.elems[1]);
                quote!(let #a = #ix; let #b = #elem;)
            } else {
                quote!(let #pat = (#ix, #elem);)
            }
        } else {
            quote!(let #pat = #elem;)
        };
        ex(quote!({ let #it = #seq; let mut #ix: usize = 0;
            while #ix < #len { #bind #ix += 1; #(#body)* } }))
    }
}

fn pat_strs(p: &Pat, out: &mut Vec<Expr>) -> bool {
    match p {
        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => {
            let l = &l.lit;
            out.push(ex(quote!(#l)));
            true
        }
        Pat::Or(o) => o.cases.iter().all(|c| pat_strs(c, out)),
        Pat::Paren(p) => pat_strs(&p.pat, out),
        _ => false,
    }
}

impl StdMap {
    /// The tail of the function: its type is the one of the result.
    pub fn tail(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            if let Some(x) = self.chain(e, true) {
                *e = x;
            }
        }
    }
}

impl VisitMut for StdMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // byte string patterns and the like are left alone
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    let n = p.ident.to_string();
                    if self.texty(&i.expr) {
                        self.texts.insert(n);
                    } else {
                        self.texts.remove(&n);
                    }
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = self.chain(e, false) {
            *e = x;
            return visit_mut::visit_expr_mut(self, e);
        }
        match e {
            Expr::ForLoop(l) => {
                // a range bounded by a sum
                let x = self.for_loop(l);
                *e = x;
                return visit_mut::visit_expr_mut(self, e);
            }
            Expr::Match(m) => {
                let mut lits = vec![];
                if m.arms.iter().any(|a| pat_strs(&a.pat, &mut lits)) {
                    let i = self.fresh();
                    let s = format_ident!("s__{i}");
                    let mut chain: Option<Expr> = None;
                    for a in m.arms.iter().rev() {
                        let b = &a.body;
                        let mut l = vec![];
                        let guard = a.guard.as_ref().map(|g| g.1.clone());
                        if pat_strs(&a.pat, &mut l) {
                            let mut c = quote!();
                            for (k, x) in l.iter().enumerate() {
                                if k > 0 {
                                    c = quote!(#c ||);
                                }
                                c = quote!(#c #s.eq_str(#x));
                            }
                            if let Some(g) = guard {
                                c = quote!((#c) && #g);
                            }
                            let rest = chain.take().unwrap_or_else(|| ex(quote!({ vs_panic() })));
                            let rest = blk(rest);
                            chain = Some(ex(quote!(if #c { #b } else #rest)));
                        } else {
                            let x = match &a.pat {
                                Pat::Wild(_) => ex(quote!({ #b })),
                                Pat::Ident(p) => ex(quote!({ let #p = #s; #b })),
                                _ => {
                                    self.errs.push("match on a text".into());
                                    ex(quote!({ #b }))
                                }
                            };
                            chain = Some(x);
                        }
                    }
                    let sc = &m.expr;
                    let ch = chain.unwrap();
                    *e = ex(quote!({ let #s = #sc; #ch }));
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
            _ => {}
        }
        // bottom up for the others
        match e {
            Expr::MethodCall(m) if m.args.len() == 1 && matches!(m.method.to_string().as_str(), "trim_matches" | "trim_end_matches" | "trim_start_matches" | "strip_prefix" | "strip_suffix" | "starts_with" | "ends_with") => {
                if let Some(c) = char_choice(&m.args[0]) {
                    m.args[0] = ex(quote!([#(#c),*]));
                }
            }
            _ => {}
        }
        match e {
            Expr::MethodCall(m) if m.method == "push_str" && m.args.len() == 1 => {
                if let Some((c, n)) = char_repeat(&m.args[0]) {
                    let l = &m.receiver;
                    *e = ex(quote!(#l.vs_push_n(0usize, #n, #c)));
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, BinOp::Eq(_));
                if eq || matches!(b.op, BinOp::Ne(_)) {
                    let bytes = is_bytes(&b.left) || is_bytes(&b.right);
                    let strs = is_str_lit(&b.left) || is_str_lit(&b.right);
                    if bytes || strs {
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        if strs && is_str_lit(&l) {
                            std::mem::swap(&mut l, &mut r);
                        }
                        let x = if bytes { ex(quote!(vs_bytes_eq(#l, #r))) } else { ex(quote!(#l.eq_str(#r))) };
                        *e = if eq { x } else { ex(quote!(!#x)) };
                        return visit_mut::visit_expr_mut(self, e);
                    }
                }
                let fl = |e: &Expr| matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Float(_)));
                if eq && (fl(&b.left) || fl(&b.right)) {
                    let (l, r) = (&b.left, &b.right);
                    *e = ex(quote!(vs_f64_eq(#l, #r)));
                    return visit_mut::visit_expr_mut(self, e);
                }
                if matches!(b.op, BinOp::Add(_)) && (is_text(&b.left) || is_text(&b.right)) {
                    let (l, r) = (&b.left, &b.right);
                    *e = ex(quote!(vs_concat(#l, #r)));
                    return visit_mut::visit_expr_mut(self, e);
                }
                if matches!(b.op, BinOp::AddAssign(_)) {
                    if let Some((c, n)) = char_repeat(&b.right) {
                        let l = &b.left;
                        *e = ex(quote!(#l.vs_push_n(0usize, #n, #c)));
                        return visit_mut::visit_expr_mut(self, e);
                    }
                }
                if matches!(b.op, BinOp::AddAssign(_)) && (is_text(&b.right) || self.texty(&b.left)) {
                    let (l, r) = (&b.left, &b.right);
                    *e = ex(quote!(#l.push_str(#r)));
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    *e = ex(quote!(lit(#s)));
                }
                Lit::ByteStr(s) => {
                    let v: Vec<Expr> = s.value().iter().map(|b| {
                        let l = LitInt::new(&format!("{b}u8"), proc_macro2::Span::call_site());
                        ex(quote!(#l))
                    }).collect();
                    *e = ex(quote!(&[#(#v),*]));
                }
                Lit::Byte(b) => {
                    let l = LitInt::new(&format!("{}u8", b.value()), proc_macro2::Span::call_site());
                    *e = ex(quote!(#l));
                }
                _ => {}
            },
            Expr::Path(p) => {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let s: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
                match &s[..] {
                    ["char", "is_whitespace"] => *e = ex(quote!(IsWs)),
                    ["f64", "NAN"] => *e = ex(quote!(vs_nan())),
                    ["u64", "from_str_radix"] => *e = ex(quote!(vs_u64_radix)),
                    ["i64", "from_str_radix"] => *e = ex(quote!(vs_i64_radix)),
                    ["char", "from"] => *e = ex(quote!(vs_char_from)),
                    ["Str", "from_utf8_lossy"] => *e = ex(quote!(vs_utf8_lossy)),
                    ["Str", "from"] => *e = ex(quote!(vs_str_from)),
                    ["Ordering", o] => {
                        let o = format_ident!("{o}");
                        *e = ex(quote!(core::cmp::Ordering::#o));
                    }
                    ["Anchors", "new"] => *e = ex(quote!(AMap::new)),
                    ["BTreeMap", "new"] => *e = ex(quote!(SMap::new)),
                    _ => {}
                }
            }
            Expr::Cast(c) if toks(&c.ty) == "f64" => {
                let x = &c.expr;
                *e = ex(quote!(vs_i2f(#x)));
            }
            Expr::Cast(c) if toks(&c.ty) == "f32" => {
                let x = &c.expr;
                *e = ex(quote!(vs_f32(#x)));
            }
            Expr::Index(i) => match &*i.index {
                Expr::Call(_) if lit_call(&i.index) => {
                    let (b, x) = (&i.expr, &i.index);
                    *e = ex(quote!((*#b.vs_index(#x))));
                }
                Expr::Range(r) if matches!(r.limits, RangeLimits::Closed(_)) => {
                    let b = &i.expr;
                    let lo = &r.start;
                    let hi = r.end.as_ref().unwrap();
                    *e = ex(quote!(#b[#lo .. #hi + 1]));
                }
                _ => {}
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("contains", 1) => {
                        let a = &m.args[0];
                        *e = ex(quote!(#r.vs_contains(#a)));
                    }
                    ("to_vec", 0) => *e = ex(quote!(vs_to_vec(#r))),
                    ("drain", 1) => {
                        if let Expr::Range(x) = &m.args[0] {
                            if let (Some(lo), None) = (&x.start, &x.end) {
                                *e = ex(quote!(vs_drain_from(&mut #r, #lo)));
                            }
                        }
                    }
                    ("sum", 0) => {
                        if let Expr::MethodCall(i) = &**r {
                            if i.method == "iter" || i.method == "vs_refs" {
                                let x = &i.receiver;
                                *e = ex(quote!(vs_sum(&#x)));
                            }
                        }
                    }
                    ("into", 0) | ("into_owned", 0) => {
                        if matches!(&**r, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vs_utf8_lossy"))) {
                            *e = (**r).clone();
                        } else {
                            *e = ex(quote!(#r.vs_into()));
                        }
                    }
                    ("collect", 0) => {
                        if let Expr::MethodCall(i) = &**r {
                            if i.method == "into_iter" || i.method == "vs_into_iter" {
                                let x = &i.receiver;
                                let to = m.turbofish.as_ref().and_then(|t| t.args.first()).map(|t| toks(t)).filter(|t| !t.contains('_'));
                                *e = match to.and_then(|t| syn::parse_str::<Type>(&t).ok()) {
                                    Some(t) => ex(quote!(VCollect::<#t>::vs_collect(#x))),
                                    None => ex(quote!(#x.vs_collect())),
                                };
                            }
                        }
                    }
                    ("starts_with", 1) | ("ends_with", 1) => {
                        let a = &m.args[0];
                        if is_bytes(a) {
                            let f = format_ident!("vs_{name}");
                            *e = ex(quote!(#f(#r, #a)));
                        }
                    }
                    ("strip_prefix" | "strip_suffix", 1) if matches!(&m.args[0], Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_))) => {
                        let a = &m.args[0];
                        let f = format_ident!("vs_{name}");
                        *e = ex(quote!(#f(#r, #a)));
                    }
                    ("to_string", 0) => *e = ex(quote!(#r.vs_to_string())),
                    ("iter", 0) => *e = ex(quote!(#r.vs_refs())),
                    ("into_iter", 0) => *e = ex(quote!(#r.vs_into_iter())),
                    // the reference forwards
                    ("visit_seq" | "visit_map", 1) => {
                        if let Expr::Reference(x) = &m.args[0] {
                            if x.mutability.is_some() && matches!(&*x.expr, Expr::Call(_)) {
                                let (n, x) = (&m.method, &x.expr);
                                *e = ex(quote!(#r.#n(#x)));
                            }
                        }
                    }
                    ("chars", 0) => *e = ex(quote!(#r.vs_chars())),
                    ("lines", 0) => *e = ex(quote!(#r.vs_lines())),
                    ("nth", 1) => {
                        let a = &m.args[0];
                        *e = ex(quote!(vs_nth(&#r, #a)));
                    }
                    ("join", 1) => {
                        let a = &m.args[0];
                        *e = ex(quote!(vs_join(&#r, #a)));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
