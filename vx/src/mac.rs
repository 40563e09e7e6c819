//! Expansion of what the compiler leaves as `format_args!` and friends.
use crate::xform::ex;
use proc_macro2::{Ident, Span};
use quote::{format_ident, quote};
use syn::punctuated::Punctuated;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Macros {
    n: usize,
}

fn last(e: &Expr) -> String {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

fn fmt_mac(e: &Expr) -> Option<(String, Vec<Expr>)> {
    let Expr::Macro(m) = e else { return None };
    if m.mac.path.segments.last()?.ident != "format_args" {
        return None;
    }
    let es = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let mut it = es.into_iter();
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = it.next() else { return None };
    Some((s.value(), it.collect()))
}

impl Macros {
    /// `let v = e;`, where a value which `e` only looks into lives on.
    fn hold(v: &Ident, e: &Expr) -> Vec<Stmt> {
        if let Expr::MethodCall(m) = e {
            if m.args.is_empty() && matches!(m.method.to_string().as_str(), "trim" | "trim_end" | "trim_start" | "as_str") && matches!(&*m.receiver, Expr::Call(_) | Expr::MethodCall(_)) {
                let h = format_ident!("h__{}", v);
                let (r, f) = (&m.receiver, &m.method);
                return vec![parse_quote!(let #h = #r;), parse_quote!(let #v = #h.#f();)];
            }
        }
        vec![parse_quote!(let #v = #e;)]
    }

    pub fn run(b: &mut Block) {
        Macros { n: 0 }.visit_block_mut(b);
    }

    /// Statements which append the formatted text to `out`.
    fn pieces(&mut self, t: &str, args: &[Expr], out: &Expr, deref: bool) -> Vec<Stmt> {
        let mut v = vec![];
        let mut lit = String::new();
        let mut cs = t.chars().peekable();
        let flush = |lit: &mut String, v: &mut Vec<Stmt>| {
            if !lit.is_empty() {
                let l = LitStr::new(lit, Span::call_site());
                v.push(parse_quote!(#out.push_str(#l);));
                lit.clear();
            }
        };
        let mut next = 0;
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    lit.push('{');
                }
                '}' => {
                    cs.next();
                    lit.push('}');
                }
                '{' => {
                    flush(&mut lit, &mut v);
                    let mut s = String::new();
                    for c in cs.by_ref() {
                        if c == '}' {
                            break;
                        }
                        s.push(c);
                    }
                    let (n, f) = s.split_once(':').unwrap_or((&s, ""));
                    let i = n.parse().unwrap_or(next);
                    next = i + 1;
                    let a = &args[i];
                    let m = match f {
                        "" => Ident::new("vs_fmt", Span::call_site()),
                        "?" => Ident::new("vs_fmt_debug", Span::call_site()),
                        _ => Ident::new("vs_fmt_unsupported", Span::call_site()),
                    };
                    if deref {
                        v.push(parse_quote!(#a.#m(#out);));
                    } else {
                        v.push(parse_quote!(#a.#m(&mut #out);));
                    }
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut v);
        v
    }
}

impl VisitMut for Macros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // must_use({ format(..) })
        if let Expr::Call(c) = e {
            match last(&c.func).as_str() {
                "must_use" => {
                    let mut x = c.args[0].clone();
                    if let Expr::Block(b) = &x {
                        if b.block.stmts.len() == 1 {
                            if let Stmt::Expr(y, None) = &b.block.stmts[0] {
                                x = y.clone();
                            }
                        }
                    }
                    *e = x;
                    return self.visit_expr_mut(e);
                }
                "format" => {
                    if let Some((t, mut args)) = fmt_mac(&c.args[0]) {
                        for a in &mut args {
                            self.visit_expr_mut(a);
                        }
                        self.n += 1;
                        let f = format_ident!("f__{}", self.n);
                        // arguments are evaluated first
                        let mut pre: Vec<Stmt> = vec![];
                        let mut vs = vec![];
                        for (i, a) in args.iter().enumerate() {
                            if crate::xform::simple(a) {
                                vs.push(a.clone());
                            } else {
                                let v = format_ident!("a__{}_{}", self.n, i);
                                pre.extend(Self::hold(&v, a));
                                vs.push(ex(quote!(#v)));
                            }
                        }
                        let ps = self.pieces(&t, &vs, &ex(quote!(#f)), false);
                        *e = ex(quote!({ #(#pre)* let mut #f = Str::new(); #(#ps)* #f }));
                        return;
                    }
                }
                "box_assume_init_into_vec_unsafe" => {
                    let mut arr = None;
                    if let Some(Expr::Call(w)) = c.args.first() {
                        if let Some(Expr::Array(a)) = w.args.last() {
                            arr = Some(a.elems.iter().cloned().collect::<Vec<_>>());
                        }
                    }
                    if let Some(mut es) = arr {
                        for a in &mut es {
                            self.visit_expr_mut(a);
                        }
                        self.n += 1;
                        let f = format_ident!("vec__{}", self.n);
                        *e = ex(quote!({ let mut #f = Vec::new(); #(#f.push(#es);)* #f }));
                        return;
                    }
                }
                "panic_fmt" | "panic" | "panic_display" | "unreachable_display" | "panic_explicit" | "unreachable" => {
                    *e = ex(quote!(vs_panic()));
                    return;
                }
                _ => {}
            }
        }
        // write_fmt(..).unwrap()
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap" {
                if let Expr::MethodCall(w) = &*m.receiver {
                    if w.method == "write_fmt" {
                        if let Some((t, mut args)) = fmt_mac(&w.args[0]) {
                            for a in &mut args {
                                self.visit_expr_mut(a);
                            }
                            self.n += 1;
                            let mut pre: Vec<Stmt> = vec![];
                            let mut vs = vec![];
                            for (i, a) in args.iter().enumerate() {
                                if crate::xform::simple(a) {
                                    vs.push(a.clone());
                                } else {
                                    let v = format_ident!("a__{}_{}", self.n, i);
                                    pre.extend(Self::hold(&v, a));
                                    vs.push(ex(quote!(#v)));
                                }
                            }
                            let ps = self.pieces(&t, &vs, &w.receiver, false);
                            *e = ex(quote!({ #(#pre)* #(#ps)* }));
                            return;
                        }
                    }
                }
            }
        }
        // write_fmt(..) of a formatter
        if let Expr::MethodCall(w) = e {
            if w.method == "write_fmt" && w.args.len() == 1 {
                if let Some((t, mut args)) = fmt_mac(&w.args[0]) {
                    for a in &mut args {
                        self.visit_expr_mut(a);
                    }
                    if args.iter().all(crate::xform::simple) {
                        let ps = self.pieces(&t, &args, &w.receiver, true);
                        *e = ex(quote!({ #(#ps)* Ok(()) }));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // statement macros of the compiler: not expected, turned into expressions
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            *s = Stmt::Expr(e, m.semi_token);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
