//! Index of the items of the expanded crate.
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub key: String,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub name: String,
    pub sig: Signature,
    pub block: Block,
    pub impl_generics: Generics,
}

#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<String, FnDef>,
    pub structs: BTreeMap<String, ItemStruct>,
    pub enums: BTreeMap<String, ItemEnum>,
    pub consts: BTreeMap<String, (Type, Expr)>,
    pub types: BTreeMap<String, ItemType>,
    pub assoc: BTreeMap<String, Type>,
    pub derives: BTreeSet<String>,
}

pub fn toks<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// Last path segment of a type, without generics.
pub fn ty_head(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => ty_head(&r.elem),
        _ => None,
    }
}

fn path_key(p: &Path) -> String {
    let s = p.segments.last().unwrap();
    let mut out = s.ident.to_string();
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        let args: Vec<String> = a
            .args
            .iter()
            .filter(|x| !matches!(x, GenericArgument::Lifetime(_)))
            .map(|x| toks(x).replace(' ', ""))
            .collect();
        if !args.is_empty() {
            out += &format!("<{}>", args.join(","));
        }
    }
    out
}

impl Index {
    pub fn build(file: &File) -> Self {
        let mut ix = Index::default();
        ix.items(&file.items);
        ix
    }

    fn items(&mut self, items: &[Item]) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.items(items)
                    }
                }
                Item::Struct(s) => {
                    self.structs.insert(s.ident.to_string(), s.clone());
                }
                Item::Enum(s) => {
                    self.enums.insert(s.ident.to_string(), s.clone());
                }
                Item::Type(t) => {
                    self.types.insert(t.ident.to_string(), t.clone());
                }
                Item::Const(c) if c.ident != "_" => {
                    self.consts.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone()));
                }
                Item::Fn(f) => {
                    self.fns.insert(
                        f.sig.ident.to_string(),
                        FnDef {
                            key: f.sig.ident.to_string(),
                            self_ty: None,
                            trait_: None,
                            name: f.sig.ident.to_string(),
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            impl_generics: Generics::default(),
                        },
                    );
                }
                Item::Impl(im) => {
                    let Some(ty) = ty_head(&im.self_ty) else { continue };
                    let derived = im.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
                    let tr = im.trait_.as_ref().map(|t| path_key(&t.1));
                    if derived {
                        if let Some(tr) = &tr {
                            self.derives.insert(format!("<{ty} as {tr}>"));
                        }
                        continue;
                    }
                    for i in &im.items {
                        match i {
                            ImplItem::Fn(f) => {
                                let name = f.sig.ident.to_string();
                                let key = match &tr {
                                    None => format!("{ty}::{name}"),
                                    Some(t) => format!("<{ty} as {t}>::{name}"),
                                };
                                self.fns.insert(
                                    key.clone(),
                                    FnDef {
                                        key,
                                        self_ty: Some(ty.clone()),
                                        trait_: tr.clone(),
                                        name,
                                        sig: f.sig.clone(),
                                        block: f.block.clone(),
                                        impl_generics: im.generics.clone(),
                                    },
                                );
                            }
                            ImplItem::Type(t) => {
                                if let Some(tr) = &tr {
                                    self.assoc
                                        .insert(format!("<{ty} as {tr}>::{}", t.ident), t.ty.clone());
                                }
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// Makes the closure number `n` of a method (with one parameter, which
    /// stands for the receiver) a method of its own: the parameters of the
    /// outer method which it uses are passed along.
    pub fn lift(&mut self, key: &str, name: &str, ret: &str) -> std::result::Result<(), String> {
        use syn::visit_mut::{self, VisitMut};
        let (base, n) = key.split_once('#').ok_or("no number")?;
        let n: usize = n.parse().map_err(|_| "no number")?;
        let mut f = self.fns.get(base).cloned().ok_or("no such function")?;
        struct V<'a> {
            seen: usize,
            n: usize,
            name: &'a str,
            params: Vec<(String, Type)>,
            found: Option<std::result::Result<(Block, Vec<(String, Type)>), String>>,
        }
        struct Names(BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for Names {
            fn visit_expr_path(&mut self, p: &'a ExprPath) {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
        }
        struct This(String);
        impl VisitMut for This {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if *i == self.0 {
                    *i = Ident::new("self", i.span());
                }
            }
        }
        impl VisitMut for V<'_> {
            fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
                let k = self.seen;
                self.seen += 1;
                if k != self.n {
                    visit_mut::visit_expr_closure_mut(self, c);
                    return;
                }
                let p = match (c.inputs.len(), c.inputs.first()) {
                    (1, Some(Pat::Ident(p))) => p.ident.clone(),
                    (1, Some(Pat::Type(t))) => match &*t.pat {
                        Pat::Ident(p) => p.ident.clone(),
                        _ => return self.found = Some(Err("closure pattern".into())),
                    },
                    _ => return self.found = Some(Err("closure arity".into())),
                };
                let mut names = Names(Default::default());
                syn::visit::Visit::visit_expr(&mut names, &c.body);
                let caps: Vec<(String, Type)> = self.params.iter().filter(|x| names.0.contains(&x.0)).cloned().collect();
                let mut body = (*c.body).clone();
                This(p.to_string()).visit_expr_mut(&mut body);
                let block: Block = match body {
                    Expr::Block(b) => b.block,
                    b => syn::parse_quote!({ #b }),
                };
                let name = Ident::new(self.name, p.span());
                let args: Vec<Ident> = caps.iter().map(|x| Ident::new(&x.0, p.span())).collect();
                c.body = Box::new(syn::parse_quote!(#p.#name(#(#args),*)));
                self.found = Some(Ok((block, caps)));
            }
        }
        let params = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => Some((i.ident.to_string(), (*t.ty).clone())),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let mut v = V { seen: 0, n, name, params, found: None };
        v.visit_block_mut(&mut f.block);
        let (block, caps) = v.found.ok_or(format!("lost anchor: closure {n}"))??;
        let ps: Vec<String> = caps.iter().map(|x| format!("{}: {}", x.0, toks(&x.1))).collect();
        let sig: Signature = parse_str(&format!("fn {name}(&mut self, {}) -> {ret}", ps.join(", "))).map_err(|e| e.to_string())?;
        let g = FnDef { key: key.into(), name: name.into(), sig, block, trait_: None, ..f.clone() };
        // the call is resolved by the name of the method
        let nk = format!("{}::{name}", f.self_ty.clone().unwrap_or_default());
        self.fns.insert(nk.clone(), FnDef { key: nk, ..g });
        self.fns.insert(base.into(), f);
        Ok(())
    }

    /// Makes the value of the statement `let VAR = ..` (the `n`-th one of this
    /// name) a method of its own: exits of the value become results.
    pub fn outline(&mut self, base: &str, var: &str, n: usize, name: &str, val: &str) -> std::result::Result<(), String> {
        use syn::visit_mut::{self, VisitMut};
        let mut f = self.fns.get(base).cloned().ok_or("no such function")?;
        struct Exits {
            err: Option<String>,
            depth: usize,
        }
        impl VisitMut for Exits {
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Return(r) => {
                        let x: Expr = match r.expr.as_deref_mut() {
                            Some(x) => {
                                self.visit_expr_mut(x);
                                syn::parse_quote!(#x)
                            }
                            None => syn::parse_quote!(()),
                        };
                        *e = match &x {
                            Expr::Call(c) if toks(&c.func) == "Err" => syn::parse_quote!(return #x),
                            Expr::Call(c) if toks(&c.func) == "Ok" => {
                                let a = &c.args;
                                syn::parse_quote!(return Ok(Flow::Ret(#a)))
                            }
                            _ => syn::parse_quote!(return match #x { Ok(v__o) => Ok(Flow::Ret(v__o)), Err(e__o) => Err(e__o), }),
                        };
                    }
                    Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                        self.depth += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.depth -= 1;
                    }
                    Expr::Break(b) if self.depth == 0 => {
                        if b.label.is_some() || b.expr.is_some() {
                            self.err = Some("break with a label or a value".into());
                        }
                        *e = syn::parse_quote!(return Ok(Flow::Brk));
                    }
                    Expr::Continue(_) if self.depth == 0 => self.err = Some("continue".into()),
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        struct Names(BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for Names {
            fn visit_expr_path(&mut self, p: &'a ExprPath) {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
        }
        struct V<'a> {
            seen: usize,
            n: usize,
            var: &'a str,
            name: &'a str,
            in_loop: usize,
            /// Parameters and the locals so far.
            vars: Vec<(String, Option<Type>)>,
            found: Option<std::result::Result<(Expr, Vec<(String, Option<Type>)>), String>>,
        }
        impl VisitMut for V<'_> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let n = self.vars.len();
                visit_mut::visit_block_mut(self, b);
                self.vars.truncate(n);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                let l = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) as usize;
                self.in_loop += l;
                visit_mut::visit_expr_mut(self, e);
                self.in_loop -= l;
            }
            fn visit_local_mut(&mut self, l: &mut Local) {
                let id = match &l.pat {
                    Pat::Ident(i) => Some(i.ident.clone()),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(i) => Some(i.ident.clone()),
                        _ => None,
                    },
                    _ => None,
                };
                if id.as_ref().map_or(false, |i| i == self.var) {
                    let k = self.seen;
                    self.seen += 1;
                    if k == self.n {
                        let Some(init) = &mut l.init else { return };
                        let mut names = Names(Default::default());
                        syn::visit::Visit::visit_expr(&mut names, &init.expr);
                        let caps: Vec<_> = self.vars.iter().filter(|x| names.0.contains(&x.0)).cloned().collect();
                        let mut body = (*init.expr).clone();
                        let mut x = Exits { err: None, depth: 0 };
                        x.visit_expr_mut(&mut body);
                        if let Some(e) = x.err {
                            self.found = Some(Err(e));
                            return;
                        }
                        let name = Ident::new(self.name, proc_macro2::Span::call_site());
                        let args: Vec<Expr> = caps
                            .iter()
                            .map(|(n, t)| {
                                let n = Ident::new(n, proc_macro2::Span::call_site());
                                if t.is_some() { syn::parse_quote!(#n) } else { syn::parse_quote!(&#n) }
                            })
                            .collect();
                        init.expr = Box::new(if self.in_loop > 0 {
                            syn::parse_quote!(match self.#name(#(#args),*)? { Flow::Val(v__o) => v__o, Flow::Ret(r__o) => return Ok(r__o), Flow::Brk => break, })
                        } else {
                            syn::parse_quote!(match self.#name(#(#args),*)? { Flow::Val(v__o) => v__o, Flow::Ret(r__o) => return Ok(r__o), Flow::Brk => unreachable!(), })
                        });
                        self.found = Some(Ok((body, caps)));
                        return;
                    }
                }
                visit_mut::visit_local_mut(self, l);
                if let Some(i) = id {
                    self.vars.push((i.to_string(), None));
                }
            }
        }
        let vars = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => Some((i.ident.to_string(), Some((*t.ty).clone()))),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let mut v = V { seen: 0, n, var, name, in_loop: 0, vars, found: None };
        v.visit_block_mut(&mut f.block);
        let (body, caps) = v.found.ok_or(format!("lost anchor: let {var} {n}"))??;
        // a local is shared, of the type given
        let mut vals = val.split(';');
        let vt = vals.next().unwrap_or_default().trim().to_string();
        let mut lt: BTreeMap<String, String> = vals
            .filter_map(|x| x.split_once(':'))
            .map(|(a, b)| (a.trim().to_string(), b.trim().to_string()))
            .collect();
        let mut ps = vec![];
        for (n, t) in &caps {
            ps.push(match t {
                Some(t) => format!("{n}: {}", toks(t)),
                None => format!("{n}: &{}", lt.remove(n).ok_or(format!("type of {n}"))?),
            });
        }
        let ret = match &f.sig.output {
            ReturnType::Type(_, t) => match &**t {
                Type::Path(p) if toks(p).starts_with("PResult") => match &p.path.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => toks(&a.args),
                    _ => return Err("result type".into()),
                },
                _ => return Err("result type".into()),
            },
            _ => return Err("result type".into()),
        };
        let sig: Signature = parse_str(&format!("fn {name}(&mut self, {}) -> PResult<Flow<{vt}, {ret}>>", ps.join(", "))).map_err(|e| e.to_string())?;
        let block: Block = syn::parse_quote!({ Ok(Flow::Val(#body)) });
        let nk = format!("{}::{name}", f.self_ty.clone().unwrap_or_default());
        self.fns.insert(nk.clone(), FnDef { key: nk, name: name.into(), sig, block, trait_: None, ..f.clone() });
        self.fns.insert(base.into(), f);
        Ok(())
    }
}
