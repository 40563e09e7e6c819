//! The transformation of one function into the subset accepted by Verus.
//!
//! Every pass keeps the meaning: macros are expanded, closures given to the
//! crate's own higher order functions are substituted into their bodies, calls
//! of functions without a contract are replaced by their bodies, `for` loops
//! become `while` loops, and library types are renamed to contracted stubs.
use crate::index::{toks, FnDef, Index};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

/// The way out of a function body.
#[derive(Clone)]
pub enum K {
    /// A real function.
    Fn,
    /// The operand of `?`: an error leaves the outer body.
    Try(Box<K>),
    /// `let var = BODY; rest; var` at the end of the outer body.
    Let(Pat, Vec<Stmt>, Expr, Box<K>),
    /// Anywhere else: no way out.
    Plain,
}

#[derive(Clone)]
pub enum Pos {
    Tail,
    Try,
    Let(Pat, Vec<Stmt>, Expr),
    Plain,
}

fn k_at(k: &K, pos: &Pos) -> K {
    match pos {
        Pos::Tail => k.clone(),
        Pos::Try => K::Try(Box::new(k.clone())),
        Pos::Let(p, s, t) => K::Let(p.clone(), s.clone(), t.clone(), Box::new(k.clone())),
        Pos::Plain => K::Plain,
    }
}

fn has_let(k: &K) -> bool {
    match k {
        K::Fn => false,
        K::Try(k) => has_let(k),
        K::Let(..) | K::Plain => true,
    }
}

/// Early exits of a body as branches: what follows goes into the branch which goes on.
fn flat(b: &mut Block) -> bool {
    let n = b.stmts.len();
    for i in 0..n {
        let last = i + 1 == n;
        let rest = |b: &Block| -> Option<Block> {
            let mut r = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
            if r.stmts.is_empty() {
                return None;
            }
            flat(&mut r);
            Some(r)
        };
        let new = match &b.stmts[i] {
            Stmt::Expr(Expr::Return(r), _) => {
                let x = r.expr.clone();
                b.stmts.truncate(i);
                if let Some(x) = x {
                    b.stmts.push(Stmt::Expr(*x, None));
                }
                return true;
            }
            Stmt::Expr(Expr::If(f), _) if !last && f.else_branch.is_none() && leaves(&f.then_branch) => {
                let (c, mut t) = (f.cond.clone(), f.then_branch.clone());
                flat(&mut t);
                rest(b).map(|r| ex(quote!(if #c #t else #r)))
            }
            Stmt::Expr(Expr::Try(t), Some(_)) if !last => {
                let x = &t.expr;
                rest(b).map(|r| ex(quote!(match #x { Ok(_) => #r, Err(e__x) => Err(e__x) })))
            }
            Stmt::Local(l) if !last => match &l.init {
                Some(LocalInit { expr, diverge: None, .. }) => match &**expr {
                    Expr::Try(t) => {
                        let (x, p) = (&t.expr, &l.pat);
                        rest(b).map(|r| ex(quote!(match #x { Ok(#p) => #r, Err(e__x) => Err(e__x) })))
                    }
                    _ => None,
                },
                _ => None,
            },
            Stmt::Expr(Expr::If(f), None) if last => {
                let mut f = f.clone();
                let mut done = flat(&mut f.then_branch);
                if let Some((_, e)) = &mut f.else_branch {
                    let mut x = blk((**e).clone());
                    done |= flat(&mut x);
                    **e = ex(quote!(#x));
                }
                if done { Some(Expr::If(f)) } else { None }
            }
            _ => None,
        };
        if let Some(x) = new {
            b.stmts.truncate(i);
            b.stmts.push(Stmt::Expr(x, None));
            return true;
        }
    }
    false
}

/// The block ends with `return`.
fn leaves(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

pub fn ex(ts: TokenStream) -> Expr {
    syn::parse2(ts.clone()).unwrap_or_else(|e| panic!("internal: {e}: {ts}"))
}

pub fn blk(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block,
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] },
    }
}

fn last_seg(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn path_of(e: &Expr) -> Option<Vec<String>> {
    match e {
        Expr::Path(p) => Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect()),
        Expr::Paren(p) => path_of(&p.expr),
        _ => None,
    }
}

/// Does the expression leave the enclosing function (closures not entered)?
struct Exits(bool);
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn exits(e: &Expr) -> bool {
    let mut v = Exits(false);
    v.visit_expr(e);
    v.0
}

/// All names bound by patterns.
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && s != "self" {
            self.0.insert(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

/// Names bound by patterns outside of closure heads.
struct BoundLets(BTreeSet<String>);
impl<'a> Visit<'a> for BoundLets {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.visit_expr(&c.body);
    }
}

/// Rename single-segment identifiers.
struct Rename<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = Ident::new(n, Span::call_site());
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 && p.qself.is_none() {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.0.get(&s.ident.to_string()) {
                s.ident = Ident::new(n, Span::call_site());
            }
        }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        for f in &mut s.fields {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
        }
        syn::visit_mut::visit_expr_struct_mut(self, s);
    }
}

/// Substitute identifiers by expressions.
struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            let mut b = Bound(Default::default());
            for p in &c.inputs {
                b.visit_pat(p);
            }
            if self.0.keys().any(|k| b.0.contains(k)) {
                let m: BTreeMap<String, Expr> = self.0.iter().filter(|(k, _)| !b.0.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                Subst(&m).visit_expr_mut(&mut c.body);
                return;
            }
        }
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 1 && p.qself.is_none() {
                if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    *e = n.clone();
                    return;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        for f in &mut s.fields {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
        }
        syn::visit_mut::visit_expr_struct_mut(self, s);
    }
}

pub struct Xf<'a> {
    pub ix: &'a Index,
    /// Functions with a contract: they are called, not inlined.
    pub contracted: &'a BTreeSet<String>,
    pub self_ty: Option<String>,
    pub n: usize,
    pub depth: usize,
    pub inlined: BTreeSet<String>,
    pub called: BTreeSet<String>,
    /// Local closures and function values known by name.
    pub closures: BTreeMap<String, Expr>,
    /// Type parameters which are fixed by the specification.
    pub binds: BTreeMap<String, String>,
    /// Parameters which are `FnMut`.
    pub acts: BTreeSet<String>,
}

/// Type parameters of a function with a fixed type.
pub struct Bind<'a> {
    pub ix: &'a Index,
    pub m: &'a BTreeMap<String, String>,
}
impl VisitMut for Bind<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let Some(t) = p.segments.first().and_then(|s| self.m.get(&s.ident.to_string())) else { return };
        let mut n = 1;
        let mut to = t.clone();
        if p.segments.len() > 1 {
            let a = p.segments[1].ident.to_string();
            let tail = format!("::{a}");
            if let Some((_, x)) = self.ix.assoc.iter().find(|(k, _)| k.starts_with(&format!("<{t} as ")) && k.ends_with(&tail)) {
                to = toks(x);
                n = 2;
            }
        }
        let Ok(q) = syn::parse_str::<Path>(&to) else { return };
        let rest: Vec<PathSegment> = p.segments.iter().skip(n).cloned().collect();
        *p = q;
        for s in rest {
            p.segments.push(s);
        }
    }
}

/// Replace `Self` and drop the generics of the representation.
pub struct Mono {
    pub self_ty: Option<String>,
    /// Drop the arguments named `R` (the representation).
    pub drop_r: bool,
}
impl VisitMut for Mono {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if let (Some(s), Some(f)) = (&self.self_ty, p.segments.first_mut()) {
            if f.ident == "Self" {
                f.ident = Ident::new(s, Span::call_site());
            }
        }
        for s in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let keep: Vec<GenericArgument> = a
                    .args
                    .iter()
                    .filter(|x| match x {
                        GenericArgument::Type(Type::Path(t)) => {
                            !(t.path.is_ident("R") && self.drop_r || t.path.is_ident("RcRepr"))
                        }
                        _ => true,
                    })
                    .cloned()
                    .collect();
                if keep.is_empty() {
                    s.arguments = PathArguments::None;
                } else {
                    a.args = keep.into_iter().collect();
                }
            }
        }
        // core paths
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() > 1 {
            let l = segs.len();
            let drop = match (segs[0].as_str(), l) {
                ("core" | "alloc" | "std" | "crate" | "super" | "parser" | "self", _) => {
                    // keep the last two segments if the one before is a type
                    let ty = segs[l - 2].chars().next().unwrap().is_uppercase()
                        || matches!(segs[l - 2].as_str(), "u8" | "char" | "f64" | "i64" | "str");
                    l - if ty { 2 } else { 1 }
                }
                _ => 0,
            };
            if drop > 0 {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(drop).cloned().collect();
            }
        }
        if p.segments.len() == 2 && p.segments[0].ident == "R" {
            match p.segments[1].ident.to_string().as_str() {
                "Rc" => *p = syn::parse_quote!(Rc<Yaml>),
                "new_rc" => *p = syn::parse_quote!(new_rc),
                _ => {}
            }
        }
        if p.segments.len() == 1 && !matches!(p.segments[0].arguments, PathArguments::Parenthesized(_)) {
            let s = &mut p.segments[0];
            match s.ident.to_string().as_str() {
                "String" | "str" => s.ident = Ident::new("Str", Span::call_site()),
                "Cow" => *p = syn::parse_quote!(Str),
                "Into" => s.ident = Ident::new("VInto", Span::call_site()),
                "ToString" => s.ident = Ident::new("VToStr", Span::call_site()),
                "Hasher" => s.ident = Ident::new("VHasher", Span::call_site()),
                "Seq" if s.arguments.is_none() => s.ident = Ident::new("NSeq", Span::call_site()),
                "NodeRc" | "NodeArc" if s.arguments.is_none() => s.ident = Ident::new("Node", Span::call_site()),
                "Map" if s.arguments.is_none() => s.ident = Ident::new("LMap", Span::call_site()),
                _ => {}
            }
        } else if p.segments.len() == 2 && (p.segments[0].ident == "String" || p.segments[0].ident == "str") {
            p.segments[0].ident = Ident::new("Str", Span::call_site());
        } else if p.segments.len() == 2 && (p.segments[0].ident == "Seq" || p.segments[0].ident == "Map") {
            let n = if p.segments[0].ident == "Seq" { "Vec" } else { "LMap" };
            p.segments[0].ident = Ident::new(n, Span::call_site());
        }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        // the marker of the representation
        let fs: Vec<FieldValue> = s.fields.iter().filter(|f| !toks(&f.expr).ends_with("PhantomData")).cloned().collect();
        if fs.len() < s.fields.len() {
            s.fields = fs.into_iter().collect();
        }
        syn::visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        if t.qself.is_none() && t.path.is_ident("Self") {
            return;
        }
        syn::visit_mut::visit_type_path_mut(self, t);
    }
}

/// Associated types of the implementation.
pub struct Assoc<'a> {
    pub ix: &'a Index,
    pub pre: String,
}
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.ix.assoc.get(&format!("{}::{}", self.pre, p.path.segments[1].ident)) {
                    *t = x.clone();
                    syn::visit_mut::visit_type_mut(self, t);
                    return;
                }
            }
            // iterators of the library
            if p.qself.is_none() && p.path.segments.last().is_some_and(|s| s.ident == "Iter" && matches!(s.arguments, PathArguments::AngleBracketed(_))) {
                p.path.segments.last_mut().unwrap().ident = Ident::new("VRefs", Span::call_site());
            }
            if let Some(q) = &p.qself {
                if p.path.segments.last().is_some_and(|s| s.ident == "IntoIter") {
                    let h = toks(&q.ty).replace(' ', "");
                    let e: Type = if h.starts_with("Seq<") { syn::parse_quote!(Node) } else if h.starts_with("Map<") { syn::parse_quote!((Node, Node)) } else { syn::parse_quote!(T) };
                    *t = syn::parse_quote!(VIter<#e>);
                }
            }
        }
    }
    fn visit_type_param_mut(&mut self, t: &mut TypeParam) {
        syn::visit_mut::visit_type_param_mut(self, t);
        bounds(&mut t.bounds);
    }
    fn visit_predicate_type_mut(&mut self, t: &mut PredicateType) {
        syn::visit_mut::visit_predicate_type_mut(self, t);
        bounds(&mut t.bounds);
    }
}
/// The bounds of the library to those of the stubs.
fn bounds(b: &mut syn::punctuated::Punctuated<TypeParamBound, Token![+]>) {
    let s: Vec<String> = b.iter().map(|x| toks(x).replace(' ', "")).collect();
    if s.len() == 2 && s.contains(&"TryFrom<i64>".to_string()) && s.contains(&"FromStr".to_string()) {
        *b = syn::parse_quote!(VInt);
        return;
    }
    *b = b
        .iter()
        .filter(|x| !matches!(x, TypeParamBound::Trait(t) if matches!(t.modifier, TraitBoundModifier::Maybe(_))))
        .cloned()
        .map(|mut x| {
            if let TypeParamBound::Trait(t) = &mut x {
                if let Some(l) = t.path.segments.last_mut() {
                    if matches!(&l.arguments, PathArguments::AngleBracketed(a) if a.args.iter().all(|g| matches!(g, GenericArgument::Lifetime(_)))) {
                        l.arguments = PathArguments::None;
                    }
                }
            }
            x
        })
        .collect();
}
/// `T(PhantomData)` is a value without content.
pub struct NoPhantom;
impl VisitMut for NoPhantom {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if !c.args.is_empty() && c.args.iter().all(|a| toks(a).ends_with("PhantomData")) {
                *e = (*c.func).clone();
            }
        }
    }
}

/// The parameters whose type is bounded by `FnMut`.
fn fn_muts(sig: &Signature) -> BTreeSet<String> {
    let mut g = BTreeSet::new();
    for t in sig.generics.type_params() {
        if toks(&t.bounds).contains("FnMut") {
            g.insert(t.ident.to_string());
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if toks(&t.bounds).contains("FnMut") {
                    g.insert(toks(&t.bounded_ty));
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            let ty = toks(&t.ty);
            if g.contains(&ty) || ty.starts_with("impl FnMut") {
                if let Pat::Ident(i) = &*t.pat {
                    out.insert(i.ident.to_string());
                }
            }
        }
    }
    out
}

/// Drop attributes everywhere.
pub struct NoAttr;
impl VisitMut for NoAttr {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

impl<'a> Xf<'a> {
    pub fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    /// The function behind a method call; the receiver may change from a
    /// loader to its parser.
    fn resolve_method(&self, recv: &mut Expr, m: &str, nargs: usize) -> Option<FnDef> {
        // a method of the same name with other arguments is not the one
        self.resolve_named(recv, m).filter(|f| f.sig.inputs.len() == nargs + 1)
    }

    fn resolve_named(&self, recv: &mut Expr, m: &str) -> Option<FnDef> {
        let r = path_of(recv);
        let is_self = r.as_ref().map_or(false, |p| p.len() == 1 && p[0] == "self");
        if is_self {
            let st = self.self_ty.clone()?;
            if let Some(f) = self.ix.fns.get(&format!("{st}::{m}")) {
                return Some(f.clone());
            }
            if st == "Loader" {
                if let Some(f) = self.ix.fns.get(&format!("Parser::{m}")) {
                    *recv = ex(quote!(self.parser));
                    return Some(f.clone());
                }
            }
            return self.trait_fn(&st, m);
        }
        if let Expr::Field(f) = recv {
            if matches!(&f.member, Member::Named(i) if i == "parser") {
                return self.ix.fns.get(&format!("Parser::{m}")).cloned();
            }
        }
        if let Expr::Call(c) = recv {
            // Type::new(..).m()
            if let Some(p) = path_of(&c.func) {
                if p.len() == 2 {
                    if let Some(f) = self.ix.fns.get(&format!("{}::{m}", p[0])) {
                        return Some(f.clone());
                    }
                }
            }
        }
        // by the name alone, when there is only one inherent method
        const STD: &[&str] = &[
            "clone", "len", "is_empty", "get", "push", "insert", "new", "iter", "eq", "hash", "cmp", "map",
            "starts_with", "ends_with", "to_string", "as_str", "into", "contains", "join", "lines", "trim",
            "extend", "next", "count", "is_null", "text", "err", "pos", "tag", "index", "fmt", "or", "parse", "replace",
        ];
        if m == "or" || m == "tag" || m == "yaml" || m == "pos" || m == "clone_yaml" || m == "is_null" {
            let t = if m == "or" { "PError" } else { "Node" };
            return self.ix.fns.get(&format!("{t}::{m}")).cloned();
        }
        if STD.contains(&m) {
            return None;
        }
        let suf = format!("::{m}");
        let c: Vec<&FnDef> = self
            .ix
            .fns
            .values()
            .filter(|f| f.trait_.is_none() && f.self_ty.is_some() && f.key.ends_with(&suf))
            .collect();
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }

    fn trait_fn(&self, st: &str, m: &str) -> Option<FnDef> {
        let pre = format!("<{st} as ");
        let suf = format!(">::{m}");
        let c: Vec<&FnDef> =
            self.ix.fns.values().filter(|f| f.key.starts_with(&pre) && f.key.ends_with(&suf)).collect();
        if c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    fn resolve_call(&self, p: &[String]) -> Option<FnDef> {
        let last = p.last()?;
        if p.len() >= 2 {
            let t = &p[p.len() - 2];
            if let Some(f) = self.ix.fns.get(&format!("{t}::{last}")) {
                return Some(f.clone());
            }
            if t == "Loader" {
                if let Some(f) = self.ix.fns.get(&format!("Parser::{last}")) {
                    return Some(f.clone());
                }
            }
            if t.chars().next().unwrap().is_uppercase() {
                return self.trait_fn(t, last);
            }
        }
        self.ix.fns.get(last).filter(|f| f.self_ty.is_none()).cloned()
    }

    fn prepare(&self, f: &FnDef) -> (Signature, Block) {
        let mut sig = f.sig.clone();
        let mut b = f.block.clone();
        NoAttr.visit_block_mut(&mut b);
        NoAttr.visit_signature_mut(&mut sig);
        crate::mac::Macros::run(&mut b);
        let repr = |p: &WherePredicate| matches!(p, WherePredicate::Type(t) if toks(&t.bounded_ty) == "R" && toks(&t.bounds).ends_with("Repr"));
        let mut where_r = false;
        if let Some(w) = &mut sig.generics.where_clause {
            where_r = w.predicates.iter().any(repr);
            w.predicates = w.predicates.clone().into_iter().filter(|p| !repr(p)).collect();
        }
        let own_r = !where_r && sig.generics.type_params().any(|t| t.ident == "R" && t.bounds.is_empty());
        if !self.binds.is_empty() && self.depth == 0 {
            let m = &self.binds;
            sig.generics.params = sig.generics.params.into_iter().filter(|p| !matches!(p, GenericParam::Type(t) if m.contains_key(&t.ident.to_string()))).collect();
            if let Some(w) = &mut sig.generics.where_clause {
                w.predicates = w.predicates.clone().into_iter().filter(|p| !matches!(p, WherePredicate::Type(t) if m.contains_key(&toks(&t.bounded_ty)))).collect();
            }
            let mut bd = Bind { ix: self.ix, m };
            bd.visit_signature_mut(&mut sig);
            bd.visit_block_mut(&mut b);
        }
        if let (Some(t), Some(tr)) = (&f.self_ty, &f.trait_) {
            let mut a = Assoc { ix: self.ix, pre: format!("<{t} as {tr}>") };
            a.visit_signature_mut(&mut sig);
            a.visit_block_mut(&mut b);
        } else {
            Assoc { ix: self.ix, pre: String::new() }.visit_signature_mut(&mut sig);
        }
        NoPhantom.visit_block_mut(&mut b);
        let mut m = Mono { self_ty: f.self_ty.clone(), drop_r: !own_r };
        m.visit_signature_mut(&mut sig);
        m.visit_block_mut(&mut b);
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if matches!(&*t.pat, Pat::Wild(_)) {
                    let n = Ident::new(&format!("arg__{i}"), Span::call_site());
                    *t.pat = parse_quote!(#n);
                }
            }
        }
        // the representation is fixed
        sig.generics.params = sig
            .generics
            .params
            .into_iter()
            .filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == "R" && (where_r || toks(&t.bounds).ends_with("Repr"))))
            .collect();
        if sig.generics.params.is_empty() {
            sig.generics = Generics { where_clause: sig.generics.where_clause.clone(), ..Default::default() };
        }
        (sig, b)
    }

    pub fn signature(&mut self, f: &FnDef) -> Signature {
        self.self_ty = f.self_ty.clone();
        let mut sig = self.prepare(f).0;
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() {
                r.mutability = None;
            }
        }
        sig
    }

    /// Transform a whole function.
    pub fn function(&mut self, f: &FnDef) -> R<(Signature, Block)> {
        self.self_ty = f.self_ty.clone();
        let (sig, mut b) = self.prepare(f);
        self.acts = fn_muts(&sig);
        self.block(&mut b, &K::Fn, &Pos::Tail)?;
        let mut sig = sig;
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                // `mut self` is a local variable
                r.mutability = None;
                let mut m = BTreeMap::new();
                m.insert("self".to_string(), "this__1".to_string());
                Rename(&m).visit_block_mut(&mut b);
                b.stmts.insert(0, parse_quote!(let mut this__1 = self;));
            }
        }
        Ok((sig, b))
    }

    fn exit(&mut self, k: &K, x: Expr) -> R<Expr> {
        let is_err = match &x {
            Expr::Call(c) => last_seg(&c.func).as_deref() == Some("Err"),
            Expr::MethodCall(m) => m.method == "err",
            _ => false,
        };
        self.exit_with(k, x, is_err)
    }

    fn exit_with(&mut self, k: &K, x: Expr, is_err: bool) -> R<Expr> {
        match k {
            K::Fn => Ok(ex(quote!(return #x))),
            K::Try(k) => {
                if !is_err {
                    return Err(format!("value leaves an inlined body under `?`: {}", toks(&x)));
                }
                if let Expr::Path(_) = &x {
                    // a variable which holds an error of another type
                    let e = format_ident!("e__{}", self.fresh());
                    let out = self.exit_with(k, ex(quote!(Err(#e))), true)?;
                    return Ok(ex(quote!(match #x { Err(#e) => #out, Ok(_) => vs_panic() })));
                }
                self.exit_with(k, x, true)
            }
            K::Let(p, rest, tail, k) => {
                let last = self.exit_with(k, tail.clone(), is_err)?;
                let mut rest = rest.clone();
                let mut t = last;
                // the rest belongs to the outer body
                for s in &mut rest {
                    self.stmt(s, k)?;
                }
                if let Expr::Return(r) = &mut t {
                    r.attrs.clear();
                }
                let ty = match (&**k, &x) {
                    // an error only: the other type is free
                    (K::Try(_), Expr::Call(c)) if is_err && last_seg(&c.func).as_deref() == Some("Err") => quote!(: PResult<()>),
                    _ => quote!(),
                };
                Ok(ex(quote!({ let #p #ty = #x; #(#rest)* #t })))
            }
            K::Plain => Err(format!("early exit out of an inlined body: {}", toks(&x))),
        }
    }

    fn stmt(&mut self, s: &mut Stmt, k: &K) -> R<()> {
        match s {
            Stmt::Local(l) => {
                if let Some(i) = &mut l.init {
                    if let Some((_, d)) = &mut i.diverge {
                        self.expr(d, k, &Pos::Plain)?;
                    }
                    if let Expr::Closure(_) = &*i.expr {
                        if let Pat::Ident(p) = &l.pat {
                            // a local closure: substituted at its calls
                            self.closures.insert(p.ident.to_string(), (*i.expr).clone());
                            *s = Stmt::Expr(ex(quote!(())), Some(Default::default()));
                            return Ok(());
                        }
                    }
                    let fn_value = self.returns_closure(&i.expr);
                    self.expr(&mut i.expr, k, &Pos::Plain)?;
                    if fn_value {
                        if let Pat::Ident(p) = &l.pat {
                            // one of several closures: known by its number
                            let name = p.ident.to_string();
                            let mut v = vec![ex(quote!(#p))];
                            closure_tails(&mut i.expr, &mut v)?;
                            if v.len() > 1 {
                                self.closures.insert(name, ex(quote!([#(#v),*])));
                            }
                        }
                    }
                }
                Ok(())
            }
            Stmt::Expr(e, _) => self.expr(e, k, &Pos::Plain),
            Stmt::Item(_) => Ok(()),
            Stmt::Macro(m) => Err(format!("macro {}", toks(&m.mac.path))),
        }
    }

    pub fn block(&mut self, b: &mut Block, k: &K, pos: &Pos) -> R<()> {
        // `extern crate alloc;` of the `node!` macro
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::ExternCrate(_) | Item::Use(_))));
        let n = b.stmts.len();
        // `let r = CALL; rest; r` at the end of a body
        if matches!(pos, Pos::Tail) {
            for i in 0..n {
                let ok = match (&b.stmts[i], b.stmts.last()) {
                    (Stmt::Local(l), Some(Stmt::Expr(t, None))) if i + 1 < n => match (&l.pat, path_of(t)) {
                        (Pat::Ident(p), Some(v)) => v.len() == 1 && p.ident == v[0] && l.init.is_some(),
                        _ => false,
                    },
                    _ => false,
                };
                if !ok {
                    continue;
                }
                for s in &mut b.stmts[..i] {
                    self.stmt(s, k)?;
                }
                let Some(Stmt::Expr(t, None)) = b.stmts.last().cloned() else { unreachable!() };
                let rest: Vec<Stmt> = b.stmts[i + 1..n - 1].to_vec();
                let Stmt::Local(l) = &mut b.stmts[i] else { unreachable!() };
                let p = l.pat.clone();
                let init = l.init.as_mut().unwrap();
                self.expr(&mut init.expr, k, &Pos::Let(p, rest, t))?;
                for s in &mut b.stmts[i + 1..n - 1] {
                    self.stmt(s, k)?;
                }
                return Ok(());
            }
        }
        for i in 0..n {
            let last = i + 1 == n;
            match &mut b.stmts[i] {
                Stmt::Expr(e, None) if last => self.expr(e, k, pos)?,
                s => self.stmt(s, k)?,
            }
        }
        Ok(())
    }

    fn exprs<'b>(&mut self, es: impl Iterator<Item = &'b mut Expr>, k: &K) -> R<()> {
        for e in es {
            self.expr(e, k, &Pos::Plain)?;
        }
        Ok(())
    }

    pub fn expr(&mut self, e: &mut Expr, k: &K, pos: &Pos) -> R<()> {
        match e {
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.expr(x, k, &Pos::Tail)?;
                }
                if !matches!(k, K::Fn) {
                    let x = r.expr.take().map(|b| *b).unwrap_or_else(|| ex(quote!(())));
                    *e = self.exit(k, x)?;
                }
            }
            Expr::Try(t) => {
                self.expr(&mut t.expr, k, &Pos::Try)?;
                if has_let(k) {
                    let x = (*t.expr).clone();
                    let n = self.fresh();
                    let (v, er) = (format_ident!("v__{n}"), format_ident!("e__{n}"));
                    let out = self.exit(k, ex(quote!(Err(#er))))?;
                    *e = ex(quote!(match #x { Ok(#v) => #v, Err(#er) => #out }));
                }
            }
            Expr::If(i) => {
                self.expr(&mut i.cond, k, &Pos::Plain)?;
                self.block(&mut i.then_branch, k, pos)?;
                if let Some((_, b)) = &mut i.else_branch {
                    self.expr(b, k, pos)?;
                }
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr, k, &Pos::Plain)?;
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.expr(g, k, &Pos::Plain)?;
                    }
                    self.expr(&mut a.body, k, pos)?;
                }
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.block(&mut b.block, k, pos)?
            }
            Expr::Unsafe(_) => return Err("unsafe block".into()),
            Expr::Paren(p) => self.expr(&mut p.expr, k, pos)?,
            Expr::Group(p) => self.expr(&mut p.expr, k, pos)?,
            Expr::Let(l) => self.expr(&mut l.expr, k, &Pos::Plain)?,
            Expr::Loop(l) => self.block(&mut l.body, k, &Pos::Plain)?,
            Expr::While(l) => {
                self.expr(&mut l.cond, k, &Pos::Plain)?;
                self.block(&mut l.body, k, &Pos::Plain)?
            }
            Expr::ForLoop(l) => {
                self.expr(&mut l.expr, k, &Pos::Plain)?;
                self.block(&mut l.body, k, &Pos::Plain)?
            }
            Expr::Assign(a) => {
                self.expr(&mut a.right, k, &Pos::Plain)?;
                self.expr(&mut a.left, k, &Pos::Plain)?;
            }
            Expr::Binary(b) => {
                self.expr(&mut b.left, k, &Pos::Plain)?;
                self.expr(&mut b.right, k, &Pos::Plain)?;
            }
            Expr::Unary(u) => self.expr(&mut u.expr, k, &Pos::Plain)?,
            Expr::Reference(u) => self.expr(&mut u.expr, k, &Pos::Plain)?,
            Expr::Cast(u) => self.expr(&mut u.expr, k, &Pos::Plain)?,
            Expr::Field(u) => {
                if self.self_ty.as_deref() == Some("Loader") && path_of(&u.base).as_deref() == Some(&["self".to_string()][..]) {
                    if let Member::Named(i) = &u.member {
                        let has = |t: &str| {
                            self.ix.structs.get(t).map_or(false, |s| {
                                s.fields.iter().any(|f| f.ident.as_ref() == Some(i))
                            })
                        };
                        if !has("Loader") && has("Parser") {
                            u.base = Box::new(ex(quote!(self.parser)));
                            return Ok(());
                        }
                    }
                }
                self.expr(&mut u.base, k, &Pos::Plain)?
            }
            Expr::Index(u) => {
                self.expr(&mut u.expr, k, &Pos::Plain)?;
                self.expr(&mut u.index, k, &Pos::Plain)?;
            }
            Expr::Range(r) => {
                if let Some(x) = &mut r.start {
                    self.expr(x, k, &Pos::Plain)?;
                }
                if let Some(x) = &mut r.end {
                    self.expr(x, k, &Pos::Plain)?;
                }
            }
            Expr::Array(a) => self.exprs(a.elems.iter_mut(), k)?,
            Expr::Tuple(a) => self.exprs(a.elems.iter_mut(), k)?,
            Expr::Struct(s) => {
                for f in &mut s.fields {
                    self.expr(&mut f.expr, k, &Pos::Plain)?;
                }
                if let Some(r) = &mut s.rest {
                    self.expr(r, k, &Pos::Plain)?;
                }
            }
            Expr::Repeat(r) => self.expr(&mut r.expr, k, &Pos::Plain)?,
            Expr::Closure(c) => {
                // a closure which stays: its body has its own exits
                self.expr(&mut c.body, &K::Fn, &Pos::Tail)?;
            }
            Expr::MethodCall(_) => return self.method_call(e, k, pos),
            Expr::Call(_) => return self.call(e, k, pos),
            Expr::Path(_) | Expr::Lit(_) | Expr::Break(_) | Expr::Continue(_) => {}
            Expr::Macro(m) => {
                if !m.mac.path.is_ident("__gh") {
                    return Err(format!("macro {}", toks(&m.mac.path)));
                }
            }
            x => return Err(format!("unsupported expression {}", toks(x))),
        }
        Ok(())
    }

    fn method_call(&mut self, e: &mut Expr, k: &K, pos: &Pos) -> R<()> {
        let Expr::MethodCall(m) = e else { unreachable!() };
        let name = m.method.to_string();
        // standard combinators with a closure
        if let Some(x) = self.combinator(m, k, pos)? {
            *e = x;
            return Ok(());
        }
        let Expr::MethodCall(m) = e else { unreachable!() };
        self.expr(&mut m.receiver, k, &Pos::Plain)?;
        let hof = m.args.iter().any(|a| self.is_fn_value(a));
        let def = self.resolve_method(&mut m.receiver, &name, m.args.len());
        if let Some(f) = def {
            self.called.insert(f.key.clone());
            if !self.contracted.contains(&f.key) {
                for a in m.args.iter_mut() {
                    if !self.is_fn_value(a) {
                        self.expr(a, k, &Pos::Plain)?;
                    }
                }
                let recv = (*m.receiver).clone();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                *e = self.inline(&f, Some(recv), args, k, pos)?;
                return Ok(());
            }
        }
        let Expr::MethodCall(m) = e else { unreachable!() };
        let _ = hof;
        self.exprs(m.args.iter_mut(), k)
    }

    fn is_fn_value(&self, e: &Expr) -> bool {
        match e {
            Expr::Closure(_) => true,
            Expr::Path(_) => match path_of(e) {
                Some(p) if p.len() == 1 => self.closures.contains_key(&p[0]),
                Some(p) => {
                    p.last().unwrap().chars().next().unwrap().is_lowercase() && self.resolve_call(&p).is_some()
                }
                None => false,
            },
            _ => false,
        }
    }

    /// Apply a closure or function path to arguments.
    fn apply(&mut self, f: &Expr, args: Vec<Expr>, k: &K, pos: &Pos) -> R<Expr> {
        match f {
            Expr::Closure(c) => {
                let n = self.fresh();
                let mut body = (*c.body).clone();
                if c.inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                let mut b = BoundLets(Default::default());
                b.visit_expr(&body);
                let mut sub = BTreeMap::new();
                let mut pre: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    let p = if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() };
                    match (&p, simple(&a)) {
                        (Pat::Ident(i), true) if !b.0.contains(&i.ident.to_string()) => {
                            sub.insert(i.ident.to_string(), a);
                        }
                        (Pat::Wild(_), true) => {}
                        _ => pre.push(syn::parse_quote!(let #p = #a;)),
                    }
                }
                let _ = n;
                Subst(&sub).visit_expr_mut(&mut body);
                self.enter()?;
                let k2 = k_at(k, pos);
                // a body without exits keeps the position, to reach inner calls
                let body0 = body.clone();
                let (depth, fns) = (self.depth, self.closures.clone());
                let mut r = self.expr(&mut body, &k2, &Pos::Tail);
                if let (true, Expr::Block(x)) = (r.is_err(), body0) {
                    let mut b1 = x.block;
                    if flat(&mut b1) {
                        self.depth = depth;
                        self.closures = fns;
                        let mut b1 = ex(quote!(#b1));
                        if self.expr(&mut b1, &k2, &Pos::Tail).is_ok() {
                            r = Ok(());
                            body = b1;
                        }
                    }
                }
                self.depth = depth;
                self.depth -= 1;
                r?;
                Ok(if pre.is_empty() { body } else { ex(quote!({ #(#pre)* #body })) })
            }
            Expr::Path(_) => {
                let p = path_of(f).unwrap();
                if p.len() == 1 {
                    if let Some(c) = self.closures.get(&p[0]).cloned() {
                        return self.apply(&c, args, k, pos);
                    }
                }
                let mut x = if let Some(d) = self.resolve_call(&p) {
                    if d.sig.receiver().is_some() {
                        let (r, rest) = (args[0].clone(), &args[1..]);
                        let m = &d.sig.ident;
                        ex(quote!(#r.#m(#(#rest),*)))
                    } else {
                        ex(quote!(#f(#(#args),*)))
                    }
                } else {
                    ex(quote!(#f(#(#args),*)))
                };
                self.expr(&mut x, k, pos)?;
                Ok(x)
            }
            Expr::Array(a) => {
                let which = a.elems[0].clone();
                let n = a.elems.len() - 1;
                let mut arms: Vec<Arm> = vec![];
                for i in 0..n {
                    let x = self.apply(&a.elems[i + 1], args.clone(), k, pos)?;
                    let l = LitInt::new(&format!("{i}usize"), Span::call_site());
                    arms.push(if i + 1 == n { syn::parse_quote!(_ => #x,) } else { syn::parse_quote!(#l => #x,) });
                }
                Ok(ex(quote!(match #which { #(#arms)* })))
            }
            _ => Err(format!("function value {}", toks(f))),
        }
    }

    /// A call of a crate function which returns closures and has no contract.
    fn returns_closure(&self, e: &Expr) -> bool {
        let f = match e {
            Expr::MethodCall(m) => {
                let mut r = (*m.receiver).clone();
                self.resolve_method(&mut r, &m.method.to_string(), m.args.len())
            }
            Expr::Call(c) => path_of(&c.func).and_then(|p| self.resolve_call(&p)),
            _ => None,
        };
        match f {
            Some(f) => !self.contracted.contains(&f.key) && toks(&f.sig.output).contains("impl Fn"),
            None => false,
        }
    }

    fn enter(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > 40 {
            return Err("recursion without a contract".into());
        }
        Ok(())
    }

    fn call(&mut self, e: &mut Expr, k: &K, pos: &Pos) -> R<()> {
        let Expr::Call(c) = e else { unreachable!() };
        // call of a local closure
        if let Some(p) = path_of(&c.func) {
            if p.len() == 1 {
                if let Some(f) = self.closures.get(&p[0]).cloned() {
                    self.exprs(c.args.iter_mut(), k)?;
                    let args = c.args.iter().cloned().collect();
                    *e = self.apply(&f, args, k, pos)?;
                    return Ok(());
                }
            }
        }
        if let Expr::Paren(p) = &*c.func {
            if let Expr::Closure(_) = &*p.expr {
                self.exprs(c.args.iter_mut(), k)?;
                let args = c.args.iter().cloned().collect();
                let f = (*p.expr).clone();
                *e = self.apply(&f, args, k, pos)?;
                return Ok(());
            }
        }
        // Self::not_in(s)(c): kept as a call of a function value
        if let Expr::Call(_) = &*c.func {
            self.expr(&mut c.func, k, &Pos::Plain)?;
            return self.exprs(c.args.iter_mut(), k);
        }
        let Some(p) = path_of(&c.func) else {
            return Err(format!("call {}", toks(&c.func)));
        };
        if p.len() == 1 && self.acts.contains(&p[0]) {
            self.exprs(c.args.iter_mut(), k)?;
            let f = &c.func;
            let a = c.args.iter();
            *e = ex(quote!(#f.vs_call((#(#a,)*))));
            return Ok(());
        }
        if let Some(f) = self.resolve_call(&p) {
            self.called.insert(f.key.clone());
            if f.key == "<Node as From<Y>>::from" && self.contracted.contains(&f.key) && c.args.len() == 1 {
                // `From<T> for T` and `From<Y: Into<Yaml>>`: the instance is that of the type
                self.exprs(c.args.iter_mut(), k)?;
                let a = &c.args[0];
                *e = ex(quote!(VInto::<Node>::vs_into(#a)));
                return Ok(());
            }
            if p.len() >= 2 && p[p.len() - 2] == "Loader" && f.self_ty.as_deref() == Some("Parser") {
                let m = f.sig.ident.clone();
                c.func = Box::new(ex(quote!(Parser::#m)));
            }
            if !self.contracted.contains(&f.key) {
                for a in c.args.iter_mut() {
                    if !self.is_fn_value(a) {
                        self.expr(a, k, &Pos::Plain)?;
                    }
                }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if f.sig.receiver().is_some() { Some(args.remove(0)) } else { None };
                *e = self.inline(&f, recv, args, k, pos)?;
                return Ok(());
            }
        }
        self.exprs(c.args.iter_mut(), k)
    }

    /// Replace a call by the body of the callee.
    fn inline(&mut self, f: &FnDef, recv: Option<Expr>, args: Vec<Expr>, k: &K, pos: &Pos) -> R<Expr> {
        self.enter()?;
        self.inlined.insert(f.key.clone());
        let (sig, mut b) = self.prepare(f);
        // fresh names for the locals
        let mut bd = Bound(Default::default());
        bd.visit_block(&b);
        let n = if bd.0.is_empty() { 0 } else { self.fresh() };
        let ren: BTreeMap<String, String> = bd.0.iter().map(|s| (s.clone(), format!("{s}__{n}"))).collect();
        Rename(&ren).visit_block_mut(&mut b);
        let mut sub = BTreeMap::new();
        let mut pre: Vec<Stmt> = vec![];
        let mut fns = vec![];
        if let Some(r) = recv {
            let r = match r {
                Expr::Reference(x) if simple(&x.expr) => *x.expr,
                r => r,
            };
            if simple(&r) {
                sub.insert("self".to_string(), r);
            } else {
                let v = format_ident!("self__{}", self.fresh());
                let by_val = matches!(sig.receiver(), Some(rc) if rc.reference.is_none());
                if by_val {
                    pre.push(syn::parse_quote!(let #v = #r;));
                } else {
                    pre.push(syn::parse_quote!(let #v = &#r;));
                }
                sub.insert("self".to_string(), ex(quote!(#v)));
            }
        }
        let ps: Vec<&PatType> = sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
            .collect();
        if ps.len() != args.len() {
            return Err(format!("arity of {}", f.key));
        }
        for (p, a) in ps.iter().zip(args) {
            let Pat::Ident(i) = &*p.pat else {
                let pat = &p.pat;
                pre.push(syn::parse_quote!(let #pat = #a;));
                continue;
            };
            let name = i.ident.to_string();
            if self.is_fn_value(&a) {
                fns.push((name, a));
                continue;
            }
            if simple(&a) && i.mutability.is_none() {
                sub.insert(name, a);
            } else {
                let v = format_ident!("{}__{}", name, self.fresh());
                let mt = &i.mutability;
                let t = &p.ty;
                if matches!(&**t, Type::ImplTrait(_)) || matches!(&**t, Type::Path(tp) if tp.path.get_ident().map_or(false, |i| i.to_string().len() == 1)) {
                    pre.push(syn::parse_quote!(let #mt #v = #a;));
                } else {
                    pre.push(syn::parse_quote!(let #mt #v: #t = #a;));
                }
                sub.insert(name, ex(quote!(#v)));
            }
        }
        Subst(&sub).visit_block_mut(&mut b);
        let saved = self.closures.clone();
        for (n, c) in fns {
            self.closures.insert(n, c);
        }
        let st = self.self_ty.clone();
        // the receiver has been replaced: names are resolved in the caller
        let k2 = k_at(k, pos);
        let b0 = b.clone();
        let (depth, fns) = (self.depth, self.closures.clone());
        let mut r = self.block(&mut b, &k2, &Pos::Tail);
        if r.is_err() {
            let mut b1 = b0;
            if flat(&mut b1) {
                self.depth = depth;
                self.closures = fns;
                self.self_ty = st.clone();
                if self.block(&mut b1, &k2, &Pos::Tail).is_ok() {
                    r = Ok(());
                    b = b1;
                }
                self.depth = depth;
            }
        }
        self.self_ty = st;
        self.closures = saved;
        self.depth -= 1;
        r?;
        if pre.is_empty() && b.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &b.stmts[0] {
                return Ok(e.clone());
            }
        }
        let st = &b.stmts;
        Ok(ex(quote!({ #(#pre)* #(#st)* })))
    }

    /// `or_else`, `map`, `map_err`, ... with closures become matches.
    fn combinator(&mut self, m: &mut ExprMethodCall, k: &K, pos: &Pos) -> R<Option<Expr>> {
        let name = m.method.to_string();
        let n = m.args.len();
        let arg_fn = n >= 1 && self.is_fn_value(m.args.last().unwrap());
        if m.receiver_is_iter() {
            return Ok(None);
        }
        let a0 = m.args.first().cloned();
        match (name.as_str(), n) {
            ("or_else", 1) if arg_fn => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let i = self.fresh();
                let (v, e) = (format_ident!("v__{i}"), format_ident!("e__{i}"));
                if matches!(&a0, Some(Expr::Closure(c)) if c.inputs.is_empty()) {
                    let b = self.apply(&a0.unwrap(), vec![], k, pos)?;
                    return Ok(Some(ex(quote!(match #r { Some(#v) => Some(#v), None => #b }))));
                }
                let e = match &a0 { Some(Expr::Closure(c)) => match c.inputs.first() { Some(Pat::Ident(p)) => p.ident.clone(), _ => e }, _ => e };
                let b = self.apply(&a0.unwrap(), vec![ex(quote!(#e))], k, pos)?;
                Ok(Some(ex(quote!(match #r { Ok(#v) => Ok(#v), Err(#e) => #b }))))
            }
            ("and_then", 1) if arg_fn => {
                let opt = is_opt(&m.receiver);
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let i = self.fresh();
                let (v, e) = (format_ident!("v__{i}"), format_ident!("e__{i}"));
                let b = self.apply(&a0.unwrap(), vec![ex(quote!(#v))], k, pos)?;
                if opt || is_opt(r) {
                    return Ok(Some(ex(quote!(match #r { Some(#v) => #b, None => None }))));
                }
                Ok(Some(ex(quote!(match #r { Ok(#v) => #b, Err(#e) => Err(#e) }))))
            }
            ("filter", 1) if arg_fn && is_opt(&m.receiver) => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let v = format_ident!("v__{}", self.fresh());
                let b = self.apply(&a0.unwrap(), vec![ex(quote!(&#v))], k, &Pos::Plain)?;
                Ok(Some(ex(quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None }))))
            }
            ("and", 1) if !arg_fn && is_opt(&m.receiver) => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let i = self.fresh();
                let (v, a) = (format_ident!("v__{i}"), format_ident!("a__{i}"));
                let b = &m.args[0];
                Ok(Some(ex(quote!({ let #v = #r; let #a = #b; match #v { Some(_) => #a, None => None } }))))
            }
            ("map_err", 1) if arg_fn => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let i = self.fresh();
                let (v, e) = (format_ident!("v__{i}"), format_ident!("e__{i}"));
                let b = self.apply(&a0.unwrap(), vec![ex(quote!(#e))], k, &Pos::Plain)?;
                Ok(Some(ex(quote!(match #r { Ok(#v) => Ok(#v), Err(#e) => Err(#b) }))))
            }
            ("map", 1) if arg_fn => {
                let opt = is_opt(&m.receiver);
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = (*m.receiver).clone();
                let i = self.fresh();
                let (v, e) = (format_ident!("v__{i}"), format_ident!("e__{i}"));
                let b = self.apply(&a0.unwrap(), vec![ex(quote!(#v))], k, &Pos::Plain)?;
                Ok(Some(if opt || is_opt(&r) {
                    ex(quote!(match #r { Some(#v) => Some(#b), None => None }))
                } else {
                    ex(quote!(match #r { Ok(#v) => Ok(#b), Err(#e) => Err(#e) }))
                }))
            }
            ("is_some_and" | "is_none_or" | "is_ok_and" | "is_err_and", 1) if arg_fn => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let v = format_ident!("v__{}", self.fresh());
                let b = self.apply(&a0.unwrap(), vec![ex(quote!(#v))], k, &Pos::Plain)?;
                Ok(Some(match name.as_str() {
                    "is_some_and" => ex(quote!(match #r { Some(#v) => #b, None => false })),
                    "is_none_or" => ex(quote!(match #r { Some(#v) => #b, None => true })),
                    "is_ok_and" => ex(quote!(match #r { Ok(#v) => #b, Err(_) => false })),
                    _ => ex(quote!(match #r { Err(#v) => #b, Ok(_) => false })),
                }))
            }
            ("or", 1) if !arg_fn => {
                // the argument is evaluated in both cases
                let of = match &a0 {
                    Some(Expr::Call(c)) => path_of(&c.func).and_then(|p| p.last().cloned()).unwrap_or_default(),
                    _ => String::new(),
                };
                if !matches!(of.as_str(), "Ok" | "Err" | "Some") {
                    return Ok(None);
                }
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                self.exprs(m.args.iter_mut(), k)?;
                let i = self.fresh();
                let (v, o) = (format_ident!("v__{i}"), format_ident!("o__{i}"));
                let (r, a) = (&m.receiver, &m.args[0]);
                Ok(Some(if of == "Some" {
                    ex(quote!({ let #v = #r; let #o = #a; match #v { Some(#v) => Some(#v), None => #o } }))
                } else {
                    ex(quote!({ let #v = #r; let #o = #a; match #v { Ok(#v) => Ok(#v), Err(_) => #o } }))
                }))
            }
            ("then_some", 1) => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                self.exprs(m.args.iter_mut(), k)?;
                let (r, a) = (&m.receiver, &m.args[0]);
                Ok(Some(ex(quote!(if #r { Some(#a) } else { None }))))
            }
            ("ok_or", 1) => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                self.exprs(m.args.iter_mut(), k)?;
                let i = self.fresh();
                let v = format_ident!("v__{i}");
                let (r, a) = (&m.receiver, &m.args[0]);
                Ok(Some(ex(quote!(match #r { Some(#v) => Ok(#v), None => Err(#a) }))))
            }
            ("ok_or_else", 1) if arg_fn => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let v = format_ident!("v__{}", self.fresh());
                let b = self.apply(&a0.unwrap(), vec![], k, &Pos::Plain)?;
                Ok(Some(ex(quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) }))))
            }
            ("map_or", 2) => {
                let opt = is_opt(&m.receiver);
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = (*m.receiver).clone();
                let v = format_ident!("v__{}", self.fresh());
                let mut d = a0.unwrap();
                self.expr(&mut d, k, &Pos::Plain)?;
                let f = m.args[1].clone();
                let b = if self.is_fn_value(&f) { self.apply(&f, vec![ex(quote!(#v))], k, &Pos::Plain)? } else { ex(quote!(#f(#v))) };
                Ok(Some(if opt || is_opt(&r) { ex(quote!(match #r { Some(#v) => #b, None => #d })) } else { ex(quote!(match #r { Ok(#v) => #b, Err(_) => #d })) }))
            }
            ("map", 1) if matches!(&a0, Some(Expr::Path(p)) if p.path.is_ident("Some")) => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                let i = self.fresh();
                let (v, e) = (format_ident!("v__{i}"), format_ident!("e__{i}"));
                Ok(Some(ex(quote!(match #r { Ok(#v) => Ok(Some(#v)), Err(#e) => Err(#e) }))))
            }
            ("unwrap_or_default", 0) => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = &m.receiver;
                Ok(Some(ex(quote!(vs_unwrap_or_default(#r)))))
            }
            ("unwrap_or_else", 1) if arg_fn => {
                self.expr(&mut m.receiver, k, &Pos::Plain)?;
                let r = (*m.receiver).clone();
                let i = self.fresh();
                let (v, e) = (format_ident!("v__{i}"), format_ident!("e__{i}"));
                let c = a0.unwrap();
                let zero = matches!(&c, Expr::Closure(c) if c.inputs.is_empty());
                Ok(Some(if zero {
                    let b = self.apply(&c, vec![], k, pos)?;
                    ex(quote!(match #r { Some(#v) => #v, None => #b }))
                } else {
                    let b = self.apply(&c, vec![ex(quote!(#e))], k, pos)?;
                    ex(quote!(match #r { Ok(#v) => #v, Err(#e) => #b }))
                }))
            }
            _ => Ok(None),
        }
    }
}

/// Is the value an `Option` for sure? (by the name of the method)
fn is_opt(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_opt(&p.expr),
        Expr::MethodCall(m) => {
            matches!(m.method.to_string().as_str(), "get" | "first" | "last" | "next" | "ok" | "err" | "then_some" | "then" | "strip_prefix" | "strip_suffix" | "find" | "rfind" | "pop" | "checked_sub" | "checked_add" | "nth" | "split_once" | "find_map")
                || matches!(m.method.to_string().as_str(), "or_else" | "and_then" | "map" | "copied" | "cloned" | "filter" | "and") && is_opt(&m.receiver)
        }
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")),
        Expr::Path(p) => p.path.is_ident("None"),
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if is_opt(e)),
        Expr::If(i) => matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(e, None)) if is_opt(e)),
        Expr::Match(m) => m.arms.iter().any(|a| is_opt(&a.body)),
        _ => false,
    }
}

trait IterRecv {
    fn receiver_is_iter(&self) -> bool;
}
impl IterRecv for ExprMethodCall {
    /// `map` on an iterator chain is not the one of `Result` / `Option`.
    fn receiver_is_iter(&self) -> bool {
        let mut e = &*self.receiver;
        while let Expr::MethodCall(m) = e {
            if matches!(
                m.method.to_string().as_str(),
                "iter" | "lines" | "chars" | "into_iter" | "enumerate" | "split" | "bytes" | "keys" | "values"
            ) {
                return true;
            }
            e = &m.receiver;
        }
        false
    }
}

/// An expression which can be repeated and moved.
pub fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        _ => false,
    }
}
/// Replaces the closures an expression can end in by their numbers.
fn closure_tails(e: &mut Expr, v: &mut Vec<Expr>) -> R<()> {
    match e {
        Expr::Closure(_) => {
            let l = LitInt::new(&format!("{}usize", v.len() - 1), Span::call_site());
            v.push(e.clone());
            *e = ex(quote!(#l));
        }
        Expr::Block(b) => {
            let n = b.block.stmts.len();
            let mut target = n.wrapping_sub(1);
            // { let r = X; ..; r }
            if let Some(Stmt::Expr(t, None)) = b.block.stmts.last() {
                if let Some(p) = path_of(t) {
                    for (i, s) in b.block.stmts.iter().enumerate() {
                        if let Stmt::Local(l) = s {
                            if let Pat::Ident(x) = &l.pat {
                                if p.len() == 1 && x.ident == p[0] && l.init.is_some() {
                                    target = i;
                                }
                            }
                        }
                    }
                }
            }
            match b.block.stmts.get_mut(target) {
                Some(Stmt::Expr(x, None)) => closure_tails(x, v)?,
                Some(Stmt::Local(l)) => closure_tails(&mut l.init.as_mut().unwrap().expr, v)?,
                _ => return Err("closure value".into()),
            }
        }
        Expr::Paren(p) => closure_tails(&mut p.expr, v)?,
        Expr::If(i) => {
            let mut b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            closure_tails(&mut b, v)?;
            if let Expr::Block(b) = b {
                i.then_branch = b.block;
            }
            if let Some((_, x)) = &mut i.else_branch {
                closure_tails(x, v)?;
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                closure_tails(&mut a.body, v)?;
            }
        }
        _ => return Err(format!("closure value {}", toks(e))),
    }
    Ok(())
}

/// Numbers the generated names in the order of their first binding.
pub fn renumber(b: &mut Block) {
    let mut o = Ordered(vec![]);
    o.visit_block(b);
    let mut cnt: BTreeMap<String, usize> = BTreeMap::new();
    let mut m = BTreeMap::new();
    for n in o.0 {
        if let Some((base, num)) = n.rsplit_once("__") {
            if !num.is_empty() && num.chars().all(|c| c.is_ascii_digit()) {
                let k = cnt.entry(base.to_string()).or_insert(0);
                *k += 1;
                m.insert(n.clone(), format!("{base}__{k}"));
            }
        }
    }
    Rename(&m).visit_block_mut(b);
}
struct Ordered(Vec<String>);
impl<'a> Visit<'a> for Ordered {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if !self.0.contains(&s) {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}
