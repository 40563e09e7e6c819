//! Extracts functions of the crate out of its expanded source, weaves their
//! contracts in and writes a file for Verus.
//!
//! vx EXPANDED UNIT OUT [--tags C01,C02] [--canary]
mod index;
mod mac;
mod print;
mod stdmap;
mod weave;
mod xform;

use index::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;

fn rd(p: &str) -> String {
    std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("VX-ERROR cannot read {p}: {e}");
        std::process::exit(3)
    })
}

fn fail(msg: String) -> ! {
    eprintln!("VX-ERROR {msg}");
    std::process::exit(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let file = syn::parse_file(&rd(&a[1])).unwrap_or_else(|e| fail(format!("expanded source: {e}")));
    let mut ix = Index::build(&file);
    if a[2] == "--list" {
        for k in ix.fns.keys() {
            println!("{k}");
        }
        return;
    }
    let unit = &a[2];
    let dir = std::path::Path::new(unit).parent().unwrap().to_str().unwrap().to_string();
    let mut tags: Option<BTreeSet<String>> = None;
    let mut canary = false;
    // functions the verifier could not read: their contracts are assumed
    let mut assume: BTreeSet<String> = Default::default();
    let mut i = 4;
    while i < a.len() {
        match a[i].as_str() {
            "--tags" => {
                tags = Some(a[i + 1].split(',').map(String::from).collect());
                i += 1;
            }
            "--canary" => canary = true,
            "--assume" => {
                assume = a[i + 1].split(';').map(String::from).collect();
                i += 1;
            }
            x => fail(format!("argument {x}")),
        }
        i += 1;
    }
    let keep = |t: &[String]| -> bool {
        t.is_empty() || tags.as_ref().map_or(true, |s| t.iter().any(|x| s.contains(x)))
    };
    let mut out = String::from("#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, unused_parens, dead_code, unused_braces, unused_assignments, unreachable_code, non_snake_case)]\nuse vstd::prelude::*;\nuse std::rc::Rc;\nuse std::sync::Arc;\nverus! {\n");
    let mut specs: Vec<weave::FnSpec> = vec![];
    let mut ext: Vec<weave::FnSpec> = vec![];
    let mut types: Vec<String> = vec![];
    for l in rd(unit).lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first().copied() {
            Some("prelude") => {
                for p in &w[1..] {
                    out += &format!("// ---- {p}\n");
                    out += &rd(&format!("{dir}/{p}"));
                }
            }
            Some("types") => types.extend(w[1..].iter().map(|s| s.to_string())),
            Some("fns") => {
                for p in &w[1..] {
                    specs.extend(weave::parse(&rd(&format!("{dir}/{p}")), p));
                }
            }
            Some("extern") => {
                // contracts proved in another unit: assumed here
                for p in &w[1..] {
                    ext.extend(weave::parse(&rd(&format!("{dir}/{p}")), p));
                }
            }
            Some("assume") => {
                // further clauses of `extern` functions, proved nowhere
                for p in &w[1..] {
                    for m in weave::parse(&rd(&format!("{dir}/{p}")), p) {
                        match ext.iter_mut().find(|s| s.key == m.key) {
                            Some(s) => s.ensures.extend(m.ensures),
                            None => fail(format!("{}: not an extern function", m.key)),
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for sp in specs.iter().chain(&ext) {
        if let Some((k, t)) = &sp.lift {
            let name = sp.key.rsplit("::").next().unwrap();
            if let Err(e) = ix.lift(k, name, t) {
                eprintln!("{}: {e}", sp.key);
            }
        }
    }
    for sp in specs.iter().chain(&ext) {
        if let Some((k, v, n, t)) = &sp.outline {
            let name = sp.key.rsplit("::").next().unwrap();
            if let Err(e) = ix.outline(k, v, *n, name, t) {
                eprintln!("{}: {e}", sp.key);
            }
        }
    }
    for t in &types {
        out += &type_def(&ix, t);
    }
    let contracted: BTreeSet<String> = specs.iter().chain(&ext).map(|s| s.key.clone()).collect();
    let mut report = vec![];
    let mut groups: BTreeMap<String, String> = BTreeMap::new();
    for (sp, is_ext) in specs.iter().map(|s| (s, false)).chain(ext.iter().map(|s| (s, true))) {
        let mut sp2 = sp.clone();
        if is_ext {
            sp2.ghosts.clear();
            sp2.loops.clear();
            sp2.closures.clear();
        }
        if canary && !is_ext {
            sp2.ghosts.push(("start".into(), vec![], "    assert(false); //@ canary".into()));
        }
        let mut undecided = String::new();
        let forced = !is_ext && assume.contains(&sp.key);
        let mut res = if forced {
            undecided = "not accepted by the verifier".into();
            Err(undecided.clone())
        } else {
            weave::weave(&ix, &sp2, &contracted, &keep, is_ext)
        };
        if let (Err(e), false) = (&res, is_ext) {
            // the contract stays, the body is undecided
            undecided = e.clone();
            res = weave::weave(&ix, &sp2, &contracted, &keep, true);
        }
        match res {
            Ok(w) => {
                let owner = w.self_ty.clone().unwrap_or_default();
                let t = format!("// @fn {}\n{}", sp.key, w.text);
                groups.entry(owner).or_default().push_str(&t);
                report.push(format!(
                    "{{\"fn\":{:?},\"extern\":{},\"undecided\":{:?},\"soft\":{:?},\"loops\":{},\"requires\":{},\"ensures\":{},\"inlined\":[{}]}}",
                    sp.key,
                    is_ext,
                    undecided,
                    w.soft,
                    w.loops,
                    sp.requires.iter().filter(|c| keep(&c.tags)).count(),
                    sp.ensures.iter().filter(|c| keep(&c.tags)).count(),
                    w.inlined.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(",")
                ));
            }
            Err(e) => report.push(format!(
                "{{\"fn\":{:?},\"extern\":{},\"undecided\":{:?},\"loops\":0,\"requires\":0,\"ensures\":0,\"inlined\":[]}}",
                sp.key, is_ext, e
            )),
        }
    }
    for (ty, body) in groups {
        if ty.is_empty() {
            out += &body;
            continue;
        }
        let lt = ix.structs.get(&ty).map_or(false, |s| s.generics.lifetimes().count() > 0);
        let own = own_params(&ix, &ty);
        let h = if lt { format!("impl<'a> {ty}<'a>") } else if !own.is_empty() { format!("impl{own} {ty}{own}") } else { format!("impl {ty}") };
        out += &format!("{h} {{\n{body}}}\n// @end\n");
    }
    out += "} // verus!\nfn main() {}\n";
    std::fs::write(&a[3], out).unwrap_or_else(|e| fail(e.to_string()));
    std::fs::write(format!("{}.json", a[3]), format!("[{}]\n", report.join(",\n"))).unwrap();
}

/// The type parameters of a type but the representation.
fn own_params(ix: &Index, t: &str) -> String {
    let g = match (ix.structs.get(t), ix.enums.get(t)) {
        (Some(s), _) => &s.generics,
        (_, Some(e)) => &e.generics,
        _ => return String::new(),
    };
    let v: Vec<String> = g.type_params().filter(|p| p.ident != "R").map(|p| p.ident.to_string()).collect();
    if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
}

/// A type definition with public fields and without the representation.
fn type_def(ix: &Index, t: &str) -> String {
    let mut m = xform::Mono { self_ty: Some(t.to_string()), drop_r: true };
    if let Some(s) = ix.structs.get(t) {
        let mut s = s.clone();
        xform::NoAttr.visit_item_struct_mut(&mut s);
        xform::Assoc { ix, pre: String::new() }.visit_item_struct_mut(&mut s);
        m.visit_item_struct_mut(&mut s);
        let lt = s.generics.lifetimes().count() > 0;
        let mut o = format!("pub struct {t}{} {{\n", if lt { "<'a>" } else { "" });
        if matches!(s.fields, syn::Fields::Unnamed(_)) {
            let fs: Vec<String> = s.fields.iter().map(|f| ty_str(&f.ty)).filter(|t| !t.contains("PhantomData")).map(|t| format!("pub {t}")).collect();
            if fs.is_empty() {
                return format!("pub struct {t};\n");
            }
            return format!("pub struct {t}({});\n", fs.join(", "));
        }
        for f in &s.fields {
            let ty = ty_str(&f.ty);
            if ty.contains("PhantomData") {
                continue;
            }
            o += &format!("    pub {}: {},\n", f.ident.as_ref().unwrap(), ty);
        }
        return o + "}\n";
    }
    if let Some(s) = ix.enums.get(t) {
        let mut s = s.clone();
        xform::NoAttr.visit_item_enum_mut(&mut s);
        m.visit_item_enum_mut(&mut s);
        let mut o = format!("pub enum {t}{} {{\n", own_params(ix, t));
        for v in &s.variants {
            let mut x = v.clone();
            x.discriminant = None;
            let mut st = toks(&x);
            st = map_ty(&st);
            o += &format!("    {st},\n");
        }
        return o + "}\n";
    }
    if let Some(s) = ix.types.get(t) {
        let mut s = s.clone();
        let own = s.generics.type_params().any(|g| g.ident != "R");
        m.visit_type_mut(&mut s.ty);
        let g = if own { toks(&s.generics) } else { String::new() };
        return format!("pub type {t}{g} = {};\n", ty_str(&s.ty));
    }
    fail(format!("lost anchor: type {t} is gone"))
}

pub fn ty_str(t: &syn::Type) -> String {
    map_ty(&toks(t))
}

/// Library containers to the stubs.
pub fn map_ty(s: &str) -> String {
    s.replace("BTreeMap < Str , Str >", "SMap")
        .replace("BTreeMap < Str , Node >", "AMap")
        .replace("LinkedHashMap < Node , Node >", "LMap")
}
