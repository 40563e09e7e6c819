//! Properties of nodes: equality, accessors, dumping, serde.
use crate::gen::{choices, Ch};
use crate::num::int_value;
use crate::rng::Rng;
use crate::Prop;
use serde::de::{Deserializer, Visitor};
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use yaml_peg::parser::Anchors;
use yaml_peg::repr::RcRepr;
use yaml_peg::serde::{from_str, to_arc_node, to_node, to_string, InlineList, Optional, SerdeError, Stringify};
use yaml_peg::{dump, Ind, Node, NodeRc, Yaml};

type Y = Yaml<RcRepr>;
type R<T = ()> = Result<T, String>;

fn want(ok: bool, why: impl FnOnce() -> String) -> R {
    if ok { Ok(()) } else { Err(why()) }
}

/// The value of a node, by which it is compared.
#[derive(Clone, Debug, PartialEq)]
enum K {
    Null,
    Bool(bool),
    Int(i64),
    Float(u64),
    /// A number without value.
    NoInt(String),
    NoFloat(String),
    Str(String),
    Seq(Vec<K>),
    Map(Vec<(K, K)>),
    Alias(String),
}
fn fkey(s: &str) -> K {
    match s.parse::<f64>() {
        Ok(x) if x.is_nan() => K::Float(f64::NAN.to_bits()),
        Ok(x) if x == 0. => K::Float(0),
        Ok(x) => K::Float(x.to_bits()),
        Err(_) => K::NoFloat(s.into()),
    }
}
const INTS: &[&str] = &["0", "-0", "7", "007", "0x7", "0o7", "-7", "0xFF", "0xff", "255", "9223372036854775807", "0x7fffffffffffffff", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "0x8000000000000000", "0xffffffffffffffff", "-9223372036854775809", "170141183460469231731687303715884105728", "99999999999999999999999999999999999999999", "1"];
const FLOATS: &[&str] = &["1.0", "1.", "1", "0.", "-0.0", "0", "1e3", "1000", "NaN", "nan", "-NaN", "inf", "-inf", "1.5", "1.50", "0.1", "1e400", "12e-1", "1.2", "3.4028236e38", "1.x", "x", ""];
const WORDS: &[&str] = &["", "a", "b", "key", "1", "true", "null", "x y", "é", "\u{1f600}", "a: b", "- x", "line\nbreak", "#c", "'", "\"q\"", " pad ", "0x7", "NaN", "~", "\n", "a\n\nb\n", "\\", "&a", "*a", "!t", "[x]", "tab\t", "...", "---", "%Y", "@", "\u{7}"];
const TAGS: &[&str] = &["", "", "", "tag:yaml.org,2002:str", "tag:yaml.org,2002:foo", "t", "my-tag", "tag:x.org,2000:y", "a b", "!"];

struct G<'a> {
    ch: Ch<'a>,
    alias: bool,
    /// Plain words and numbers with a value only.
    tame: bool,
    tags: bool,
}
impl<'a> G<'a> {
    fn word(&mut self) -> &'static str {
        if self.tame { self.ch.of(&["a", "b", "key", "x y", "foo-bar", "c", "", "[x", "a\nb", "two  \n\n  words\n", "é\nü\nö", "k\r\nl"]) } else { self.ch.of(WORDS) }
    }
    fn node(&mut self, depth: usize) -> (NodeRc, K) {
        let k = self.ch.pick(if depth == 0 { 6 } else { 10 });
        let (y, k): (Y, K) = match k {
            0 => (Y::Str(self.word().into()), K::Null),
            1 => {
                let s = if self.tame { self.ch.of(&["0", "7", "-12", "0x1f", "300"]) } else { self.ch.of(INTS) };
                (Y::Int(s.into()), int_value(s).map_or(K::NoInt(s.into()), K::Int))
            }
            2 => {
                let s = if self.tame { self.ch.of(&["1.5", "-2.25", "1e3", "NaN", "inf"]) } else { self.ch.of(FLOATS) };
                (Y::Float(s.into()), fkey(s))
            }
            3 => {
                let b = self.ch.pick(2) == 1;
                (Y::Bool(b), K::Bool(b))
            }
            4 => (Y::Null, K::Null),
            5 if self.alias => {
                let s = self.ch.of(&["a", "b", "n-1"]);
                (Y::Alias(s.into()), K::Alias(s.into()))
            }
            5 => (Y::Null, K::Null),
            6 | 7 => {
                let n = self.ch.pick(4);
                let v: Vec<_> = (0..n).map(|_| self.node(depth - 1)).collect();
                let k = v.iter().map(|x| x.1.clone()).collect();
                (Y::Seq(v.into_iter().map(|x| x.0).collect()), K::Seq(k))
            }
            _ => {
                let n = self.ch.pick(4);
                let mut ks: Vec<(K, K)> = vec![];
                let mut v = vec![];
                for _ in 0..n {
                    let (a, ka) = self.node(depth - 1);
                    let (b, kb) = self.node(depth - 1);
                    ks.retain(|(k, _)| *k != ka);
                    ks.push((ka, kb));
                    v.push((a, b));
                }
                (v.into_iter().collect(), K::Map(ks))
            }
        };
        let k = if let Y::Str(s) = &y { K::Str(s.clone()) } else { k };
        let pos = self.ch.pick(50) as u64;
        let tag = if self.tags { self.ch.of(TAGS) } else { "" };
        (Node::new(y, pos, tag), k)
    }
}
fn hash(n: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}
/// Does a node hold exactly this value?
fn is(n: &NodeRc, k: &K) -> bool {
    match (n.yaml(), k) {
        (Y::Null, K::Null) => true,
        (Y::Bool(a), K::Bool(b)) => a == b,
        (Y::Int(s), k @ (K::Int(_) | K::NoInt(_))) => int_value(s).map_or(K::NoInt(s.clone()), K::Int) == *k,
        (Y::Float(s), k @ (K::Float(_) | K::NoFloat(_))) => fkey(s) == *k,
        (Y::Str(a), K::Str(b)) => a == b,
        (Y::Seq(a), K::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| is(x, y)),
        (Y::Map(a), K::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| is(x.0, &y.0) && is(x.1, &y.1)),
        (Y::Alias(a), K::Alias(b)) => a == b,
        _ => false,
    }
}

pub struct Values(pub &'static str);
impl Prop for Values {
    fn make(&self, r: &mut Rng) -> String {
        let n = *r.pick(&[6, 20, 60]);
        choices(r, n)
    }
    fn judge(&self, case: &str) -> R<bool> {
        match self.0 {
            "C04" => c04(case),
            "C05" => c05(case),
            "C16" => c16(case),
            "C17" => c17(case),
            "C18" => c18(case),
            "C19" => c19(case),
            "C20" => c20(case),
            _ => c21(case),
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            "C04" => "random pairs of node trees, the second often the first with one change, compared by an independent key; counted: with an equal pair",
            "C05" => "random node trees, every accessor on every node; counted: with a collection",
            "C16" => "random lists of node trees with anchors and tags, compared with an independent writer; counted: with a collection",
            "C17" => "random lists of node trees which are written in forms of their own kind, parsed again; counted: with a collection",
            "C18" => "random integers near the bounds of every type; counted: values which fit",
            "C19" => "random Rust values of every shape, to a node, to text and back; counted: all",
            "C20" => "random node trees, to a node and back; counted: without aliases",
            _ => "random values for the helper types; counted: all",
        }
    }
}

// ---------------------------------------------------------------- C04

trait IntoTag {
    fn into_tag(self, tag: &str, pos: u64) -> Self;
}
impl IntoTag for NodeRc {
    fn into_tag(self, tag: &str, pos: u64) -> Self {
        Node::new(self.yaml().clone(), pos, tag)
    }
}
/// The tree with the entries of every collection turned round.
fn turn(n: &NodeRc, k: &K, by: usize) -> (NodeRc, K) {
    fn order<T>(v: &mut Vec<T>, by: usize) {
        match by {
            0 => v.reverse(),
            1 if v.len() > 1 => v.swap(0, 1),
            _ if !v.is_empty() => v.rotate_left(1),
            _ => (),
        }
    }
    match (n.yaml(), k) {
        (Y::Seq(v), K::Seq(w)) => {
            let mut x: Vec<_> = v.iter().zip(w).map(|(n, k)| turn(n, k, by)).collect();
            order(&mut x, by);
            let k = x.iter().map(|x| x.1.clone()).collect();
            (Node::new(Y::Seq(x.into_iter().map(|x| x.0).collect()), n.pos(), n.tag()), K::Seq(k))
        }
        (Y::Map(m), K::Map(w)) => {
            let mut x: Vec<_> = m.iter().zip(w).map(|((a, b), (ka, kb))| ((a.clone(), ka.clone()), turn(b, kb, by))).collect();
            order(&mut x, by);
            let k = x.iter().map(|x| (x.0 .1.clone(), x.1 .1.clone())).collect();
            let m: Y = x.into_iter().map(|x| (x.0 .0, x.1 .0)).collect();
            (Node::new(m, n.pos(), n.tag()), K::Map(k))
        }
        _ => (n.clone(), k.clone()),
    }
}
fn c04(case: &str) -> R<bool> {
    let (c1, c2) = case.split_at(case.char_indices().nth(case.chars().count() / 2).map_or(0, |x| x.0));
    let mk = |c: &str| G { ch: Ch::new(c), alias: true, tame: false, tags: true }.node(3);
    // two trees of the same choices with one changed, and a third
    let mut d: Vec<char> = c1.chars().collect();
    let mut ch = Ch::new(c2);
    if !d.is_empty() {
        for _ in 0..ch.pick(3) {
            let i = ch.pick(d.len().min(70));
            d[i] = (0x30 + ch.pick(75) as u8) as char;
        }
    }
    let d: String = d.into_iter().collect();
    let mut v = vec![mk(c1), mk(&d), mk(c2), mk(c1)];
    // the same entries in another order, the same value elsewhere with another tag
    for i in 0..2 {
        let turned = turn(&v[i].0, &v[i].1, ch.pick(3));
        v.push(turned);
    }
    let (n, k) = v[0].clone();
    let tag = ch.of(TAGS);
    v.push((Node::from(n.yaml().clone()).into_tag(tag, 7), k));
    let mut any = false;
    for (a, ka) in &v {
        want(is(a, ka), || format!("{a:?} is not what it was built from: {ka:?}"))?;
        want(a == a, || format!("{a:?} is not equal to itself"))?;
        for (b, kb) in &v {
            let e = a == b;
            want(e == (ka == kb), || format!("{a:?} == {b:?} is {e}"))?;
            want(e == (b == a) && e != (a != b), || format!("{a:?} == {b:?} is not symmetric"))?;
            want(e == (a.yaml() == b.yaml()), || format!("{a:?} == {b:?} is not by value"))?;
            if e {
                any = true;
                want(hash(a) == hash(b), || format!("{a:?} and {b:?} are equal with different hashes"))?;
                want(hash(a.yaml()) == hash(b.yaml()), || format!("{a:?} and {b:?} are equal with different hashes"))?;
            }
        }
    }
    Ok(any)
}

// ---------------------------------------------------------------- C05

fn c05(case: &str) -> R<bool> {
    let (n, k) = G { ch: Ch::new(case), alias: true, tame: false, tags: true }.node(3);
    access(&n, &k)?;
    Ok(matches!(k, K::Seq(_) | K::Map(_)))
}
fn access(n: &NodeRc, k: &K) -> R {
    // another value in the same place
    let mut m: NodeRc = Node::new("other", n.pos(), "!x");
    let tag = m.tag().to_string();
    m.set_yaml(n.yaml().clone());
    want(is(&m, k) && m.pos() == n.pos() && m.tag() == tag, || format!("set_yaml of {n:?}"))?;
    let p = n.pos();
    let at = |m: &str| format!("{m} of {n:?} at {p}");
    want(n.is_null() == (*k == K::Null), || at("is_null"))?;
    want(n.as_bool() == if let K::Bool(b) = k { Ok(*b) } else { Err(p) }, || at("as_bool"))?;
    want(n.as_int() == if let K::Int(i) = k { Ok(*i) } else { Err(p) }, || at("as_int"))?;
    let f = |x: Result<f64, u64>| x.map(|x| if x == 0. { 0 } else if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() });
    let g = |x: &u64| Ok(*x);
    want(f(n.as_float()) == if let K::Float(x) = k { g(x) } else { Err(p) }, || at("as_float"))?;
    let w = match k {
        K::Float(x) => g(x),
        K::Int(i) => f(Ok(*i as f64)),
        _ => Err(p),
    };
    want(f(n.as_number()) == w, || at("as_number"))?;
    want(n.as_str() == match k { K::Str(s) => Ok(s.as_str()), K::Null => Ok(""), _ => Err(p) }, || at("as_str"))?;
    let w = match n.yaml() {
        Y::Str(s) | Y::Int(s) | Y::Float(s) => Ok(s.as_str()),
        Y::Bool(b) => Ok(if *b { "true" } else { "false" }),
        Y::Null => Ok(""),
        _ => Err(p),
    };
    want(n.as_value() == w, || at("as_value"))?;
    // sequences
    match (n.as_seq(), k) {
        (Ok(v), K::Seq(w)) => {
            want(v.len() == w.len() && v.iter().zip(w).all(|(a, b)| is(a, b)), || at("as_seq"))?;
            for (i, w) in w.iter().enumerate() {
                want(n.get_ind(Ind(i)).map_or(false, |x| is(x, w) && x.pos() == v[i].pos()), || at("get_ind"))?;
                want(is(&n[Ind(i)], w), || at("index"))?;
                access(&v[i], w)?;
            }
            want(n.get_ind(Ind(w.len())) == Err(p) && n.get_ind(Ind(usize::MAX)) == Err(p), || at("get_ind"))?;
        }
        (Err(q), k) if !matches!(k, K::Seq(_)) => {
            want(q == p, || at("as_seq"))?;
            want(n.get_ind(Ind(0)) == Err(p), || at("get_ind"))?;
        }
        _ => return Err(at("as_seq")),
    }
    // maps
    match (n.as_map(), k) {
        (Ok(m), K::Map(w)) => {
            want(is(&Y::Map(m.clone()).into(), k), || at("as_map"))?;
            for ((a, b), (ka, kb)) in m.iter().zip(w) {
                want(n.get(a.clone()).map_or(false, |x| is(x, kb) && x.pos() == b.pos()), || at("get"))?;
                want(is(&n[a.clone()], kb), || at("index"))?;
                // a present key: the factory decides
                let r = n.get_default(a.clone(), -77, NodeRc::as_int);
                want(r == if let K::Int(i) = kb { Ok(*i) } else { Err(b.pos()) }, || at("get_default"))?;
                let r = n.get_default(a.clone(), "dflt", NodeRc::as_str);
                want(r == match kb { K::Str(s) => Ok(s.as_str()), K::Null => Ok(""), _ => Err(b.pos()) }, || at("get_default"))?;
                // a factory which refuses at a place of its own
                let q = b.pos() + 1000;
                want(n.get_default(a.clone(), (), |_| Err(q)) == Err(q), || at("get_default"))?;
                want(n.get_default(a.clone(), 1, |x| Ok(if is(x, kb) { 2 } else { 3 })) == Ok(2), || at("get_default"))?;
                access(a, ka)?;
                access(b, kb)?;
                // keys of another kind with the same text
                let t = a.as_value().unwrap_or("").to_string();
                let others: [(NodeRc, bool); 4] = [
                    (Y::Null.into(), w.iter().any(|(k, _)| matches!(k, K::Null))),
                    (Y::Bool(true).into(), w.iter().any(|(k, _)| matches!(k, K::Bool(true)))),
                    (Y::Str(t.clone()).into(), w.iter().any(|(k, _)| matches!(k, K::Str(s) if *s == t))),
                    (Y::Alias(t.clone()).into(), w.iter().any(|(k, _)| matches!(k, K::Alias(s) if *s == t))),
                ];
                for (o, there) in others {
                    want(n.get(o.clone()).is_ok() == there, || at("get"))?;
                    if !there {
                        want(n.get_default(o, -77, NodeRc::as_int) == Ok(-77), || at("get_default"))?;
                    }
                }
            }
            want(n.get("no such key") == Err(p), || at("get"))?;
            want(n.get_default("no such key", -77, NodeRc::as_int) == Ok(-77), || at("get_default"))?;
        }
        (Err(q), k) if !matches!(k, K::Map(_)) => {
            want(q == p, || at("as_map"))?;
            want(n.get("a") == Err(p), || at("get"))?;
            want(n.get_default("a", -77, NodeRc::as_int) == Err(p), || at("get_default"))?;
        }
        _ => return Err(at("as_map")),
    }
    // aliases
    let mut an = Anchors::<RcRepr>::new();
    an.insert("a".into(), Node::new("target", 3, ""));
    an.insert("other".into(), Node::new("other", 4, ""));
    let r = n.as_anchor(&an);
    match k {
        K::Alias(s) if s == "a" => want(r.map_or(false, |x| x.as_str() == Ok("target")), || at("as_anchor"))?,
        K::Alias(_) => want(r == Err(p), || at("as_anchor"))?,
        _ => want(r.map_or(false, |x| std::ptr::eq(x, n)), || at("as_anchor"))?,
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

/// Writes a node in the documented form.
fn write(n: &NodeRc, an: &Anchors<RcRepr>, root: u8, level: usize) -> String {
    // root: 0 the document, 1 below a key, 2 below a dash
    let mut o = String::new();
    if let Some((k, _)) = an.iter().find(|(_, v)| *v == n) {
        o += &format!("&{k} ");
    }
    let tag = n.tag();
    if !tag.is_empty() && !tag.starts_with(crate::gen::CORE) {
        let id = tag.bytes().take_while(|c| c.is_ascii_alphanumeric() || *c == b'-').count();
        o += &if id > 0 { format!("!{tag} ") } else { format!("!<{tag}> ") };
    }
    let ind = "  ".repeat(level);
    match n.yaml() {
        Y::Null => o += "null",
        Y::Bool(b) => o += if *b { "true" } else { "false" },
        Y::Str(s) if s.lines().count() > 1 => {
            // over several lines: a literal, its lines indented like the node
            let l: Vec<_> = s.lines().map(|l| if l.is_empty() { String::new() } else { format!("{ind}{}", l.trim_end()) }).collect();
            o += &format!("|\n{ind}{}", l.join("\n").trim());
        }
        // not the start of plain text
        Y::Str(s) if s.is_empty() || s.starts_with('[') => o += &format!("{s:?}"),
        Y::Int(s) | Y::Float(s) | Y::Str(s) => o += s,
        Y::Alias(a) => o += &format!("*{a}"),
        Y::Seq(v) if v.is_empty() => o += "[]",
        Y::Map(m) if m.is_empty() => o += "{}",
        Y::Seq(v) => {
            for (i, x) in v.iter().enumerate() {
                o += "\n";
                if i > 0 || level > 0 {
                    o += &ind;
                }
                o += "- ";
                o += &write(x, an, 2, level + 1);
            }
        }
        Y::Map(m) => {
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 || root == 1 {
                    o += "\n";
                    o += &ind;
                }
                let s = write(k, an, 1, level + 1);
                let block = match k.yaml() {
                    Y::Seq(v) => !v.is_empty(),
                    Y::Map(m) => !m.is_empty(),
                    _ => false,
                };
                if block {
                    o += &format!("?{ind}  \n{s}\n{ind}");
                } else {
                    o += &s;
                }
                o += ":";
                let flat = matches!(v.yaml(), Y::Seq(_)) && root == 2 && i == 0;
                let s = write(v, an, 1, if flat { level } else { level + 1 });
                if !s.starts_with('\n') {
                    o += " ";
                }
                o += &s;
            }
        }
    }
    o
}
fn c16(case: &str) -> R<bool> {
    let mut g = G { ch: Ch::new(case), alias: true, tame: false, tags: true };
    let wild = g.ch.pick(4) == 0;
    g.tame = !wild;
    let n = g.ch.pick(4);
    let mut nodes = vec![];
    for _ in 0..n {
        nodes.push(g.node(3).0);
    }
    let mut ans = vec![];
    for i in 0..g.ch.pick(4) {
        let mut an = Anchors::<RcRepr>::new();
        for j in 0..g.ch.pick(3) {
            let x = match nodes.get(i) {
                Some(n) if g.ch.pick(2) == 0 => inner(n, &mut g.ch),
                _ => g.node(1).0,
            };
            an.insert(format!("n{j}"), x);
        }
        ans.push(an);
    }
    let t = dump(&nodes, &ans);
    want(nodes.is_empty() == t.is_empty(), || format!("{t:?} for {nodes:?}"))?;
    want(t.is_empty() || t.ends_with('\n'), || format!("no line break at the end: {t:?}"))?;
    if wild {
        return Ok(false);
    }
    let e = Anchors::<RcRepr>::new();
    let mut w = String::new();
    for (i, n) in nodes.iter().enumerate() {
        let s = write(n, ans.get(i).unwrap_or(&e), 0, 0);
        if i == 0 {
            w += &s;
        } else {
            w += "---\n";
            w += s.trim_start();
        }
        w += "\n";
    }
    want(t == w, || format!("{t:?} instead of {w:?} for {nodes:?}"))?;
    Ok(nodes.iter().any(|n| matches!(n.yaml(), Y::Seq(_) | Y::Map(_))))
}
fn inner(n: &NodeRc, ch: &mut Ch) -> NodeRc {
    match n.yaml() {
        Y::Seq(v) if !v.is_empty() && ch.pick(3) > 0 => inner(&v[ch.pick(v.len())], ch),
        Y::Map(m) if !m.is_empty() && ch.pick(3) > 0 => {
            let i = ch.pick(m.len());
            inner(m.iter().nth(i).unwrap().1, ch)
        }
        _ => n.clone(),
    }
}

// ---------------------------------------------------------------- C17

/// A node which the dumper writes in a form of its own kind.
fn regular(ch: &mut Ch, depth: usize, key: bool) -> (NodeRc, K) {
    const STRS: &[&str] = &["a", "b", "key", "x y", "foo-bar", "c1", "no", "Off", "nUll", "a.b", "a/b_c", "e5", "é ü", "日本", "x-", "tru", "true1", "null x", "Nan", "inf", "y n z", "O0x1", "[x", "{", "]", "}a b", ",", "[]", "{a: *b}", "[&x, !t]"];
    let (y, k): (Y, K) = match ch.pick(if depth == 0 { 5 } else { 9 }) {
        0 => (Y::Null, K::Null),
        1 => {
            let b = ch.pick(2) == 1;
            (Y::Bool(b), K::Bool(b))
        }
        2 => {
            let s = ch.text(&["0", "-0", "7", "-12", "007", "300", "9223372036854775807", "0x1f", "0o17"]);
            let s = if int_value(&s).is_some() { s } else { format!("-{}", s.len()) };
            let k = int_value(&s).map_or(K::NoInt(s.clone()), K::Int);
            (Y::Int(s), k)
        }
        3 => {
            let s = ch.of(&["1.5", "-2.25", "0.1", "10.01", "-0.5", "1.", "1e3", "1.0", "2E-5", "-3e+7"]);
            (Y::Float(s.into()), fkey(s))
        }
        4 => {
            let s: String = ch.text(STRS);
            (Y::Str(s.clone()), K::Str(s))
        }
        5 | 6 => {
            let n = ch.count(4);
            let v: Vec<_> = (0..n).map(|_| regular(ch, depth - 1, key)).collect();
            let k = v.iter().map(|x| x.1.clone()).collect();
            (Y::Seq(v.into_iter().map(|x| x.0).collect()), K::Seq(k))
        }
        _ => {
            let n = ch.count(4);
            let mut ks: Vec<(K, K)> = vec![];
            let mut v = vec![];
            for _ in 0..n {
                let (a, ka) = regular(ch, if key { depth - 1 } else { 0 }, key);
                let (b, kb) = regular(ch, depth - 1, key);
                ks.retain(|(k, _)| *k != ka);
                ks.push((ka, kb));
                v.push((a, b));
            }
            (v.into_iter().collect(), K::Map(ks))
        }
    };
    (Node::new(y, 0, ""), k)
}
fn c17(case: &str) -> R<bool> {
    let mut ch = Ch::new(case);
    let mut v = vec![];
    for _ in 0..1 + ch.pick(3) {
        let d = if ch.pick(12) == 0 { 6 } else { 3 };
        v.push(regular(&mut ch, d, true));
    }
    let n: Vec<_> = v.iter().map(|x| x.0.clone()).collect();
    let t = dump(&n, &[]);
    let m: Result<Vec<NodeRc>, _> = yaml_peg::parse(&t);
    let m = m.map_err(|e| format!("{n:?} is written as {t:?}, which is rejected: {e:?}"))?;
    want(m.len() == n.len(), || format!("{n:?} is written as {t:?}, which is {} documents", m.len()))?;
    for (a, b) in m.iter().zip(&v) {
        want(is(a, &b.1), || format!("{:?} is written as {t:?}, which is {a:?}", b.0))?;
        want(*a == b.0, || format!("{:?} != {a:?}", b.0))?;
    }
    Ok(v.iter().any(|x| matches!(x.1, K::Seq(_) | K::Map(_))))
}

// ---------------------------------------------------------------- C18

/// What a deserializer shows of an integer.
#[derive(Debug, PartialEq)]
enum Shown {
    I(i128),
    U(u128),
    Else,
}
struct Show;
impl<'de> Visitor<'de> for Show {
    type Value = Shown;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_i64<E>(self, v: i64) -> Result<Shown, E> {
        Ok(Shown::I(v.into()))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Shown, E> {
        Ok(Shown::I(v.into()))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Shown, E> {
        Ok(Shown::I(v))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Shown, E> {
        Ok(i128::try_from(v).map_or(Shown::U(v), Shown::I))
    }
    fn visit_f64<E>(self, _: f64) -> Result<Shown, E> {
        Ok(Shown::Else)
    }
    fn visit_str<E>(self, _: &str) -> Result<Shown, E> {
        Ok(Shown::Else)
    }
    fn visit_unit<E>(self) -> Result<Shown, E> {
        Ok(Shown::Else)
    }
}

/// The value of a text with up to 128 bits.
fn wide(s: &str) -> Result<Shown, ()> {
    match s.parse::<i128>() {
        Ok(x) => Ok(Shown::I(x)),
        Err(_) => s.parse::<u128>().map(Shown::U).map_err(|_| ()),
    }
}
macro_rules! ints {
    ($m:ident) => {
        $m!(i8); $m!(i16); $m!(i32); $m!(i64); $m!(i128);
        $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(u128);
        $m!(isize); $m!(usize);
    };
}
fn c18(case: &str) -> R<bool> {
    let mut ch = Ch::new(case);
    let bits = ch.of(&[0u32, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 4, 53]);
    let near = ch.of(&[0i64, -1, 1, -2, 2, 5, -5, 100]);
    let neg = ch.pick(2) == 1;
    // the text of the integer
    let (text, exact): (String, Option<Shown>) = if bits == 128 {
        let x = u128::MAX.wrapping_add(near as u128);
        let s = x.to_string();
        (s.clone(), wide(&s).ok())
    } else {
        let m = 1u128 << bits;
        let x = m.wrapping_add(near as u128);
        if near < 0 && m < near.unsigned_abs() as u128 {
            (near.to_string(), Some(Shown::I(near as i128)))
        } else if neg && x <= 1 << 127 {
            let s = if x == 0 { "0".into() } else { format!("-{x}") };
            (s.clone(), wide(&s).ok())
        } else {
            (x.to_string(), wide(&x.to_string()).ok())
        }
    };
    let form = ch.pick(4);
    let mut hex = false;
    let text = match exact {
        Some(Shown::I(x)) if form > 1 && x >= 0 => {
            hex = x > i64::MAX as i128;
            if form == 2 { format!("0x{x:x}") } else { format!("0o{x:o}") }
        }
        _ => text,
    };
    let pos = ch.pick(9) as u64;
    let n: NodeRc = Node::new(Y::Int(text.clone()), pos, "");
    let mut fits = false;
    macro_rules! de {
        ($t:ident) => {
            let w = match &exact {
                _ if hex => None,
                Some(Shown::I(x)) => $t::try_from(*x).ok(),
                Some(Shown::U(x)) => $t::try_from(*x).ok(),
                _ => None,
            };
            let g = $t::deserialize(n.clone());
            match (&w, &g) {
                (Some(w), Ok(g)) if w == g => fits = true,
                (None, Err(e)) => want(e.pos == pos, || format!("the error of {text:?} is at {}", e.pos))?,
                // a value beyond 64 bits may be refused when written in another base
                _ if hex => return Err(format!("{text:?} as {} is {g:?}", stringify!($t))),
                _ => return Err(format!("{text:?} as {} is {g:?} instead of {w:?}", stringify!($t))),
            }
            let d: Result<Vec<$t>, SerdeError> = from_str(&format!("{text}\n"));
            want(d.as_ref().ok().map(|v| v[0]) == w, || format!("{text:?} as {} is {d:?} instead of {w:?}", stringify!($t)))?;
        };
    }
    ints!(de);
    // passed on as it is
    let a = n.clone().deserialize_any(Show);
    match (&exact, a) {
        (_, Err(_)) if hex || exact.is_none() => {}
        (Some(w), Ok(g)) if *w == g && !hex => {}
        (_, a) => return Err(format!("{text:?} is passed on as {a:?}")),
    }
    match (&exact, to_node(&n)) {
        (_, Err(_)) if hex || exact.is_none() => {}
        (Some(w), Ok(g)) if !hex && matches!(g.yaml(), Y::Int(s) if wide(s).as_ref() == Ok(w)) => {}
        (_, a) => return Err(format!("{text:?} is written as {a:?}")),
    }
    // written and read back
    macro_rules! ser {
        ($t:ident) => {
            if let Some(x) = match &exact {
                Some(Shown::I(x)) => $t::try_from(*x).ok(),
                Some(Shown::U(x)) => $t::try_from(*x).ok(),
                _ => None,
            } {
                let m = to_node(&x).map_err(|e| format!("{x} is refused: {e}"))?;
                want(matches!(m.yaml(), Y::Int(s) if *s == x.to_string()), || format!("{x} is written as {m:?}"))?;
                let b = $t::deserialize(m);
                want(matches!(&b, Ok(b) if *b == x), || format!("{x} is read back as {b:?}"))?;
                let t = to_string(&x).map_err(|e| format!("{x} is refused: {e}"))?;
                let b = from_str::<$t>(&t);
                want(matches!(&b, Ok(b) if *b == [x]), || format!("{x} is read back as {b:?} from {t:?}"))?;
                let m = to_node(&vec![x]).map_err(|e| format!("{x} is refused: {e}"))?;
                let b = Vec::<$t>::deserialize(m);
                want(matches!(&b, Ok(b) if *b == [x]), || format!("{x} is read back as {b:?}"))?;
            }
        };
    }
    ints!(ser);
    // no integer
    for y in [Y::Str("12".into()), Y::Float("12".into()), Y::Null, Y::Bool(true), Y::Seq(vec![]), Y::Alias("a".into()), Y::Int("12x".into()), Y::Int(String::new())] {
        let m: NodeRc = Node::new(y, pos, "");
        macro_rules! no {
            ($t:ident) => {
                let g = $t::deserialize(m.clone());
                want(matches!(&g, Err(e) if e.pos == pos), || format!("{m:?} as {} is {g:?}", stringify!($t)))?;
            };
        }
        ints!(no);
    }
    Ok(fits)
}

// ---------------------------------------------------------------- C19

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct New(i32);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Pair(String, i64);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Rec {
    zeta: String,
    alpha: i32,
    opt: Option<String>,
    list: Vec<u8>,
    unit: (),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum En {
    Unit,
    New(String),
    Tuple(i32, bool, char),
    Struct { b: u8, a: Option<i8> },
    Nest(Box<En>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct All {
    en: Vec<En>,
    tup: (u8, String, bool),
    map: Vec<(String, En)>,
    new: New,
    pair: Pair,
    rec: Rec,
    unit: Unit,
    opt: Option<Option<i32>>,
    ch: char,
    x: f64,
    y: f32,
}
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct Entries(Vec<(String, i32)>);
impl Serialize for Entries {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i % 2 == 0 {
                m.serialize_entry(k, v)?;
            } else {
                m.serialize_key(k)?;
                m.serialize_value(v)?;
            }
        }
        m.end()
    }
}
fn int(n: impl ToString) -> NodeRc {
    Y::Int(n.to_string()).into()
}
fn st(s: impl ToString) -> NodeRc {
    Y::Str(s.to_string()).into()
}
fn seq(v: Vec<NodeRc>) -> NodeRc {
    Y::Seq(v).into()
}
fn null() -> NodeRc {
    Y::Null.into()
}
fn map(v: Vec<(&str, NodeRc)>) -> NodeRc {
    Y::Map(v.into_iter().map(|(k, v)| (st(k), v)).collect()).into()
}
/// Exactly the same tree: the texts of numbers as well.
fn exact(a: &NodeRc, b: &NodeRc) -> bool {
    match (a.yaml(), b.yaml()) {
        (Y::Seq(a), Y::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| exact(a, b)),
        (Y::Map(a), Y::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| exact(a.0, b.0) && exact(a.1, b.1)),
        (Y::Int(a), Y::Int(b)) | (Y::Float(a), Y::Float(b)) | (Y::Str(a), Y::Str(b)) => a == b,
        (Y::Null, Y::Null) => true,
        (Y::Bool(a), Y::Bool(b)) => a == b,
        _ => false,
    }
}
fn both<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(x: &T, w: &NodeRc) -> R {
    let n = to_node(x).map_err(|e| format!("{x:?} is refused: {e}"))?;
    want(exact(&n, w), || format!("{x:?} becomes {n:?} instead of {w:?}"))?;
    let a = to_arc_node(x).map_err(|e| format!("{x:?} is refused: {e}"))?;
    want(format!("{a:?}") == format!("{n:?}"), || format!("{x:?} becomes {a:?}"))?;
    let y = T::deserialize(n);
    want(matches!(&y, Ok(y) if y == x), || format!("{x:?} is read back as {y:?}"))?;
    let y = T::deserialize(a);
    want(matches!(&y, Ok(y) if y == x), || format!("{x:?} is read back as {y:?}"))
}
fn en(ch: &mut Ch, d: usize) -> (En, NodeRc) {
    match ch.pick(if d == 0 { 4 } else { 5 }) {
        0 => (En::Unit, st("Unit")),
        1 => {
            let s = ch.of(WORDS);
            (En::New(s.into()), map(vec![("New", st(s))]))
        }
        2 => {
            let c = ch.of(&['a', '7', 'é', '\u{1f600}', ' ']);
            let i = ch.pick(70) as i32 - 30;
            (En::Tuple(i, i > 0, c), map(vec![("Tuple", seq(vec![int(i), Y::Bool(i > 0).into(), st(c)]))]))
        }
        3 => {
            let b = ch.pick(70) as u8;
            let a = if ch.pick(2) == 0 { None } else { Some(-(b as i8)) };
            (En::Struct { b, a }, map(vec![("Struct", map(vec![("b", int(b)), ("a", a.map_or(null(), int))]))]))
        }
        _ => {
            let (e, n) = en(ch, d - 1);
            (En::Nest(Box::new(e)), map(vec![("Nest", n)]))
        }
    }
}
fn c19(case: &str) -> R<bool> {
    let mut ch = Ch::new(case);
    let (e, en_) = en(&mut ch, 3);
    both(&e, &en_)?;
    both(&vec![e.clone(), En::Unit], &seq(vec![en_.clone(), st("Unit")]))?;
    both(&Some(e.clone()), &en_)?;
    both(&None::<i32>, &null())?;
    both(&(), &null())?;
    both(&Unit, &null())?;
    let i = ch.pick(70) as i32 - 35;
    both(&New(i), &int(i))?;
    both(&(i > 0), &Y::Bool(i > 0).into())?;
    let w = ch.of(WORDS);
    both(&w.to_string(), &st(w))?;
    both(&Pair(w.into(), i as i64), &seq(vec![st(w), int(i)]))?;
    both(&(i, w.to_string()), &seq(vec![int(i), st(w)]))?;
    let c = ch.of(&['a', '7', 'é', '\u{1f600}', ' ', '"']);
    both(&c, &st(c))?;
    let l: Vec<u8> = (0..ch.pick(4)).map(|_| ch.pick(75) as u8 * 3).collect();
    both(&l, &seq(l.iter().map(int).collect()))?;
    let b = to_node(&Bytes(l.clone())).map_err(|e| e.to_string())?;
    want(exact(&b, &seq(l.iter().map(int).collect())), || format!("bytes {l:?} become {b:?}"))?;
    let rec = Rec { zeta: w.into(), alpha: i, opt: if i > 3 { Some(w.into()) } else { None }, list: l.clone(), unit: () };
    let o = rec.opt.as_ref().map_or(null(), st);
    let rn = map(vec![("zeta", st(w)), ("alpha", int(i)), ("opt", o), ("list", seq(l.iter().map(int).collect())), ("unit", null())]);
    both(&rec, &rn)?;
    let mut es = vec![];
    for j in 0..ch.pick(5) {
        es.push((format!("{}{j}", ch.of(&["z", "a", "m"])), ch.pick(9) as i32));
    }
    let m = to_node(&Entries(es.clone())).map_err(|e| e.to_string())?;
    want(exact(&m, &map(es.iter().map(|(k, v)| (k.as_str(), int(v))).collect())), || format!("{es:?} becomes {m:?}"))?;
    let x = ch.of(&[0.5f64, -1.25, 1e300, f64::INFINITY, 0.1, 1.0, -0.0]);
    both(&x, &Y::Float(x.to_string()).into())?;
    let y = ch.of(&[0.5f32, -1.25, 0.1, 3.0, f32::NEG_INFINITY]);
    both(&y, &Y::Float(y.to_string()).into())?;
    let all = All {
        en: vec![e.clone(); ch.pick(3)], tup: (3, w.into(), true), map: vec![("k".into(), e.clone())], new: New(i), pair: Pair(w.into(), 5),
        rec: rec.clone(), unit: Unit, opt: if i > 0 { Some(Some(i)) } else { None }, ch: c, x, y,
    };
    let n = to_node(&all).map_err(|e| format!("{all:?} is refused: {e}"))?;
    let b = All::deserialize(n);
    want(matches!(&b, Ok(b) if *b == all), || format!("{all:?} is read back as {b:?}"))?;
    // nodes of another kind
    let pos = 1 + ch.pick(50) as u64;
    let bad: Vec<NodeRc> = vec![
        Node::new(Y::Null, pos, ""),
        Node::new(Y::Bool(true), pos, ""),
        Node::new(Y::Int("5".into()), pos, ""),
        Node::new(Y::Float("5.5".into()), pos, ""),
        Node::new(Y::Str("long".into()), pos, ""),
        Node::new(Y::Seq(vec![]), pos, ""),
        Node::new(Y::Map(Default::default()), pos, ""),
        Node::new(Y::Alias("a".into()), pos, ""),
    ];
    fn refuse<T: for<'a> Deserialize<'a> + std::fmt::Debug>(bad: &[NodeRc], ok: &[usize], pos: u64) -> R {
        for (i, n) in bad.iter().enumerate() {
            let r = T::deserialize(n.clone());
            if ok.contains(&i) {
                want(r.is_ok(), || format!("{n:?} as {} is refused: {r:?}", std::any::type_name::<T>()))?;
            } else {
                want(matches!(&r, Err(e) if e.pos == pos), || format!("{n:?} at {pos} as {} gives {r:?}", std::any::type_name::<T>()))?;
            }
        }
        Ok(())
    }
    refuse::<bool>(&bad, &[1], pos)?;
    refuse::<i32>(&bad, &[2], pos)?;
    refuse::<f64>(&bad, &[2, 3], pos)?;
    refuse::<f32>(&bad, &[2, 3], pos)?;
    refuse::<String>(&bad, &[0, 1, 2, 3, 4], pos)?;
    refuse::<char>(&bad, &[2], pos)?;
    refuse::<Vec<i32>>(&bad, &[5], pos)?;
    refuse::<()>(&bad, &[0], pos)?;
    refuse::<Unit>(&bad, &[0], pos)?;
    refuse::<std::collections::BTreeMap<String, i32>>(&bad, &[6], pos)?;
    refuse::<Option<bool>>(&bad, &[0, 1], pos)?;
    refuse::<New>(&bad, &[2], pos)?;
    let bad2: Vec<NodeRc> = bad.iter().enumerate().filter(|(i, _)| *i != 4 && *i != 5 && *i != 6).map(|x| x.1.clone()).collect();
    refuse::<En>(&bad2, &[], pos)?;
    refuse::<Rec>(&bad2, &[], pos)?;
    refuse::<Pair>(&bad2, &[], pos)?;
    refuse::<(i32, i32)>(&bad2, &[], pos)?;
    // variants of another shape
    for (n, m) in [
        (map(vec![("Tuple", Node::new(Y::Int("1".into()), pos, ""))]), true),
        (map(vec![("Struct", Node::new(Y::Int("1".into()), pos, ""))]), true),
        (st("Tuple"), false),
        (st("Struct"), false),
        (st("New"), false),
        (st("Other"), false),
        (map(vec![("Unit", int(1))]), false),
        (map(vec![]), false),
        (map(vec![("New", st("a")), ("Unit", null())]), false),
    ] {
        let r = En::deserialize(n.clone());
        want(matches!(&r, Err(e) if !m || e.pos == pos), || format!("{n:?} as an enum gives {r:?}"))?;
    }
    Ok(true)
}

// ---------------------------------------------------------------- C20

fn has_alias(k: &K) -> bool {
    match k {
        K::Alias(_) => true,
        K::Seq(v) => v.iter().any(has_alias),
        K::Map(v) => v.iter().any(|(a, b)| has_alias(a) || has_alias(b)),
        _ => false,
    }
}
fn no_value(n: &NodeRc) -> bool {
    match n.yaml() {
        Y::Int(s) => wide(s).is_err() && int_value(s).is_none(),
        Y::Float(s) => fkey(s) == K::NoFloat(s.clone()),
        Y::Seq(v) => v.iter().any(no_value),
        Y::Map(v) => v.iter().any(|(a, b)| no_value(a) || no_value(b)),
        _ => false,
    }
}
fn c20(case: &str) -> R<bool> {
    let mut g = G { ch: Ch::new(case), alias: false, tame: false, tags: true };
    g.alias = g.ch.pick(4) == 0;
    let (n, k) = g.node(3);
    let s = to_node(&n);
    let d = NodeRc::deserialize(n.clone());
    if has_alias(&k) {
        want(s.is_err() && d.is_err(), || format!("an alias passes: {n:?} as {s:?} and {d:?}"))?;
        return Ok(false);
    }
    if no_value(&n) {
        // a number of more than 128 bits is refused
        want(s.is_err() && d.is_err(), || format!("{n:?} passes as {s:?} and {d:?}"))?;
        return Ok(false);
    }
    want(matches!(&s, Ok(s) if *s == n && is(s, &k)), || format!("{n:?} is written as {s:?}"))?;
    want(matches!(&d, Ok(d) if *d == n && is(d, &k)), || format!("{n:?} is read as {d:?}"))?;
    let o = Option::<NodeRc>::deserialize(n.clone());
    want(matches!(&o, Ok(o) if *o == if n.is_null() { None } else { Some(n.clone()) }), || format!("{n:?} is read as {o:?}"))?;
    let v = Vec::<NodeRc>::deserialize(seq(vec![n.clone(), n.clone()]));
    want(matches!(&v, Ok(v) if *v == [n.clone(), n.clone()]), || format!("{n:?} is read as {v:?}"))?;
    Ok(true)
}

// ---------------------------------------------------------------- C21

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Img {
    src: String,
}
impl Default for Img {
    fn default() -> Self {
        Img { src: "default".into() }
    }
}
fn c21(case: &str) -> R<bool> {
    let mut ch = Ch::new(case);
    // lists
    let v: Vec<Img> = (0..ch.pick(4)).map(|_| Img { src: ch.of(WORDS).into() }).collect();
    let one = Img { src: ch.of(WORDS).into() };
    let list = InlineList::<Img>::deserialize(to_node(&v).unwrap()).map_err(|e| e.to_string())?;
    let inline = InlineList::<Img>::deserialize(to_node(&one).unwrap()).map_err(|e| e.to_string())?;
    for (l, w) in [(list, v.clone()), (inline, vec![one.clone()]), (InlineList::List(v.clone()), v.clone()), (InlineList::Inline(one.clone()), vec![one.clone()])] {
        want(l.iter().cloned().collect::<Vec<_>>() == w, || format!("{l:?} iterates over something else than {w:?}"))?;
        want(l.iter().len() == w.len() && l.len() == w.len(), || format!("{l:?} counts {} items", l.len()))?;
        want(l.is_empty() == w.is_empty() && l.is_single() == (w.len() == 1), || format!("{l:?} is empty or single"))?;
        let s = format!("{l:?}");
        let i: Vec<Img> = l.into_iter().collect();
        want(i == w, || format!("{s} converts to {i:?}"))?;
    }
    want(InlineList::<i32>::default().is_empty(), || "the default list is not empty".into())?;
    // options
    let some = Optional::<Img>::deserialize(to_node(&one).unwrap()).map_err(|e| e.to_string())?;
    let yes = Optional::<Img>::deserialize(NodeRc::from(true)).map_err(|e| e.to_string())?;
    let no = Optional::<Img>::deserialize(NodeRc::from(false)).map_err(|e| e.to_string())?;
    let base = Img::default();
    let dflt = Img { src: format!("d{}", ch.of(WORDS)) };
    for (o, w) in [(&some, Some(Some(&one))), (&yes, Some(None)), (&no, None), (&Optional::Some(one.clone()), Some(Some(&one))), (&Optional::Bool(false), None), (&Optional::default(), Some(None))] {
        let got = |e: Vec<Img>, d: &Img, m: &str| {
            let w: Vec<Img> = w.iter().map(|x| x.unwrap_or(d).clone()).collect();
            want(e == w, || format!("{m} of {o:?} is called with {e:?}"))
        };
        let mut e = vec![];
        o.ok(|i| e.push(i.clone()));
        got(e, &Img::default(), "ok")?;
        let mut e = vec![];
        o.ok_instead(|i| e.push(i.clone()), &dflt);
        got(e, &dflt, "ok_instead")?;
        for k in 0..2 {
            let (mut e, mut n) = (vec![], 0);
            let r = if k == 0 {
                o.ok_or(|i| { e.push(i.clone()); 1 }, || { n += 1; 2 })
            } else {
                o.ok_or_instead(|i| { e.push(i.clone()); 1 }, &dflt, || { n += 1; 2 })
            };
            got(e, if k == 0 { &base } else { &dflt }, "ok_or")?;
            want(n == w.is_none() as i32 && r == if w.is_none() { 2 } else { 1 }, || format!("{o:?} calls the alternative {n} times and gives {r}"))?;
        }
    }
    // texts
    let i = ch.pick(75) as i32 * 1000 - 30000;
    let f = ch.of(&[0.5f32, -1.25, 0.1, 2.5, 1e20]);
    let b = ch.pick(2) == 1;
    let w = ch.of(WORDS);
    for (n, x, t) in [
        (NodeRc::from(i), Stringify::Int(i), i.to_string()),
        (NodeRc::from(f), Stringify::Float(f), f.to_string()),
        (NodeRc::from(b), Stringify::Bool(b), b.to_string()),
        (NodeRc::from(w), Stringify::Str(w.into()), w.to_string()),
    ] {
        let s = Stringify::deserialize(n.clone()).map_err(|e| format!("{n:?} is refused: {e}"))?;
        want(s == x && s.to_string() == t && x.to_string() == t, || format!("{n:?} displays as {:?} and {:?}", s.to_string(), x.to_string()))?;
    }
    want(Stringify::default().to_string().is_empty(), || "the default text is not empty".into())?;
    Ok(true)
}
