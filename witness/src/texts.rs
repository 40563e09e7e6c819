//! Properties of single scalars, of arbitrary text and of locations.
use crate::docs::accepts;
use crate::gen::*;
use crate::num::*;
use crate::rng::Rng;
use crate::Prop;
use yaml_peg::parser::Parser;
use yaml_peg::repr::RcRepr;
use yaml_peg::{indicated_msg, indicated_msg_file, parse, parse_cyclic, NodeRc, Yaml};

fn want(ok: bool, why: impl FnOnce() -> String) -> Result<(), String> {
    if ok { Ok(()) } else { Err(why()) }
}

// ---------------------------------------------------------------- C01

pub struct C01;
const SMALL: &[char] = &['a', '1', ' ', '\n', ':', '-', '[', '{', ']', '}', ',', '"', '\'', '#', '&', '*', '!', '?', '|', '>'];
const SOUP: &[&str] = &[
    "a", "b1", "1", "-", "- ", "? ", ": ", ":", "\n", "\n  ", "\n    ", " ", "\t", "[", "]", "{", "}", ", ", ",", "\"", "'", "''", "\\\"", "\\", "#", " # c", "&a ", "*a", "!t ", "!!str ", "!<x> ", "!e!t ", "|", ">", "|-\n", ">+\n", "---", "...", "%YAML 1.2\n", "%TAG !e! x\n", "%", "0x", "0o", "1e", ".", ".inf", "~", "null", "\r", "\r\n", "é", "\u{1f600}", "\0", "=", "@", "`", "k: v\n", "- x\n", "\n- ", "\n? ", "\n: ", "\n---\n", "\n...\n",
];
impl Prop for C01 {
    fn fixed(&self, n: u64) -> Option<String> {
        // all texts up to 4 characters
        let b = SMALL.len() as u64;
        let mut n = n;
        for len in 0..5u32 {
            let m = b.pow(len);
            if n < m {
                let mut s = String::new();
                for _ in 0..len {
                    s.push(SMALL[(n % b) as usize]);
                    n /= b;
                }
                return Some(s);
            }
            n -= m;
        }
        None
    }
    fn make(&self, r: &mut Rng) -> String {
        match r.below(8) {
            0..=3 => {
                let n = *r.pick(&[4, 8, 16, 40]);
                (0..r.range(1, n)).map(|_| *r.pick(SOUP)).collect()
            }
            4 => (0..r.range(5, 12)).map(|_| *r.pick(SMALL)).collect(),
            k => {
                // a document, cut or edited
                let c = choices(r, 60);
                let f = F { anchors: true, tags: true, cmt: true, flow: true, block: true, scalars: true, multi: true, complex: true, lit: true, depth: 4 };
                let mut t: Vec<char> = stream(&c, f).text.chars().collect();
                if t.is_empty() {
                    return String::new();
                }
                match k {
                    5 => t.truncate(r.below(t.len())),
                    6 => {
                        for _ in 0..r.range(1, 3) {
                            let i = r.below(t.len());
                            t[i] = *r.pick(SMALL);
                        }
                    }
                    _ => {
                        let i = r.below(t.len());
                        let x: Vec<char> = r.pick(SOUP).chars().collect();
                        t.splice(i..i, x);
                    }
                }
                t.into_iter().collect()
            }
        }
    }
    fn judge(&self, t: &str) -> Result<bool, String> {
        let a = parse::<RcRepr>(t);
        let b = parse_cyclic::<RcRepr>(t);
        if let Ok((n, a)) = &b {
            want(n.len() == a.len(), || format!("{} anchor tables for {} documents", a.len(), n.len()))?;
        }
        Ok(a.is_ok() && t.len() > 2)
    }
    fn rule(&self) -> &'static str {
        "every text of up to 4 characters out of 20, then random token sequences and documents cut or edited at random, parsed in both modes; counted: accepted texts longer than 2 bytes"
    }
}

// ------------------------------------------------- scalars in context

/// A token in one of the places for a scalar: the text, and where it is.
/// `None` for the tail, and `flow` when it is inside of brackets.
pub struct Place {
    pub pre: &'static str,
    pub post: &'static str,
    pub flow: bool,
    pub key: bool,
    pub get: fn(&NodeRc) -> Option<NodeRc>,
}
fn root(n: &NodeRc) -> Option<NodeRc> {
    Some(n.clone())
}
fn val(n: &NodeRc) -> Option<NodeRc> {
    match n.yaml() {
        Yaml::Map(m) => m.iter().next().map(|x| x.1.clone()),
        _ => None,
    }
}
fn key(n: &NodeRc) -> Option<NodeRc> {
    match n.yaml() {
        Yaml::Map(m) => m.iter().next().map(|x| x.0.clone()),
        _ => None,
    }
}
fn item(n: &NodeRc) -> Option<NodeRc> {
    match n.yaml() {
        Yaml::Seq(v) => v.first().cloned(),
        _ => None,
    }
}
fn item2(n: &NodeRc) -> Option<NodeRc> {
    match n.yaml() {
        Yaml::Seq(v) => v.get(1).cloned(),
        _ => None,
    }
}
fn valitem(n: &NodeRc) -> Option<NodeRc> {
    val(n).and_then(|n| item(&n))
}
pub const PLACES: &[Place] = &[
    Place { pre: "", post: "", flow: false, key: false, get: root },
    Place { pre: "", post: "\n", flow: false, key: false, get: root },
    Place { pre: "--- ", post: "\n...\n", flow: false, key: false, get: root },
    Place { pre: "k: ", post: "", flow: false, key: false, get: val },
    Place { pre: "k: ", post: "\n", flow: false, key: false, get: val },
    Place { pre: "k:  ", post: " # c\n", flow: false, key: false, get: val },
    Place { pre: "k: ", post: "  \nb: 2\n", flow: false, key: false, get: val },
    Place { pre: "k:\n  ", post: "\n", flow: false, key: false, get: val },
    Place { pre: "- ", post: "", flow: false, key: false, get: item },
    Place { pre: "- ", post: "\n- x\n", flow: false, key: false, get: item },
    Place { pre: "- x\n- ", post: "\n", flow: false, key: false, get: item2 },
    Place { pre: "k:\n  - ", post: " #c\n", flow: false, key: false, get: valitem },
    Place { pre: "[", post: "]", flow: true, key: false, get: item },
    Place { pre: "[ ", post: " ]\n", flow: true, key: false, get: item },
    Place { pre: "[", post: ", x]", flow: true, key: false, get: item },
    Place { pre: "[x, ", post: "]", flow: true, key: false, get: item2 },
    Place { pre: "k: [", post: ",x]", flow: true, key: false, get: valitem },
    Place { pre: "{a: ", post: "}", flow: true, key: false, get: val },
    Place { pre: "{a: ", post: ", b: c}", flow: true, key: false, get: val },
    Place { pre: "{", post: ": b}", flow: true, key: true, get: key },
    Place { pre: "", post: ": v\n", flow: false, key: true, get: key },
    Place { pre: "", post: ":\n  - v\n", flow: false, key: true, get: key },
    Place { pre: "", post: " : v\n", flow: false, key: true, get: key },
    Place { pre: "k: ", post: "\t\n", flow: false, key: false, get: val },
    Place { pre: "k: ", post: " \t", flow: false, key: false, get: val },
    Place { pre: "- ", post: "  \t \r\n- x\r\n", flow: false, key: false, get: item },
    Place { pre: "[x,\t", post: "\t]", flow: true, key: false, get: item2 },
    Place { pre: "{a: \t", post: "\t}", flow: true, key: false, get: val },
    Place { pre: "k: [\n", post: "\n]\n", flow: true, key: false, get: valitem },
];

fn placed(p: &Place, tok: &str, v: &V) -> Result<(), String> {
    let t = format!("{}{tok}{}", p.pre, p.post);
    found(p, &t, &[], v)?;
    if p.pre.starts_with("---") {
        return Ok(());
    }
    // the same text some levels deeper
    let mut h = tok.bytes().fold(p.pre.len() * 31 + p.post.len(), |h, b| h.wrapping_mul(31).wrapping_add(b as usize)) / 7;
    let d = 1 + h % 6;
    let mut way = vec![];
    let mut o = String::new();
    let flow = t.starts_with(['[', '{']) && !t.contains('\n');
    if flow && h / 6 % 3 == 0 {
        for _ in 0..d {
            o += "[";
            way.push(false);
        }
        o += &t;
        o += &"]".repeat(d);
    } else {
        for i in 0..d {
            h /= 2;
            way.push(h % 2 == 0);
            o += &"  ".repeat(i);
            o += if h % 2 == 0 { "a:\n" } else { "-\n" };
        }
        for l in t.split_inclusive('\n') {
            o += &"  ".repeat(d);
            o += l;
        }
    }
    found(p, &o, &way, v)
}
fn found(p: &Place, t: &str, way: &[bool], v: &V) -> Result<(), String> {
    let n = parse::<RcRepr>(t).map_err(|e| format!("{t:?} is refused: {e}"))?;
    want(n.len() == 1, || format!("{} documents in {t:?}", n.len()))?;
    let mut n = n[0].clone();
    for w in way {
        n = if *w { val(&n) } else { item(&n) }.ok_or_else(|| format!("nothing there in {t:?}: {n:?}"))?;
    }
    let x = (p.get)(&n).ok_or_else(|| format!("nothing there in {t:?}: {n:?}"))?;
    let e = E { v: v.clone(), tag: String::new(), lo: 0, hi: 0 };
    same(&x, &e, Cmp::default()).map_err(|m| format!("{m} in {t:?}"))
}

// ---------------------------------------------------------------- C03

pub struct C03;
const NUMC: &[char] = &['0', '1', '2', '7', '8', '9', 'a', 'b', 'f', 'F', 'x', 'o', '.', '+', '-', 'e', 'E', '_', 'g'];
impl Prop for C03 {
    fn fixed(&self, n: u64) -> Option<String> {
        let b = NUMC.len() as u64;
        let np = PLACES.len() as u64;
        let mut n = n;
        for len in 1..4u32 {
            let m = b.pow(len) * np;
            if n < m {
                let p = n % np;
                n /= np;
                let mut s = String::from((0x30 + p as u8) as char);
                for _ in 0..len {
                    s.push(NUMC[(n % b) as usize]);
                    n /= b;
                }
                return Some(s);
            }
            n -= m;
        }
        None
    }
    fn make(&self, r: &mut Rng) -> String {
        let mut s = String::from((0x30 + r.below(PLACES.len()) as u8) as char);
        let d = |r: &mut Rng, n: usize| -> String { (0..r.range(1, n)).map(|_| *r.pick(&['0', '1', '5', '7', '8', '9'])).collect() };
        match r.below(8) {
            0 => s.extend((0..r.range(1, 9)).map(|_| *r.pick(NUMC))),
            1 => {
                let x: i128 = *r.pick(&[i64::MAX as i128, i64::MIN as i128, 0, u64::MAX as i128, 1 << 53]);
                s += &(x + r.below(5) as i128 - 2).to_string();
            }
            2 => {
                let x: u64 = *r.pick(&[i64::MAX as u64, u64::MAX - 3, 0, 1 << 63]);
                let x = x.wrapping_add(r.below(3) as u64);
                s += &match r.below(3) {
                    0 => format!("0x{x:x}"),
                    1 => format!("0x{x:X}"),
                    _ => format!("0o{x:o}"),
                };
            }
            3 => {
                s += if r.chance(1, 2) { "-" } else { "" };
                s += &d(r, 22);
            }
            4 => {
                s += if r.chance(1, 2) { "-" } else { "" };
                s += &d(r, 6);
                s += ".";
                if r.chance(4, 5) {
                    s += &d(r, 8);
                }
            }
            5 => {
                s += if r.chance(1, 2) { "-" } else { "" };
                s += &d(r, 6);
                s.push(*r.pick(&['e', 'E']));
                s += *r.pick(&["", "+", "-"]);
                s += &d(r, 3);
            }
            6 => {
                s += *r.pick(&["0x", "0o"]);
                s.extend((0..r.range(1, 18)).map(|_| *r.pick(&['0', '1', '7', '8', 'a', 'F', 'g'])));
            }
            _ => {
                s += &d(r, 3);
                s.push(*r.pick(NUMC));
                s += &d(r, 3);
            }
        }
        s
    }
    fn judge(&self, case: &str) -> Result<bool, String> {
        let mut it = case.chars();
        let Some(p) = it.next() else { return Ok(false) };
        let p = &PLACES[(p as usize).wrapping_sub(0x30) % PLACES.len()];
        let t = it.as_str();
        if t.is_empty() || t == "-" || t.starts_with("---") || t.starts_with("...") || !t.chars().all(|c| NUMC.contains(&c) || c.is_ascii_hexdigit()) {
            return Ok(false);
        }
        let v = number(t).unwrap_or_else(|| V::Str(t.into()));
        placed(p, t, &v)?;
        let n: NodeRc = match &v {
            V::Int(s) => Yaml::Int(s.clone()).into(),
            V::Float(s) => Yaml::Float(s.clone()).into(),
            _ => return Ok(false),
        };
        match &v {
            V::Int(s) => {
                let x = int_value(s);
                want(n.as_int().ok() == x, || format!("{s:?} reads as {:?}", n.as_int()))?;
                want(n.as_number().ok() == x.map(|n| n as f64), || format!("{s:?} reads as {:?}", n.as_number()))?;
                want(n.as_float().is_err(), || format!("{s:?} is a float"))?;
            }
            V::Float(s) => {
                let x = s.parse::<f64>().ok();
                want(n.as_float().ok() == x, || format!("{s:?} reads as {:?}", n.as_float()))?;
                want(n.as_number().ok() == x, || format!("{s:?} reads as {:?}", n.as_number()))?;
                want(n.as_int().is_err(), || format!("{s:?} is an integer"))?;
            }
            _ => {}
        }
        Ok(true)
    }
    fn rule(&self) -> &'static str {
        "every token of up to 3 characters out of 19 in 29 places, then random numbers and near misses in a random place; counted: numbers"
    }
}

// ---------------------------------------------------------------- C06

pub struct C06;
const QC: &[char] = &['a', 'n', 't', '\\', '"', '\'', ' ', '#', ':', ',', '[', ']', '{', '}', '-', '1', 'é', '\u{1f600}', '&', '!', '/', '0', 'r', 'b', 'f', '\t', '|', '%'];
fn dq_decode(s: &str) -> Option<String> {
    // the content of a double-quoted scalar, up to an unescaped quote
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return None,
            '\\' => o.push(match it.next()? {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                'b' => '\u{8}',
                'f' => '\u{c}',
                c => c,
            }),
            c => o.push(c),
        }
    }
    Some(o)
}
impl Prop for C06 {
    fn fixed(&self, n: u64) -> Option<String> {
        let set = &QC[..10];
        let b = set.len() as u64;
        let mut n = n;
        let np = PLACES.len() as u64;
        for len in 0..4u32 {
            let m = b.pow(len) * np * 2;
            if n < m {
                let p = n % np;
                n /= np;
                let mut s = String::from((0x30 + p as u8) as char);
                s.push(if n % 2 == 0 { '"' } else { '\'' });
                n /= 2;
                for _ in 0..len {
                    s.push(set[(n % b) as usize]);
                    n /= b;
                }
                return Some(s);
            }
            n -= m;
        }
        None
    }
    fn make(&self, r: &mut Rng) -> String {
        let mut s = String::from((0x30 + r.below(PLACES.len()) as u8) as char);
        s.push(*r.pick(&['"', '\'']));
        let n = *r.pick(&[4, 10, 30]);
        s.extend((0..r.range(0, n)).map(|_| *r.pick(QC)));
        s
    }
    fn judge(&self, case: &str) -> Result<bool, String> {
        let mut it = case.chars();
        let Some(p) = it.next() else { return Ok(false) };
        let p = &PLACES[(p as usize).wrapping_sub(0x30) % PLACES.len()];
        let q = it.next();
        let t = it.as_str();
        if t.contains(['\n', '\r']) {
            return Ok(false);
        }
        match q {
            Some('"') => {
                // unescaped text, written with escapes
                let w: String = t.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect();
                placed(p, &format!("\"{w}\""), &V::Str(t.into()))?;
                if let Some(v) = dq_decode(t) {
                    placed(p, &format!("\"{t}\""), &V::Str(v.clone()))?;
                    let e = Parser::escape(t);
                    want(e == v, || format!("escape({t:?}) is {e:?}"))?;
                    for u in [format!("\"{t}"), format!("- \"{t}"), format!("k: \"{t}\n"), format!("[\"{t}"), format!("\"{t}\\\"")] {
                        want(!accepts(&u), || format!("accepted without the closing quote: {u:?}"))?;
                    }
                } else if !t.is_empty() {
                    // ends with an escaped quote, or has an unescaped one
                    let u = format!("\"{t}");
                    if t.ends_with('\\') && dq_decode(&t[..t.len() - 1]).is_some() {
                        let u = format!("{u}\"");
                        want(!accepts(&u), || format!("accepted with an escaped quote at its end: {u:?}"))?;
                    }
                }
            }
            Some('\'') => {
                let w = t.replace('\'', "''");
                placed(p, &format!("'{w}'"), &V::Str(t.into()))?;
                for u in [format!("'{w}"), format!("- '{w}"), format!("k: '{w}\n"), format!("{{'{w}")] {
                    want(!accepts(&u), || format!("accepted without the closing quote: {u:?}"))?;
                }
            }
            _ => return Ok(false),
        }
        Ok(!t.is_empty())
    }
    fn rule(&self) -> &'static str {
        "every quoted text of up to 3 characters out of 10 in 29 places, then random ones, without closing quote too; counted: not empty"
    }
}

// ---------------------------------------------------------------- C07

pub struct C07;
const PC: &[char] = &['a', 'b', 'z', 'A', '1', '0', ' ', ':', '#', '-', ',', '[', ']', '{', '}', '?', '!', '&', '*', '|', '>', '%', '@', '`', '"', '\'', '.', '~', '=', '/', '\\', 'é', '\u{1f600}', '_', '(', ';', '<', '^', '$', '+'];
const WORDS: &[&str] = &[
    "null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE", ".nan", ".NaN", ".NAN", ".inf", ".Inf", ".INF", "-.inf", "-.Inf", "-.INF", "nULL", "tRUE", "fALSE", "nan", "inf", ".Nan", ".iNF", "-.nan", "+.inf", "yes", "no", "on", "off", "y", "n", "nil", "none", "undefined", "~~", "nulls", "truee", "true false", "null x", "-inf", "NaN", ".", "..", "a.b", "TruE", "infinity",
];
/// Is a text, in one line, a plain scalar as a whole?
pub fn plain_text(t: &str, flow: bool) -> bool {
    let c: Vec<char> = t.chars().collect();
    let Some(&f) = c.first() else { return false };
    if t.trim_matches([' ', '\t']) != t || t.contains(['\n', '\r', '\t']) {
        return false;
    }
    if "-?:,[]{}#&*!|>'\"%@`".contains(f) {
        // an indicator in front is only fine if it is no indicator there
        return false;
    }
    for i in 0..c.len() {
        let next = c.get(i + 1);
        if c[i] == ':' && (next.is_none() || next == Some(&' ')) {
            return false;
        }
        if c[i] == ':' && flow && next.map_or(true, |n| ",[]{}".contains(*n)) {
            return false;
        }
        if c[i] == '#' && c[i - 1] == ' ' {
            return false;
        }
        if flow && ",[]{}".contains(c[i]) {
            return false;
        }
    }
    // numbers have their own property; what looks like one and goes on
    // behind a boundary is left out
    let d = t.trim_start_matches('-');
    !d.starts_with(|c: char| c.is_ascii_digit()) && !t.starts_with("...") && !t.starts_with("---")
}
impl Prop for C07 {
    fn fixed(&self, n: u64) -> Option<String> {
        let np = PLACES.len() as u64;
        let p = (0x30 + (n % np) as u8) as char;
        let mut n = n / np;
        if (n as usize) < WORDS.len() {
            return Some(format!("{p}{}", WORDS[n as usize]));
        }
        n -= WORDS.len() as u64;
        let b = PC.len() as u64;
        for len in 1..4u32 {
            let m = b.pow(len);
            if n < m {
                let mut s = String::from(p);
                for _ in 0..len {
                    s.push(PC[(n % b) as usize]);
                    n /= b;
                }
                return Some(s);
            }
            n -= m;
        }
        None
    }
    fn make(&self, r: &mut Rng) -> String {
        let mut s = String::from((0x30 + r.below(PLACES.len()) as u8) as char);
        match r.below(4) {
            0 => {
                // a keyword, with another case or with more text
                let w = *r.pick(WORDS);
                let w: String = w.chars().map(|c| if r.chance(1, 6) { if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } else { c }).collect();
                s += &w;
                if r.chance(1, 3) {
                    s.extend((0..r.range(1, 3)).map(|_| *r.pick(PC)));
                }
            }
            _ => {
                let n = *r.pick(&[3, 8, 20]);
                s.extend((0..r.range(1, n)).map(|_| *r.pick(PC)));
            }
        }
        s
    }
    fn judge(&self, case: &str) -> Result<bool, String> {
        let mut it = case.chars();
        let Some(p) = it.next() else { return Ok(false) };
        let p = &PLACES[(p as usize).wrapping_sub(0x30) % PLACES.len()];
        let t = it.as_str();
        let kw = WORDS.contains(&t);
        if !plain_text(t, p.flow) && !(kw && !t.starts_with("---")) {
            return Ok(false);
        }
        placed(p, t, &word(t))?;
        if !t.contains(['\\', '"']) {
            placed(p, &format!("\"{t}\""), &V::Str(t.into()))?;
        }
        if !t.contains('\'') {
            placed(p, &format!("'{t}'"), &V::Str(t.into()))?;
        }
        Ok(true)
    }
    fn rule(&self) -> &'static str {
        "the keywords and their near misses and every text of up to 3 characters out of 40 in 29 places, plain and quoted, then random ones; counted: plain texts"
    }
}
fn word(t: &str) -> V {
    match t {
        "null" | "Null" | "NULL" | "~" => V::Null,
        "true" | "True" | "TRUE" => V::Bool(true),
        "false" | "False" | "FALSE" => V::Bool(false),
        ".nan" | ".NaN" | ".NAN" => V::Float("NaN".into()),
        ".inf" | ".Inf" | ".INF" => V::Float("inf".into()),
        "-.inf" | "-.Inf" | "-.INF" => V::Float("-inf".into()),
        _ => V::Str(t.into()),
    }
}

// ---------------------------------------------------------------- C12

pub struct C12;
pub fn location(doc: &[u8], pos: usize) -> String {
    let line = doc[..pos].iter().filter(|c| **c == b'\n').count();
    let start = doc[..pos].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    let end = doc[pos..].iter().position(|c| *c == b'\n').map_or(doc.len(), |i| i + pos);
    let col = pos - start;
    format!("{}:{}\n{}\n{}^", line + 1, col + 1, String::from_utf8_lossy(&doc[start..end]), " ".repeat(col))
}
impl Prop for C12 {
    fn fixed(&self, n: u64) -> Option<String> {
        let set = ['a', '\n', 'é', '\r'];
        let mut n = n;
        for len in 0..6u32 {
            let m = 4u64.pow(len);
            if n < m {
                let mut s = String::new();
                for _ in 0..len {
                    s.push(set[(n % 4) as usize]);
                    n /= 4;
                }
                return Some(s);
            }
            n -= m;
        }
        None
    }
    fn make(&self, r: &mut Rng) -> String {
        if r.chance(1, 2) {
            let n = *r.pick(&[10, 60]);
            (0..r.range(0, n)).map(|_| *r.pick(&['a', 'b', ' ', '\n', '\n', 'é', '\r', '\t'])).collect()
        } else {
            C01.make(r)
        }
    }
    fn judge(&self, t: &str) -> Result<bool, String> {
        let d = t.as_bytes();
        for p in 0..=d.len() {
            let w = location(d, p);
            let g = indicated_msg(d, p as u64);
            want(g == w, || format!("{g:?} instead of {w:?} for {t:?} at {p}"))?;
            let f = indicated_msg_file("a/é.yaml", d, p as u64);
            want(f == format!("a/é.yaml:{w}"), || format!("{f:?} for {t:?} at {p}"))?;
        }
        for e in [parse::<RcRepr>(t).err(), parse_cyclic::<RcRepr>(t).err()].into_iter().flatten() {
            let s = e.to_string();
            if s == "not matched" {
                continue;
            }
            let ok = (0..=d.len()).any(|p| s.ends_with(&format!("\n\n{}", location(d, p))));
            want(ok, || format!("the message of {t:?} names no place: {s:?}"))?;
        }
        Ok(t.contains('\n') && t.len() > 3)
    }
    fn rule(&self) -> &'static str {
        "every text of up to 5 characters out of 4, then random texts, at every offset, and the message of every refused one; counted: texts with a line break, longer than 3 bytes"
    }
}

// ---------------------------------------------------------------- C08

pub struct C08;
impl Prop for C08 {
    fn make(&self, r: &mut Rng) -> String {
        let n = *r.pick(&[8, 20, 40]);
        choices(r, n)
    }
    fn judge(&self, case: &str) -> Result<bool, String> {
        let mut ch = Ch::new(case);
        // where it stands: the text before, its indentation, what follows
        let (pre, ind, post) = ch.of(&[
            ("k: ", 2, "b: 2\n"),
            ("- ", 2, "- x\n"),
            ("k:\n  j: ", 4, "  m: 1\n"),
            ("k:\n    - ", 6, "    - y\n"),
            ("- \n  - ", 4, "  - z\n"),
            ("k: &a ", 2, "b: 2\n"),
            ("k: !t ", 2, "b: 2\n"),
            ("x:\n    y:\n      z: 1\nk: ", 2, "b: 2\n"),
            ("k:\n      j:\n       m: ", 9, "      b: 2\n"),
        ]);
        let fold = ch.pick(2) == 1;
        let chomp = ch.of(&["", "-", "+"]);
        let tail = ch.pick(5);
        let blank = |ch: &mut Ch, out: &mut String| {
            for _ in 0..ch.of(&[0, 0, 0, 1, ind - 1, ind / 2]) {
                out.push(' ');
            }
            out.push('\n');
        };
        let lines = ["a", "b c", "# e", "k: v", "- f", "é \u{1f600}", "x", "  d", " g  h", "[", "'", "\"", "---", "|", "&a", "}", "a  b", "..", "0x1", "%Y"];
        let mut t = String::new();
        let mut v = String::new();
        let n = 1 + ch.pick(4);
        for i in 0..n {
            let mut b = 0;
            while b < 3 && ch.one_in(4) {
                blank(&mut ch, &mut t);
                b += 1;
            }
            let mut l = ch.of(&lines);
            if fold {
                l = l.trim_start();
            }
            if i > 0 && fold {
                // the break of the line before
                v += if b > 0 { "" } else { " " };
            } else if i > 0 {
                v += "\n";
            }
            for _ in 0..b {
                v += "\n";
            }
            t += &" ".repeat(ind);
            t += l;
            v += l;
            if (i + 1 == n || !fold) && ch.one_in(4) {
                // white space at the end of the line: of the last one, it is
                // left out with the line breaks
                let w = ch.of(&[" ", "\t", " \t", "\u{a0}", "\u{3000} ", "\u{b}", "\t\t"]);
                t += w;
                if i + 1 < n || chomp == "+" {
                    v += w;
                }
            }
            if i + 1 < n || tail != 1 {
                t += "\n";
            }
        }
        let mut b = 0;
        while tail != 1 && b < 3 && ch.one_in(4) {
            blank(&mut ch, &mut t);
            b += 1;
        }
        match chomp {
            "-" => {}
            "" => v += "\n",
            _ => {
                if tail == 1 {
                    // at the end of the text without a line break: none to keep
                    return Ok(false);
                }
                for _ in 0..=b {
                    v += "\n";
                }
            }
        }
        let c = "";
        let post = match tail {
            0 | 1 => "",
            2 => "---\nx\n",
            3 => "...\n",
            _ => post,
        };
        let t = format!("{pre}{}{chomp}{c}\n{t}{post}", if fold { ">" } else { "|" });
        let ns = parse::<RcRepr>(&t).map_err(|e| format!("{t:?} is refused: {e}"))?;
        want(ns.len() == if tail == 2 { 2 } else { 1 }, || format!("{} documents in {t:?}", ns.len()))?;
        let s = find(&ns[0], if pre.starts_with('x') { 1 } else { 0 }).ok_or_else(|| format!("no string in {t:?}: {:?}", ns[0]))?;
        want(s == v, || format!("{s:?} instead of {v:?} in {t:?}"))?;
        let m = parse::<RcRepr>(&t.replace('\n', "\r\n")).map_err(|e| format!("{t:?} with CRLF is refused: {e}"))?;
        let _ = m;
        Ok(n > 1)
    }
    fn rule(&self) -> &'static str {
        "random literal and folded scalars with every chomping indicator in 9 places, written from their lines; counted: more than one line"
    }
}
fn find(n: &NodeRc, i: usize) -> Option<String> {
    match n.yaml() {
        Yaml::Map(m) => m.iter().nth(i).and_then(|x| find(x.1, 0)),
        Yaml::Seq(v) => v.first().and_then(|n| find(n, 0)),
        Yaml::Str(s) => Some(s.clone()),
        _ => None,
    }
}
