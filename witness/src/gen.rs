//! Documents built from a list of choices, together with what they mean.
//!
//! A case is a string of choices, so that every sub-list is again a case.
use std::str::Chars;
use yaml_peg::{Node, NodeRc, Yaml};

/// A list of choices; the first option is taken when it is used up.
pub struct Ch<'a>(pub Chars<'a>);
impl<'a> Ch<'a> {
    pub fn new(s: &'a str) -> Self {
        Ch(s.chars())
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.0.next().map_or(0, |c| (c as usize).wrapping_sub(0x30) % n)
    }
    /// Rarely true: one in `n`.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.pick(n) == n - 1
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.pick(v.len())]
    }
    /// One of the texts, rarely another one, which may be long.
    pub fn text(&mut self, v: &[&str]) -> String {
        let i = self.pick(v.len() + 2);
        if i < v.len() {
            return v[i].into();
        }
        let n = match self.pick(4) {
            0 => [17, 33, 65, 130, 260][self.pick(5)] + self.pick(9),
            _ => 1 + self.pick(7),
        };
        let a = b"wqkzabcxe0u1V7";
        let mut x = self.pick(70) + 7 * n;
        let mut s = String::from((b'g' + (x % 12) as u8) as char);
        for _ in 1..n {
            x = x * 31 + 11;
            s.push(a[x / 5 % a.len()] as char);
            x %= 100_003;
        }
        s
    }
    /// How many: less than `n`, rarely many.
    pub fn count(&mut self, n: usize) -> usize {
        let i = self.pick(n * 9);
        if i == n * 9 - 1 { n + self.pick(70) } else { i % n }
    }
    pub fn left(&self) -> bool {
        !self.0.as_str().is_empty()
    }
}
/// A random list of choices.
pub fn choices(r: &mut crate::rng::Rng, max: usize) -> String {
    let n = r.range(1, max);
    (0..n).map(|_| (0x30 + r.below(75) as u8) as char).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(String),
    Float(String),
    Str(String),
    Seq(Vec<E>),
    Map(Vec<(E, E)>),
    /// The name and what it stands for.
    Alias(String, Box<E>),
}
/// An expected node: its position is in `lo..=hi`.
#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub v: V,
    pub tag: String,
    pub lo: usize,
    pub hi: usize,
}

pub const CORE: &str = "tag:yaml.org,2002:";
pub fn core_tag(v: &V) -> String {
    let n = match v {
        V::Null => "null",
        V::Bool(_) => "bool",
        V::Int(_) => "int",
        V::Float(_) => "float",
        V::Str(_) => "str",
        V::Seq(_) => "seq",
        V::Map(_) => "map",
        V::Alias(..) => return String::new(),
    };
    format!("{CORE}{n}")
}

/// What is compared.
#[derive(Clone, Copy, Default)]
pub struct Cmp {
    pub pos: bool,
    pub tag: bool,
    /// Aliases are kept.
    pub keep: bool,
}

/// Compares a node with what it should be.
pub fn same(n: &NodeRc, e: &E, c: Cmp) -> Result<(), String> {
    let v = match &e.v {
        V::Alias(a, t) => {
            if c.keep {
                return match n.yaml() {
                    Yaml::Alias(x) if x == a => here(n, e, c),
                    x => Err(format!("alias {a} is {x:?}")),
                };
            }
            let mut t = &t.v;
            while let V::Alias(_, u) = t {
                t = &u.v;
            }
            t
        }
        v => v,
    };
    match (v, n.yaml()) {
        (V::Null, Yaml::Null) => {}
        (V::Bool(a), Yaml::Bool(b)) if a == b => {}
        (V::Int(a), Yaml::Int(b)) if a == b => {}
        (V::Float(a), Yaml::Float(b)) if a == b => {}
        (V::Str(a), Yaml::Str(b)) if a == b => {}
        (V::Seq(a), Yaml::Seq(b)) => {
            if a.len() != b.len() {
                return Err(format!("{} items instead of {}: {:?}", b.len(), a.len(), n));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                same(y, x, c).map_err(|s| format!("[{i}] {s}"))?;
            }
        }
        (V::Map(a), Yaml::Map(b)) => {
            let w = pairs(a, c.keep);
            let dup = w.len() != a.len();
            if w.len() != b.len() {
                return Err(format!("{} pairs instead of {}: {:?}", b.len(), w.len(), n));
            }
            let kc = Cmp { pos: c.pos && !dup, tag: c.tag && !dup, ..c };
            for (i, (x, y)) in w.iter().zip(b.iter()).enumerate() {
                same(y.0, &x.0, kc).map_err(|s| format!("key {i}: {s}"))?;
                same(y.1, &x.1, c).map_err(|s| format!("value {i}: {s}"))?;
            }
        }
        (v, y) => return Err(format!("{y:?} instead of {v:?}")),
    }
    here(n, e, c)
}
fn here(n: &NodeRc, e: &E, c: Cmp) -> Result<(), String> {
    if c.pos && !(e.lo as u64 <= n.pos() && n.pos() <= e.hi as u64) {
        return Err(format!("position {} instead of {}..={} of {:?}", n.pos(), e.lo, e.hi, e.v));
    }
    if c.tag {
        let mut v = &e.v;
        while let V::Alias(_, t) = v {
            if c.keep {
                break;
            }
            v = &t.v;
        }
        let t = if e.tag.is_empty() { core_tag(v) } else { e.tag.clone() };
        if n.tag() != t {
            return Err(format!("tag {:?} instead of {t:?}", n.tag()));
        }
    }
    Ok(())
}
/// A later pair replaces an earlier one with an equal key.
fn pairs(a: &[(E, E)], keep: bool) -> Vec<&(E, E)> {
    let mut w: Vec<&(E, E)> = vec![];
    for p in a {
        w.retain(|q| !eq(&q.0, &p.0, keep));
        w.push(p);
    }
    w
}
/// Equality by value.
pub fn eq(a: &E, b: &E, keep: bool) -> bool {
    fn d(mut v: &V, keep: bool) -> &V {
        if keep {
            return v;
        }
        while let V::Alias(_, t) = v {
            v = &t.v;
        }
        v
    }
    match (d(&a.v, keep), d(&b.v, keep)) {
        (V::Alias(a, _), V::Alias(b, _)) => a == b,
        (V::Seq(a), V::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y, keep)),
        (V::Map(a), V::Map(b)) => {
            let (a, b) = (pairs(a, keep), pairs(b, keep));
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(&x.0, &y.0, keep) && eq(&x.1, &y.1, keep))
        }
        (V::Int(a), V::Int(b)) => crate::num::same_int(a, b),
        (V::Float(a), V::Float(b)) => crate::num::same_float(a, b),
        (x, y) => x == y,
    }
}

/// Which features a document uses.
#[derive(Clone, Copy, Default)]
pub struct F {
    pub anchors: bool,
    pub tags: bool,
    pub cmt: bool,
    pub flow: bool,
    pub block: bool,
    pub scalars: bool,
    pub multi: bool,
    pub complex: bool,
    pub lit: bool,
    pub depth: usize,
}

pub struct W<'a> {
    pub ch: Ch<'a>,
    pub f: F,
    pub out: String,
    /// Anchors of the current document.
    pub defs: Vec<(String, E)>,
    /// Declared handles.
    pub handles: Vec<(String, String)>,
    n: usize,
    /// How a line ends; empty: no line breaks inside flow collections.
    line: &'static str,
}

const WORDS: &[&str] = &["a", "b", "k", "é", "x-y", "foo", "Z9", "a.b", "nil", "yes", "b2", "日本", "w_1", "under/score", "q=1", "10%",
    "<<", "=", "on", "No", "Yes", "off", "y", "N", "nan", "inf", "NaN", "Infinity", "none", "None", "undefined", "nUll", "tRUE", "TRue",
    "merge", "..", "<", "$x", "(a)", "+", "/", "^", "a\\b", "\\", "0x", "0o8"];
const KEYW: &[&str] = &["null", "~", "true", "False", ".nan", "-.INF", "Null", "NULL", "TRUE", "True", "false", "FALSE", ".inf", ".NaN"];
const NUMS: &[&str] = &["1", "0", "-7", "42", "0x1F", "0o17", "1.5", "-0.25", "3.", "2e5", "1E-3", "4.0", "10", "123456789012345678901", "007", "2e+10", "+1", "1_000", "0b11", "1e", "2001-01-01", "0xG", "-0x1"];
const MULTI: &[&str] = &["two words", "a:b", "c#d", "x -y", "it's", "a\"b", "do or do not", "a & b", "u*v", "1 apple", "0xZ", "1.2.3"];

/// The value of a plain text.
pub fn plain(s: &str) -> V {
    match s {
        "~" | "null" | "Null" | "NULL" => V::Null,
        "true" | "True" | "TRUE" => V::Bool(true),
        "false" | "False" | "FALSE" => V::Bool(false),
        ".nan" | ".NaN" | ".NAN" => V::Float("NaN".into()),
        ".inf" | ".Inf" | ".INF" => V::Float("inf".into()),
        "-.inf" | "-.Inf" | "-.INF" => V::Float("-inf".into()),
        _ => match crate::num::number(s) {
            Some(v) => v,
            None => V::Str(s.into()),
        },
    }
}

impl<'a> W<'a> {
    pub fn new(case: &'a str, f: F) -> Self {
        W { ch: Ch::new(case), f, out: String::new(), defs: vec![], handles: vec![], n: 0, line: "\n" }
    }
    fn blanks(&mut self) -> String {
        let s = ["", "", " ", "", "\t", "  "];
        let s = self.ch.of(&s);
        if self.f.cmt { s.into() } else { String::new() }
    }
    /// The end of a line, with blank lines and comments.
    fn eol(&mut self, tight: bool) {
        if !self.f.cmt || tight {
            self.nl();
            return;
        }
        match self.ch.pick(8) {
            0 | 1 | 2 => {}
            3 => self.out += " ",
            4 => self.out += " # note",
            5 => self.out += "  #",
            6 => self.out += "  ",
            _ => self.out += " # é: [x",
        }
        self.nl();
        for _ in 0..[0, 0, 0, 0, 1, 2][self.ch.pick(6)] {
            match self.ch.pick(5) {
                0 => {}
                1 => self.out += "  ",
                2 => self.out += "# c",
                3 => self.out += "    # - d",
                _ => self.out += " ",
            }
            self.nl();
        }
    }
    fn nl(&mut self) {
        self.out += self.line;
    }
    /// Anchor and tag, `sp`: something follows on the line.
    fn props(&mut self) -> (Option<String>, String, String) {
        let mut s = String::new();
        let mut anchor = None;
        let mut tag = String::new();
        let a = self.f.anchors && self.ch.one_in(3);
        let t = self.f.tags && self.ch.one_in(3);
        let first = self.ch.pick(2) == 0;
        if a && first {
            let n = self.anchor_name();
            s += &format!("&{n} ");
            anchor = Some(n);
        }
        if t {
            let (w, v) = self.tag();
            s += &format!("{w} ");
            tag = v;
        }
        if a && !first {
            let n = self.anchor_name();
            s += &format!("&{n} ");
            anchor = Some(n);
        }
        (anchor, tag, s)
    }
    fn anchor_name(&mut self) -> String {
        self.n += 1;
        let b = self.ch.text(&["a", "A1-", "b-b", "x", "9z"]);
        format!("{b}{}", self.n)
    }
    pub fn tag(&mut self) -> (String, String) {
        let n = self.ch.text(&["t", "foo", "x-1", "int", "A9", "str", "float", "null", "bool", "seq", "map", "binary", "set", "merge"]);
        let pre = |h: &str, w: &Self| w.handles.iter().rev().find(|x| x.0 == h).map(|x| x.1.clone());
        match self.ch.pick(5) {
            0 => (format!("!{n}"), n),
            1 => (format!("!!{n}"), format!("{}{n}", pre("!!", self).unwrap_or(CORE.into()))),
            2 => {
                let s = self.ch.text(&["tag:a.b,2000:x", "q", "!y", "a#b/c", "é:z"]);
                (format!("!<{s}>"), s)
            }
            _ => {
                let hs: Vec<String> = self.handles.iter().map(|x| x.0.clone()).filter(|h| h.len() > 2).collect();
                if hs.is_empty() {
                    (format!("!{n}"), n)
                } else {
                    let h = hs[self.ch.pick(hs.len())].clone();
                    let p = pre(&h, self).unwrap();
                    (format!("{h}{n}"), format!("{p}{n}"))
                }
            }
        }
    }
    fn done(&mut self, anchor: Option<String>, e: E) -> E {
        if let Some(a) = anchor {
            self.defs.push((a, e.clone()));
        }
        e
    }
    fn quoted(&mut self) -> (String, String) {
        let body = ["", "a", "two words", "k: v", "# no", "[x]", "{y", "-", "é", "null", "12", "a, b", "*z", "---", "&q", "true"];
        let b = self.ch.text(&body);
        match self.ch.pick(6) {
            0 | 1 => (format!("\"{b}\""), b),
            2 | 3 => (format!("'{b}'"), b),
            4 => (format!("\"{b}\\n\\\"\\\\\\t\""), format!("{b}\n\"\\\t")),
            _ => (format!("'{b}''s'"), format!("{b}'s")),
        }
    }
    /// A scalar on one line; `true`: a plain one.
    fn scalar(&mut self) -> (String, V, bool) {
        if !self.f.scalars {
            let w = self.ch.text(WORDS);
            return (w.clone(), V::Str(w), true);
        }
        match self.ch.pick(10) {
            0..=2 => {
                let w = self.ch.text(WORDS);
                (w.clone(), V::Str(w), true)
            }
            3 | 4 => {
                let w = self.ch.of(NUMS);
                (w.into(), plain(w), true)
            }
            5 => {
                let w = self.ch.of(KEYW);
                (w.into(), plain(w), true)
            }
            6 => {
                let w = self.ch.of(MULTI);
                (w.into(), V::Str(w.into()), true)
            }
            _ => {
                let (s, v) = self.quoted();
                (s, V::Str(v), false)
            }
        }
    }
    fn alias(&mut self) -> Option<(String, V)> {
        if !self.f.anchors || self.defs.is_empty() || !self.ch.one_in(3) {
            return None;
        }
        let i = self.ch.pick(self.defs.len().min(40));
        let (n, e) = self.defs[i].clone();
        Some((format!("*{n}"), V::Alias(n, Box::new(e))))
    }

    // ---- flow

    fn inv(&mut self) {
        let s = ["", "", "", " ", "\n", " \n  ", "\t"];
        let s = self.ch.of(&s);
        self.out += &s.replace('\n', self.line);
    }
    fn sp(&mut self) {
        let s = self.ch.of(&["", " ", "", "  "]);
        self.out += s;
    }
    /// A flow node; `true`: it ends with plain text.
    pub fn flow(&mut self, depth: usize, key: bool) -> (E, bool) {
        if let Some((s, v)) = self.alias() {
            let lo = self.out.len();
            self.out += &s;
            self.out += " ";
            return (E { v, tag: String::new(), lo, hi: lo }, false);
        }
        let (anchor, tag, p) = self.props();
        self.out += &p;
        let lo = self.out.len();
        let kind = if depth == 0 { 0 } else { self.ch.pick(if key { 8 } else { 6 }) };
        let (v, pl) = match kind {
            2 | 4 => (self.flow_seq(depth - 1), false),
            3 | 5 => (self.flow_map(depth - 1), false),
            _ => {
                let (s, v, pl) = self.scalar();
                if pl && (s.contains(|c| ",[]{}".contains(c)) || s.ends_with(':')) {
                    self.out += "w";
                    (V::Str("w".into()), true)
                } else {
                    self.out += &s;
                    (v, pl)
                }
            }
        };
        let e = E { v, tag, lo, hi: lo };
        (self.done(anchor, e), pl)
    }
    pub fn flow_seq(&mut self, depth: usize) -> V {
        self.out += "[";
        let n = self.ch.count(4);
        let mut v = vec![];
        for i in 0..n {
            self.inv();
            let (e, pl) = self.flow(depth, false);
            v.push(e);
            if pl { self.sp() } else { self.inv() }
            if i + 1 < n || self.ch.one_in(5) {
                self.out += ",";
            }
        }
        if n == 0 || self.out.ends_with(',') {
            self.inv();
        }
        self.out += "]";
        V::Seq(v)
    }
    pub fn flow_map(&mut self, depth: usize) -> V {
        self.out += "{";
        let n = self.ch.count(4);
        let mut v = vec![];
        for i in 0..n {
            self.inv();
            let (k, pl) = if self.f.complex && self.ch.one_in(6) {
                self.out += "? ";
                self.flow(depth, false)
            } else {
                self.flow(depth, true)
            };
            if pl { self.sp() } else { self.inv() }
            self.out += ":";
            let lo = self.out.len();
            let empty = self.ch.one_in(8);
            let (e, pl) = if empty {
                if pl { self.out += " " } else { self.sp() }
                let hi = self.out.len();
                (E { v: V::Null, tag: String::new(), lo, hi }, false)
            } else {
                // a plain key needs a blank behind `:`
                let s = if pl { self.ch.of(&[" ", "  ", " \n "]) } else { self.ch.of(&["", " ", "\n", "  \n"]) };
                // a plain key needs some white space
                let s = s.replace('\n', self.line);
                self.out += if pl && s.is_empty() { " " } else { &s };
                self.flow(depth, false)
            };
            v.push((k, e));
            if pl { self.sp() } else { self.inv() }
            let l = v.last_mut().unwrap();
            if empty {
                l.1.hi = self.out.len();
            }
            if i + 1 < n || self.ch.one_in(5) {
                self.out += ",";
            }
        }
        if n == 0 || self.out.ends_with(',') {
            self.inv();
        }
        self.out += "}";
        V::Map(v)
    }
    // ---- block

    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    /// A node behind `-`, `key:` or `---`; ends with a line break.
    ///
    /// `col`: column of the parent (`None` at the root), `seq`: it is an item.
    pub fn block(&mut self, depth: usize, col: Option<usize>, seq: bool, start: bool) -> E {
        // `start`: at the start of a line
        if let Some((s, v)) = self.alias() {
            if !start { self.out += " " }
            let lo = self.out.len();
            self.out += &s;
            self.eol(false);
            return E { v, tag: String::new(), lo, hi: lo };
        }
        let mut kind = self.ch.pick(10);
        if depth == 0 && matches!(kind, 3 | 4 | 6 | 7 | 8) {
            kind = 0;
        }
        if !self.f.flow && kind == 3 || !self.f.block && matches!(kind, 4 | 6 | 7 | 8) {
            kind = 0;
        }
        if kind == 5 && (!self.f.lit || col.is_none()) || kind == 9 && col.is_none() {
            kind = 0;
        }
        if kind == 2 && start {
            kind = 0;
        }
        let (anchor, tag, p) = self.props();
        if !start && !p.is_empty() {
            self.out += " ";
        }
        let plen = p.len();
        match kind {
            2 => {
                // nothing
                self.out += p.trim_end();
                let lo = self.out.len();
                self.eol(false);
                let hi = self.out.len();
                let e = E { v: V::Null, tag, lo, hi };
                self.done(anchor, e)
            }
            3 => {
                self.out += &p;
                if plen == 0 && !start { self.out += " " }
                let lo = self.out.len();
                let v = if self.ch.pick(2) == 0 { self.flow_seq(depth - 1) } else { self.flow_map(depth - 1) };
                self.eol(false);
                let e = E { v, tag, lo, hi: lo };
                self.done(anchor, e)
            }
            4 | 6 | 7 | 8 => {
                let is_map = matches!(kind, 6 | 7);
                let compact = seq && plen == 0 && self.ch.pick(2) == 0;
                let (lo, c);
                if compact {
                    self.out += " ";
                    lo = self.out.len();
                    c = col.unwrap() + 2;
                } else {
                    self.out += p.trim_end();
                    lo = self.out.len();
                    if !(start && plen == 0) {
                        self.eol(false);
                    }
                    c = match col {
                        None => 0,
                        Some(c) if seq => c + 2,
                        Some(c) if is_map => c + 1 + self.ch.pick(4),
                        Some(c) => c + self.ch.pick(4),
                    };
                    self.pad(c);
                }
                let hi = self.out.len();
                let v = if is_map { self.block_map(depth - 1, c) } else { self.block_seq(depth - 1, c) };
                let e = E { v, tag, lo, hi };
                self.done(anchor, e)
            }
            5 => {
                self.out += &p;
                if plen == 0 && !start { self.out += " " }
                let lo = self.out.len();
                let c = col.unwrap();
                // the width of an unknown level is 2
                let v = self.literal(c + 2);
                let e = E { v: V::Str(v), tag, lo, hi: lo };
                self.done(anchor, e)
            }
            9 if plen == 0 => {
                // a scalar on the next line
                let lo = self.out.len();
                self.eol(false);
                let c = col.unwrap() + 2;
                self.pad(c);
                let hi = self.out.len();
                let (s, v) = self.quoted();
                self.out += &s;
                self.eol(false);
                let e = E { v: V::Str(v), tag, lo, hi };
                self.done(anchor, e)
            }
            _ => {
                self.out += &p;
                if plen == 0 && !start { self.out += " " }
                let lo = self.out.len();
                let (s, v, _) = self.scalar();
                self.out += &s;
                self.eol(false);
                let e = E { v, tag, lo, hi: lo };
                self.done(anchor, e)
            }
        }
    }
    fn block_seq(&mut self, depth: usize, c: usize) -> V {
        let n = 1 + self.ch.count(3);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.pad(c);
            }
            self.out += "-";
            v.push(self.block(depth, Some(c), true, false));
        }
        V::Seq(v)
    }
    fn block_map(&mut self, depth: usize, c: usize) -> V {
        let n = 1 + self.ch.count(3);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.pad(c);
            }
            let k = if self.f.complex && self.ch.one_in(6) {
                self.out += "?";
                let k = self.block(depth, Some(c), false, false);
                self.pad(c);
                k
            } else {
                let (anchor, tag, p) = if i > 0 { self.props() } else { (None, String::new(), String::new()) };
                self.out += &p;
                let lo = self.out.len();
                let alias = if i > 0 && p.is_empty() { self.alias() } else { None };
                let flow = alias.is_none() && depth > 0 && self.f.flow && self.f.complex && p.is_empty() && i > 0 && self.ch.one_in(12);
                let (s, kv, pl) = if let Some((s, v)) = alias {
                    (s + " ", v, false)
                } else if flow {
                    let nl = std::mem::take(&mut self.line);
                    let v = if self.ch.pick(2) == 0 { self.flow_seq(depth - 1) } else { self.flow_map(depth - 1) };
                    self.line = nl;
                    (String::new(), v, false)
                } else {
                    self.scalar()
                };
                self.out += &s;
                if pl && self.ch.one_in(6) {
                    self.out += " ";
                }
                let e = E { v: kv, tag, lo, hi: lo };
                self.done(anchor, e)
            };
            self.out += ":";
            let e = self.block(depth, Some(c), false, false);
            v.push((k, e));
        }
        V::Map(v)
    }
    /// A literal block scalar, indented by `c`.
    fn literal(&mut self, c: usize) -> String {
        let lines = ["a", "b c", "  d", "# e", "k: v", "- f", "é", "x"];
        let chomp = self.ch.of(&["", "-", "+"]);
        self.out += "|";
        self.out += chomp;
        self.nl();
        let n = 1 + self.ch.pick(3);
        let mut v = String::new();
        for i in 0..n {
            if i > 0 && self.ch.one_in(4) {
                self.nl();
                v += "\n";
            }
            let l = self.ch.of(&lines);
            self.pad(c);
            self.out += l;
            self.nl();
            v += l;
            v += "\n";
        }
        if chomp == "-" {
            v.pop();
        }
        v
    }
}
/// A stream: its text and for each document the node and the anchors.
pub struct Stream {
    pub text: String,
    pub docs: Vec<(E, Vec<(String, E)>)>,
}

pub fn stream(case: &str, f: F) -> Stream {
    let mut w = W::new(case, f);
    if w.ch.one_in(6) {
        w.line = ["\r\n", "\r\n", "\r"][w.ch.pick(3)];
    }
    let depth = if w.ch.one_in(12) { 3 * f.depth } else { f.depth };
    let mut docs = vec![];
    if f.tags {
        for _ in 0..w.ch.pick(4) {
            let h = { let h = w.ch.text(&["e", "foo", "", "x1-"]); format!("!{h}!") };
            let p = w.ch.text(&["tag:x,1:", "!p-", "http://q/", "z"]);
            w.out += &format!("%TAG {h} {p}{}", w.line);
            w.handles.push((h, p));
        }
    }
    if f.multi && w.ch.one_in(5) {
        w.out += w.ch.of(&["%YAML 1.2", "%YAML 1.1", "%YAML \t1.2", "%YAML   1.1"]);
        w.eol(false);
    }
    while (f.multi || f.tags) && w.ch.one_in(6) {
        w.out += w.ch.of(&["%FOO bar", "%FOO", "%", "% x", "%yaml 3", "%Y", "%FOO 'x", "%TA", "%é {[", "%FOO\tbar #", "%%YAML 1.0"]);
        w.nl();
    }
    let directives = !w.out.is_empty();
    if f.cmt && w.ch.one_in(4) {
        w.out += "# start";
        w.nl();
        w.nl();
    }
    let n = if f.multi { 1 + w.ch.count(4) } else { 1 };
    for i in 0..n {
        let mut start = true;
        if i > 0 || directives || w.ch.one_in(3) {
            w.out += "---";
            start = false;
            if w.ch.one_in(3) {
                w.eol(false);
                start = true;
            }
        }
        w.defs.clear();
        let e = w.block(depth, None, false, start);
        docs.push((e, w.defs.clone()));
        if f.multi && w.ch.one_in(4) {
            w.out += "...";
            w.nl();
        }
    }
    Stream { text: w.out, docs }
}

/// Parses, and compares the documents.
pub fn check(s: &Stream, c: Cmp) -> Result<(), String> {
    let at = |e: String| format!("{e} in {:?}", s.text);
    let (nodes, anchors): (Vec<NodeRc>, Vec<_>) = if c.keep {
        let (n, a) = yaml_peg::parse_cyclic(&s.text).map_err(|e| at(format!("rejected: {e:?}")))?;
        (n, a)
    } else {
        (yaml_peg::parse(&s.text).map_err(|e| at(format!("rejected: {e:?}")))?, vec![])
    };
    if nodes.len() != s.docs.len() {
        return Err(at(format!("{} documents instead of {}", nodes.len(), s.docs.len())));
    }
    for (i, (n, (e, _))) in nodes.iter().zip(&s.docs).enumerate() {
        same(n, e, c).map_err(|m| at(format!("document {i}: {m}")))?;
    }
    if c.keep {
        if anchors.len() != s.docs.len() {
            return Err(at(format!("{} anchor tables", anchors.len())));
        }
        for (a, (_, d)) in anchors.iter().zip(&s.docs) {
            let names: std::collections::BTreeSet<&String> = d.iter().map(|x| &x.0).collect();
            if a.keys().collect::<std::collections::BTreeSet<_>>() != names {
                return Err(at(format!("anchors {:?} instead of {names:?}", a.keys())));
            }
            for (k, e) in d {
                same(&a[k], e, c).map_err(|m| at(format!("anchor {k}: {m}")))?;
            }
        }
    }
    Ok(())
}

/// No alias anywhere.
pub fn no_alias(n: &NodeRc) -> bool {
    match n.yaml() {
        Yaml::Alias(_) => false,
        Yaml::Seq(v) => v.iter().all(no_alias),
        Yaml::Map(m) => m.iter().all(|(k, v)| no_alias(k) && no_alias(v)),
        _ => true,
    }
}
#[allow(dead_code)]
pub fn rc(y: Yaml<yaml_peg::repr::RcRepr>) -> NodeRc {
    Node::from(y)
}
