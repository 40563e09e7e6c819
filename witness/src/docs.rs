//! Properties which compare parsed documents with what was written.
use crate::gen::*;
use crate::rng::Rng;
use crate::Prop;
use yaml_peg::{parse, parse_cyclic, NodeRc};

fn feats(id: &str) -> F {
    let all = F { anchors: true, tags: true, cmt: true, flow: true, block: true, scalars: true, multi: true, complex: true, lit: true, depth: 4 };
    match id {
        "C09" => F { tags: false, cmt: false, ..all },
        "C10" => F { anchors: false, ..all },
        "C11" => all,
        "C13" => F { depth: 2, complex: false, ..all },
        "C14" => F { block: false, multi: false, anchors: false, tags: false, lit: false, cmt: false, ..all },
        "C15" => F { anchors: false, tags: false, multi: false, ..all },
        _ => all,
    }
}
pub fn accepts(t: &str) -> bool {
    parse::<yaml_peg::repr::RcRepr>(t).is_ok()
}
pub fn accepts_cyclic(t: &str) -> bool {
    parse_cyclic::<yaml_peg::repr::RcRepr>(t).is_ok()
}
fn refused(t: &str, why: &str) -> Result<(), String> {
    if accepts(t) {
        return Err(format!("accepted although {why}: {t:?}"));
    }
    Ok(())
}
fn refused2(t: &str, why: &str) -> Result<(), String> {
    refused(t, why)?;
    if accepts_cyclic(t) {
        return Err(format!("accepted (aliases kept) although {why}: {t:?}"));
    }
    Ok(())
}

pub struct Docs(pub &'static str);
impl Prop for Docs {
    fn make(&self, r: &mut Rng) -> String {
        let n = *r.pick(&[20, 60, 150]);
        choices(r, n)
    }
    fn judge(&self, case: &str) -> Result<bool, String> {
        let mut it = case.chars();
        let mode = it.next_back().map_or(0, |c| c as usize % 8);
        let case = it.as_str();
        if self.0 == "C14" && mode < 4 {
            return json(case);
        }
        let s = stream(case, feats(self.0));
        let c = Cmp { pos: self.0 == "C11", tag: self.0 == "C10", keep: false };
        check(&s, c)?;
        if matches!(self.0, "C09" | "C13" | "C11") {
            check(&s, Cmp { keep: true, ..c })?;
        }
        let t = &s.text;
        match (self.0, mode) {
            ("C09", 0) => {
                let t = format!("{t}---\n- *zz9\n");
                refused(&t, "an alias has no anchor")?;
                if !accepts_cyclic(&t) {
                    return Err(format!("a kept alias is refused: {t:?}"));
                }
            }
            ("C09", 1) => {
                for (_, d) in &s.docs {
                    for (n, _) in d {
                        refused(&format!("{t}---\n- *{n}\n"), "the anchor is in another document")?;
                    }
                }
            }
            ("C09", 2) => {
                let (a, b) = [("x", "y"), ("x", "x"), ("1", "01"), ("[]", "[]"), ("{a: b}", "{a: b}"), ("\"\"", "~")][case.len() % 6];
                refused2(&format!("{t}---\n- &d1 {a}\n- k: [&d1 {b}]\n"), "an anchor is defined twice")?;
                refused2(&format!("{t}---\n- &d1 {a}\n- &d1 {b}\n"), "an anchor is defined twice")?;
                if let Some((_, d)) = s.docs.last() {
                    if let (Some((n, _)), false) = (d.first(), t.trim_end().ends_with("...")) {
                        refused2(&format!("{t}---\n- &{n} {a}\n- [x, &{n} {b}]\n"), "an anchor is defined twice")?;
                    }
                }
                let u = format!("{t}---\n- &d1 x\n---\nk: &d1 y\n");
                if !accepts(&u) {
                    return Err(format!("an anchor of another document is refused: {u:?}"));
                }
            }
            ("C09", 3) => refused(&format!("{t}---\n&d1 [*d1]\n"), "the anchored node is not complete")?,
            ("C09", 4) => refused(&format!("{t}---\n- *d2\n- &d2 x\n"), "the anchor comes later")?,
            ("C09", _) => {
                let n: Vec<NodeRc> = parse(t).unwrap();
                if !n.iter().all(no_alias) {
                    return Err(format!("an alias is left in {t:?}"));
                }
            }
            ("C10", 0) => refused2(&format!("{t}---\n- !zz!a b\n"), "the handle is not declared")?,
            ("C10", 1) => {
                let v = ["1.0", "1.3", "2.0", "3", "x"][case.len() % 5];
                refused2(&format!("%YAML {v}\n---\n{}", "a\n"), "the version is wrong")?;
            }
            ("C10", 2) => {
                let v = ["1.1", "1.2"];
                let (a, b) = (v[case.len() % 2], v[case.len() / 2 % 2]);
                let m = ["", "%TAG !q! z\n", "%FOO x y\n"][case.len() / 4 % 3];
                refused2(&format!("%YAML {a}\n{m}%YAML {b}\n---\na\n"), "the version comes twice")?;
                let u = format!("{m}%YAML {a}\n%BAR\n---\na\n");
                if !accepts(&u) {
                    return Err(format!("refused: {u:?}"));
                }
            }
            ("C13", 0..=3) => {
                let j = ["foo\n", "- a\n", "k: v\n", "[a]\n", "...\n", "\"q\"\n", "# c\nx\n"][case.len() % 7];
                refused2(&format!("{t}...\n{j}"), "text follows the end of a document")?;
            }
            ("C14", _) => {
                let b = t.trim_end();
                if b.starts_with('[') || b.starts_with('{') {
                    for (i, _) in b.char_indices().skip(1) {
                        refused(&b[..i], "a bracket is not closed")?;
                    }
                }
            }
            _ => {}
        }
        Ok(s.text.len() > 8)
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            "C09" => "random documents with anchors and aliases, written from a tree and compared with it after parsing in both modes, with undefined, later, foreign and repeated anchors added; counted: longer than 8 bytes",
            "C10" => "random documents with tags and directives, written from a tree and compared with it after parsing, with undeclared handles and wrong versions added; counted: longer than 8 bytes",
            "C11" => "random documents written from a tree, the position of every node compared; counted: longer than 8 bytes",
            "C13" => "random streams written from trees and compared with them after parsing in both modes, with trailing text added; counted: longer than 8 bytes",
            "C14" => "random flow documents and JSON texts written from a tree and compared with it after parsing, with every truncation; counted: longer than 8 bytes",
            _ => "random block documents written from a tree and compared with it after parsing; counted: longer than 8 bytes",
        }
    }
}

/// A JSON text.
fn json(case: &str) -> Result<bool, String> {
    let mut w = J { ch: Ch::new(case), out: String::new() };
    let ws = w.ws();
    w.out += ws;
    let v = w.value(4);
    let ws = w.ws();
    w.out += ws;
    let at = |m: String| format!("{m} in {:?}", w.out);
    let n: Vec<NodeRc> = parse(&w.out).map_err(|e| at(format!("refused: {e:?}")))?;
    if n.len() != 1 {
        return Err(at("not one document".into()));
    }
    same(&n[0], &v, Cmp::default()).map_err(at)?;
    Ok(w.out.len() > 8)
}
struct J<'a> {
    ch: Ch<'a>,
    out: String,
}
impl J<'_> {
    fn ws(&mut self) -> &'static str {
        self.ch.of(&["", "", "", " ", "\n", "\r\n", "  ", "\n  ", "\t"])
    }
    fn put_ws(&mut self) {
        let s = self.ws();
        self.out += s;
    }
    fn string(&mut self) -> String {
        let n = self.ch.pick(6);
        let mut v = String::new();
        self.out += "\"";
        for _ in 0..n {
            let (a, b) = self.ch.of(&[
                ("a", "a"), ("x", "x"), (" b", " b"), ("\\\"", "\""), ("\\\\", "\\"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"),
                ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\/", "/"), ("/", "/"), ("é", "é"), ("日", "日"), ("[", "["), ("}", "}"), (",", ","),
                (":", ":"), ("'", "'"), ("#", "#"), ("n", "n"), ("t", "t"), ("-", "-"), ("&*!", "&*!"), ("𝄞", "𝄞"), ("|", "|"),
            ]);
            self.out += a;
            v += b;
        }
        self.out += "\"";
        v
    }
    fn value(&mut self, depth: usize) -> E {
        let k = if depth == 0 { self.ch.pick(4) } else { self.ch.pick(8) };
        let v = match k {
            0 | 1 => V::Str(self.string()),
            2 => {
                let s = self.ch.of(&["0", "1", "-1", "42", "1.5", "-0.5", "3e8", "12E-2", "1e+3", "9223372036854775807", "10.25"]);
                self.out += s;
                crate::num::number(s).unwrap()
            }
            3 => {
                let s = self.ch.of(&["true", "false", "null"]);
                self.out += s;
                plain(s)
            }
            4 | 5 => {
                let n = self.ch.pick(4);
                let mut v = vec![];
                self.out += "[";
                self.put_ws();
                for i in 0..n {
                    if i > 0 {
                        self.out += ",";
                        self.put_ws();
                    }
                    v.push(self.value(depth - 1));
                    self.put_ws();
                }
                self.out += "]";
                V::Seq(v)
            }
            _ => {
                let n = self.ch.pick(4);
                let mut m = vec![];
                self.out += "{";
                self.put_ws();
                for i in 0..n {
                    if i > 0 {
                        self.out += ",";
                        self.put_ws();
                    }
                    let k = E { v: V::Str(self.string()), tag: String::new(), lo: 0, hi: 0 };
                    self.put_ws();
                    self.out += ":";
                    self.put_ws();
                    let v = self.value(depth - 1);
                    m.push((k, v));
                    self.put_ws();
                }
                self.out += "}";
                V::Map(m)
            }
        };
        E { v, tag: String::new(), lo: 0, hi: 0 }
    }
}
