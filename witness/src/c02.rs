//! The matching primitives against their grammar.
use crate::{rng::Rng, Prop};
use yaml_peg::parser::{PError, Parser, TakeOpt};

pub struct C02;

/// A case: `pos eaten ops..` then a line feed and the text.
/// Ops are applied one after another on the same parser, each one checked.
const OPS: &[&str] = &[
    "sym:", "sym-", "symA", "set:{", "set_all", "seq---", "seqab", "seq''", "one_d", "more0_d", "more1_d", "more2_d",
    "range01_s", "range23_d", "range00_d", "range12_n", "ws0", "ws1", "ws_one", "inv0", "inv1", "nl", "bound", "complex", "comment", "gap0", "gap1",
    "ident", "anchor", "alias", "ind0", "ind1", "ind2", "ind3", "def0", "def1", "def2", "fwd", "bwd", "text", "not_in", "is_in",
];

fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == 12
}
fn white(c: u8) -> bool {
    blank(c) || c == b'\n' || c == b'\r'
}
struct D<'a>(&'a [u8]);
impl D<'_> {
    fn at(&self, i: usize) -> Option<u8> {
        self.0.get(i).copied()
    }
    fn run(&self, i: usize, f: impl Fn(u8) -> bool) -> usize {
        let mut j = i;
        while j < self.0.len() && f(self.0[j]) {
            j += 1;
        }
        j
    }
    fn lit(&self, i: usize, s: &[u8]) -> bool {
        self.0[i.min(self.0.len())..].starts_with(s)
    }
    fn nl(&self, i: usize) -> Option<usize> {
        if self.lit(i, b"\r\n") || self.lit(i, b"\n\r") {
            Some(i + 2)
        } else if matches!(self.at(i), Some(b'\n' | b'\r')) {
            Some(i + 1)
        } else {
            None
        }
    }
    fn comment(&self, i: usize) -> Option<usize> {
        let e = self.run(i, blank);
        (self.at(e) == Some(b'#')).then(|| self.run(e + 1, |c| c != b'\n' && c != b'\r'))
    }
    fn bound(&self, i: usize) -> Option<usize> {
        match self.at(i) {
            None => Some(i),
            Some(c) if b":{}[] ,\n\r".contains(&c) => Some(self.run(i, blank)),
            _ => None,
        }
    }
    fn ident(&self, i: usize) -> Option<usize> {
        match self.at(i) {
            Some(c) if c.is_ascii_alphanumeric() => Some(self.run(i, |c| c.is_ascii_alphanumeric() || c == b'-')),
            _ => None,
        }
    }
    /// The gap between two lines: where it ends and its line breaks.
    fn gap(&self, i: usize, cmt: bool) -> Result<(usize, usize), usize> {
        let c = if cmt {
            let b = self.run(i, blank);
            self.comment(b).unwrap_or(b)
        } else {
            i
        };
        let Some(mut e) = self.nl(c) else {
            return Err(if c >= self.0.len() { c } else { i });
        };
        let mut n = 1;
        loop {
            let b = self.run(e, blank);
            let c = if cmt { self.comment(b).unwrap_or(b) } else { b };
            match self.nl(c) {
                Some(x) => {
                    e = x;
                    n += 1;
                }
                None => return Ok((if c >= self.0.len() { c } else { e }, n)),
            }
        }
    }
    fn take(&self, i: usize, a: usize, b: usize, f: impl Fn(u8) -> bool) -> Option<usize> {
        let e = self.run(i, f).min(i.saturating_add(b));
        (e - i >= a).then_some(e)
    }
}

fn widths(w: &[usize], level: usize) -> Vec<usize> {
    let mut v = w.to_vec();
    v.resize(level + 1, 2);
    v
}

impl Prop for C02 {
    fn rule(&self) -> &'static str {
        "texts up to length 5 over 8 bytes (enumerated) and random texts with a random cursor, followed by 1 to 6 primitives; each primitive is compared with its grammar: outcome, cursor, checkpoint, value. A case counts when a primitive matches at least one byte."
    }
    fn fixed(&self, n: u64) -> Option<String> {
        // op x text over a small alphabet, cursor at 0
        let al: &[u8] = b" \n\r#a-:\t";
        let k = OPS.len() as u64;
        let op = OPS[(n % k) as usize];
        let mut m = n / k;
        let mut len = 0;
        let mut cnt = 1u64;
        while m >= cnt {
            m -= cnt;
            cnt *= al.len() as u64;
            len += 1;
        }
        if len > 5 {
            return None;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push(al[(m % al.len() as u64) as usize] as char);
            m /= al.len() as u64;
        }
        Some(format!("0 0 {op}\n{s}"))
    }
    fn make(&self, r: &mut Rng) -> String {
        let al = [" ", " ", " ", "\n", "\r", "\t", "#", "a", "Z", "0", "9", "-", ":", ",", "{", "}", "[", "]", "&", "*", "?", "'", "b", "---", "é", "漢", "\u{c}", "\u{b}", "_"];
        let n = if r.chance(1, 8) { r.below(60) } else { r.below(14) };
        let mut t = String::new();
        for _ in 0..n {
            t += *r.pick(&al[..]);
        }
        let pos = r.below(t.len() + 1);
        let eaten = if r.chance(1, 2) { pos } else { r.below(pos + 1) };
        let hex = |b: &[u8]| b.iter().map(|c| format!("{c:02x}")).collect::<String>();
        let ops: Vec<String> = (0..r.range(1, 6))
            .map(|_| match r.below(6) {
                0 => {
                    // a part of the text, now and then changed or longer than it
                    let a = if r.chance(2, 3) { pos } else { r.below(t.len() + 1) };
                    let mut q = t.as_bytes()[a..(a + r.below(9)).min(t.len())].to_vec();
                    if r.chance(1, 3) {
                        q.extend_from_slice(&b"abcd"[..r.below(5)]);
                    }
                    if r.chance(1, 6) && !q.is_empty() {
                        let k = r.below(q.len());
                        q[k] ^= 1 << r.below(6);
                    }
                    format!("{}:{}", ["q", "q", "x", "n"][r.below(4)], hex(&q))
                }
                1 => format!("r:{}:{}:{}:{}", r.below(3), r.below(5), r.below(6), r.below(5)),
                _ => r.pick(OPS).to_string(),
            })
            .collect();
        format!("{pos} {eaten} {}\n{t}", ops.join(" "))
    }
    fn judge(&self, case: &str) -> Result<bool, String> {
        let Some((h, t)) = case.split_once('\n') else { return Ok(false) };
        let w: Vec<&str> = h.split(' ').collect();
        let (Some(pos), Some(eaten)) = (w.first().and_then(|x| x.parse::<usize>().ok()), w.get(1).and_then(|x| x.parse::<usize>().ok())) else {
            return Ok(false);
        };
        let b = t.as_bytes();
        if pos > b.len() || eaten > pos {
            return Ok(false);
        }
        let d = D(b);
        let mut p = Parser::new(b);
        p.pos = pos;
        p.eaten = eaten;
        let mut ind = vec![0usize];
        let mut hit = false;
        for op in &w[2..] {
            let (i, e) = (p.pos, p.eaten);
            let digit = |c: u8| c.is_ascii_digit();
            // expected: Ok(end) or Err(end)
            let m = |x: Option<usize>| x.ok_or(e);
            let u = |x: Result<(), PError>| -> Result<(), String> {
                match x {
                    Ok(()) => Ok(()),
                    Err(PError::Mismatch) => Err("mismatch".into()),
                    Err(x) => Err(format!("error {x}")),
                }
            };
            let one = |f: &dyn Fn(u8) -> bool| d.at(i).filter(|c| f(*c)).map(|_| i + 1);
            let mut val: Option<(String, String)> = None;
            let (got, exp): (Result<(), String>, Result<usize, usize>) = match *op {
                "sym:" => (u(p.sym(b':')), m(one(&|c| c == b':'))),
                "sym-" => (u(p.sym(b'-')), m(one(&|c| c == b'-'))),
                "symA" => (u(p.sym(b'a')), m(one(&|c| c == b'a'))),
                "set:{" => (u(p.sym_set(b":{")), m(one(&|c| c == b':' || c == b'{'))),
                "set_all" => (u(p.sym_set(b":{}[] ,\n\r#a")), m(one(&|c| b":{}[] ,\n\r#a".contains(&c)))),
                "seq---" => (u(p.sym_seq(b"---")), m(d.lit(i, b"---").then_some(i + 3))),
                "seqab" => (u(p.sym_seq(b"ab")), m(d.lit(i, b"ab").then_some(i + 2))),
                "seq''" => (u(p.sym_seq(b"''")), m(d.lit(i, b"''").then_some(i + 2))),
                "one_d" => (u(p.take_while(u8::is_ascii_digit, TakeOpt::One)), m(one(&digit))),
                "more0_d" => (u(p.take_while(u8::is_ascii_digit, TakeOpt::More(0))), m(d.take(i, 0, usize::MAX, digit))),
                "more1_d" => (u(p.take_while(u8::is_ascii_digit, TakeOpt::More(1))), m(d.take(i, 1, usize::MAX, digit))),
                "more2_d" => (u(p.take_while(|c| *c != b' ', TakeOpt::More(2))), m(d.take(i, 2, usize::MAX, |c| c != b' '))),
                "range01_s" => (u(p.take_while(|c| *c == b'-', TakeOpt::Range(0, 1))), m(d.take(i, 0, 1, |c| c == b'-'))),
                "range23_d" => (u(p.take_while(|c| *c != b'\n', TakeOpt::Range(2, 3))), m(d.take(i, 2, 3, |c| c != b'\n'))),
                "range00_d" => (u(p.take_while(|c| *c != b'\n', TakeOpt::Range(0, 0))), m(d.take(i, 0, 0, |c| c != b'\n'))),
                "range12_n" => (u(p.take_while(|c| c.is_ascii_whitespace(), TakeOpt::Range(1, 2))), m(d.take(i, 1, 2, white))),
                "ws0" => (u(p.ws(TakeOpt::More(0))), m(d.take(i, 0, usize::MAX, blank))),
                "ws1" => (u(p.ws(TakeOpt::More(1))), m(d.take(i, 1, usize::MAX, blank))),
                "ws_one" => (u(p.ws(TakeOpt::One)), m(one(&blank))),
                "inv0" => (u(p.inv(TakeOpt::More(0))), m(d.take(i, 0, usize::MAX, white))),
                "inv1" => (u(p.inv(TakeOpt::More(1))), m(d.take(i, 1, usize::MAX, white))),
                "not_in" => (u(p.take_while(Parser::not_in(b"\n\r #"), TakeOpt::More(1))), m(d.take(i, 1, usize::MAX, |c| !b"\n\r #".contains(&c)))),
                "is_in" => (u(p.take_while(Parser::is_in(b"a-9"), TakeOpt::More(1))), m(d.take(i, 1, usize::MAX, |c| b"a-9".contains(&c)))),
                "nl" => (u(p.nl()), d.nl(i).ok_or(i)),
                "bound" => (u(p.bound()), m(d.bound(i))),
                "complex" => (u(p.complex_mapping()), m(one(&|c| c == b'?').and_then(|j| d.bound(j)))),
                "comment" => (u(p.comment()), m(d.comment(i))),
                "gap0" | "gap1" => {
                    let cmt = *op == "gap1";
                    let x = d.gap(i, cmt);
                    let r = p.gap(cmt);
                    if let (Ok(n), Ok(x)) = (&r, &x) {
                        val = Some((n.to_string(), x.1.to_string()));
                    }
                    (u(r.map(|_| ())), x.map(|x| x.0))
                }
                "ident" => (u(p.identifier()), m(d.ident(i))),
                "anchor" | "alias" => {
                    let c = if *op == "anchor" { b'&' } else { b'*' };
                    let r = if *op == "anchor" { p.anchor() } else { p.anchor_use() };
                    let x = one(&|x| x == c).and_then(|j| d.ident(j));
                    if let (Ok(n), Some(x)) = (&r, x) {
                        val = Some((n.clone(), String::from_utf8_lossy(&b[i + 1..x]).to_string()));
                    }
                    (u(r.map(|_| ())), m(x))
                }
                "ind0" | "ind1" | "ind2" | "ind3" => {
                    let l = (op.as_bytes()[3] - b'0') as usize;
                    ind = widths(&ind, l);
                    let n: usize = ind.iter().sum();
                    (u(p.ind(l)), m(d.take(i, n, n, |c| c == b' ')))
                }
                "def0" | "def1" | "def2" => {
                    let l = (op.as_bytes()[3] - b'0') as usize;
                    let s = if l > 0 {
                        ind = widths(&ind, l - 1);
                        let n: usize = ind.iter().sum();
                        d.take(i, n, n, |c| c == b' ')
                    } else {
                        Some(i)
                    };
                    let x = s.map(|s| {
                        let x = d.run(s, white);
                        if l == ind.len() {
                            ind.push(x - s);
                        } else {
                            ind[l] = x - s;
                        }
                        x
                    });
                    (u(p.ind_define(l)), m(x))
                }
                x if x.starts_with("q:") || x.starts_with("x:") || x.starts_with("n:") => {
                    let h = &x[2..];
                    if h.len() % 2 == 1 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                        return Ok(false);
                    }
                    let q: Vec<u8> = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
                    match &x[..1] {
                        "q" => (u(p.sym_seq(&q)), m(d.lit(i, &q).then_some(i + q.len()))),
                        "x" => (u(p.sym_set(&q)), m(one(&|c| q.contains(&c)))),
                        _ => (u(p.take_while(Parser::not_in(&q), TakeOpt::More(0))), m(d.take(i, 0, usize::MAX, |c| !q.contains(&c)))),
                    }
                }
                x if x.starts_with("r:") => {
                    let v: Vec<usize> = x[2..].split(':').filter_map(|n| n.parse().ok()).collect();
                    if v.len() != 4 {
                        return Ok(false);
                    }
                    let f = move |c: u8| match v[3] {
                        0 => c == b' ',
                        1 => c != b'\n',
                        2 => c.is_ascii_alphanumeric(),
                        3 => true,
                        _ => c >= 128,
                    };
                    let v: Vec<usize> = x[2..].split(':').filter_map(|n| n.parse().ok()).collect();
                    let (a, b) = (v[1], v[2]);
                    let (o, x) = match v[0] {
                        0 => (TakeOpt::One, one(&f)),
                        1 => (TakeOpt::More(a), d.take(i, a, usize::MAX, &f)),
                        _ => (TakeOpt::Range(a, b), d.take(i, a, b, &f)),
                    };
                    (u(p.take_while(|c| f(*c), o)), m(x))
                }
                "fwd" => {
                    p.forward();
                    if p.eaten != i || p.pos != i {
                        return Err(format!("forward at {i}: cursor {}, checkpoint {}", p.pos, p.eaten));
                    }
                    continue;
                }
                "bwd" => {
                    p.backward();
                    if p.pos != e || p.eaten != e {
                        return Err(format!("backward to {e}: cursor {}, checkpoint {}", p.pos, p.eaten));
                    }
                    continue;
                }
                "text" => {
                    let x = String::from_utf8_lossy(&b[e..i]).to_string();
                    let g = p.text();
                    if g != x || p.pos != i || p.eaten != e {
                        return Err(format!("text {e}..{i}: {g:?} instead of {x:?}"));
                    }
                    if p.food() != &b[i..] || p.food_str() != String::from_utf8_lossy(&b[i..]) {
                        return Err(format!("food at {i}"));
                    }
                    continue;
                }
                _ => return Ok(false),
            };
            match (&got, &exp) {
                (Ok(()), Ok(x)) | (Err(_), Err(x)) if p.pos == *x && p.eaten == e => {
                    if let Err(s) = &got {
                        if s != "mismatch" {
                            return Err(format!("{op} at {i}: {s}"));
                        }
                    }
                    hit |= p.pos > i;
                }
                _ => {
                    return Err(format!(
                        "{op} at {i} (checkpoint {e}): {got:?} with the cursor at {} and the checkpoint at {}, expected {exp:?}",
                        p.pos, p.eaten
                    ))
                }
            }
            if let Some((g, x)) = val {
                if g != x {
                    return Err(format!("{op} at {i}: {g:?} instead of {x:?}"));
                }
            }
        }
        Ok(hit)
    }
}
