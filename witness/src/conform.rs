//! A bounded test of what the proofs assume about the standard library and
//! `ritelinked`: executable copies of the contracts in `spec/`, run against the
//! real functions.
use crate::rng::Rng;
use ritelinked::LinkedHashMap;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

type C = Vec<char>;
fn cs(s: &str) -> C {
    s.chars().collect()
}
fn st(s: &[char]) -> String {
    s.iter().collect()
}
// ---- the contracts
fn clen(c: char) -> usize {
    match c as u32 {
        0..=0x7f => 1,
        0x80..=0x7ff => 2,
        0x800..=0xffff => 3,
        _ => 4,
    }
}
fn blen(s: &[char]) -> usize {
    s.iter().map(|c| clen(*c)).sum()
}
fn ws_char(c: char) -> bool {
    let n = c as u32;
    [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000].contains(&n) || (0x2000..=0x200a).contains(&n)
}
fn trim_end(s: &[char]) -> &[char] {
    if s.last().is_some_and(|c| ws_char(*c)) { trim_end(&s[..s.len() - 1]) } else { s }
}
fn trim_start(s: &[char]) -> &[char] {
    if s.first().is_some_and(|c| ws_char(*c)) { trim_start(&s[1..]) } else { s }
}
fn pre(p: &[char], s: &[char]) -> bool {
    p.len() <= s.len() && s[..p.len()] == *p
}
fn suf(p: &[char], s: &[char]) -> bool {
    p.len() <= s.len() && s[s.len() - p.len()..] == *p
}
fn contains(s: &[char], p: &[char]) -> bool {
    (0..=s.len()).any(|i| pre(p, &s[i..]))
}
fn replaced(s: &[char], p: &[char], q: &[char]) -> C {
    if s.is_empty() || p.is_empty() {
        s.to_vec()
    } else if pre(p, s) {
        [q, &replaced(&s[p.len()..], p, q)].concat()
    } else {
        [&s[..1], &replaced(&s[1..], p, q)].concat()
    }
}
fn dig(c: char, radix: u128) -> Option<u128> {
    let n = c as u32 as u128;
    let v = match n {
        48..=57 => n - 48,
        97..=122 => n - 87,
        65..=90 => n - 55,
        _ => 99,
    };
    Some(v).filter(|v| *v < radix)
}
/// Beyond this the value is of no type.
const BIG: u128 = 1 << 127;
/// `None`: not a number. The second: too large for a number here.
fn mag(s: &[char], radix: u128) -> Option<(u128, bool)> {
    if s.is_empty() {
        return None;
    }
    let mut a = (0u128, false);
    for c in s {
        let d = dig(*c, radix)?;
        a = match a.0.checked_mul(radix).and_then(|x| x.checked_add(d)) {
            Some(x) if !a.1 => (x, false),
            _ => (0, true),
        };
    }
    Some(a)
}
/// Sign, magnitude, too large.
fn signed(s: &[char], radix: u128) -> Option<(bool, u128, bool)> {
    match s.first() {
        Some('-') => mag(&s[1..], radix).map(|(a, b)| (true, a, b)),
        Some('+') => mag(&s[1..], radix).map(|(a, b)| (false, a, b)),
        _ => mag(s, radix).map(|(a, b)| (false, a, b)),
    }
}
fn unsigned(s: &[char]) -> Option<(bool, u128, bool)> {
    if s.first() == Some(&'-') { None } else { signed(s, 10) }
}
fn nat_text(n: u128) -> String {
    let d = (48 + (n % 10) as u8) as char;
    if n < 10 { d.to_string() } else { nat_text(n / 10) + &d.to_string() }
}
fn int_text(n: i128) -> String {
    if n < 0 { "-".to_string() + &nat_text(n.unsigned_abs()) } else { nat_text(n as u128) }
}
fn fkey(f: f64) -> u64 {
    if f.is_nan() { f64::NAN.to_bits() } else if f == 0. { 0 } else { f.to_bits() }
}
/// A key whose equality and hash look at one part only.
#[derive(Clone, Debug)]
struct Key(u8, u32);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.0 == o.0
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0 % 3)
    }
}
type M = Vec<(Key, u32)>;
fn minsert(m: &mut M, k: Key, v: u32) {
    match m.iter().position(|e| e.0 == k) {
        Some(i) => {
            let e = m.remove(i);
            m.push((e.0, v))
        }
        None => m.push((k, v)),
    }
}
fn same(l: &LinkedHashMap<Key, u32>, m: &M) -> bool {
    l.len() == m.len() && l.is_empty() == m.is_empty() && l.iter().zip(m).all(|(a, b)| a.0 .0 == b.0 .0 && a.0 .1 == b.0 .1 && *a.1 == b.1)
}
/// What a hasher is given.
#[derive(Default, PartialEq, Debug, Clone)]
struct Rec(Vec<Vec<u8>>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.to_vec())
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn rec(h: &(impl Hash + ?Sized)) -> Vec<Vec<u8>> {
    let mut r = Rec::default();
    h.hash(&mut r);
    r.0
}

macro_rules! must {
    ($n:ident, $e:expr, $($t:tt)+) => {{ $n += 1; if !$e { return Err(format!($($t)+)); } }};
}
const ALPHA: &[&str] = &["a", "b", "-", "+", "0", "1", "9", "x", "0x", "0o", "f", "F", "z", " ", "\t", "\n", "\r", "\r\n", "é", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{1f600}", "\u{feff}", "'", "\"", "\\", "\0", "tag:yaml.org,2002:", "."];
fn text(r: &mut Rng) -> String {
    let n = r.below(7);
    (0..n).map(|_| *r.pick(ALPHA)).collect()
}
fn number(r: &mut Rng) -> String {
    let n = r.below(45);
    let mut s: String = r.pick(&["", "-", "+", "", "--", " "]).to_string();
    for _ in 0..n {
        s += r.pick(&["0", "1", "7", "9", "9", "8"]);
        if r.chance(1, 60) {
            s += r.pick(&["a", "_", " ", ".", "x", "F"]);
        }
    }
    s
}
const EDGES: &[i128] = &[0, -1, 1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9223372036854775807, 9223372036854775808, -9223372036854775808, -9223372036854775809, 18446744073709551615, 18446744073709551616, i128::MAX, i128::MIN];

fn once(r: &mut Rng) -> Result<u64, String> {
    let mut n = 0u64;
    let (s, t) = (text(r), text(r));
    let (a, b) = (cs(&s), cs(&t));
    // texts
    must!(n, s.len() == blen(&a) && s.is_empty() == a.is_empty() && s.as_bytes().len() == s.len(), "len of {s:?}");
    must!(n, cs(s.trim_end()) == trim_end(&a), "trim_end of {s:?}");
    must!(n, cs(s.trim_start()) == trim_start(&a), "trim_start of {s:?}");
    must!(n, cs(s.trim()) == trim_start(trim_end(&a)), "trim of {s:?}");
    must!(n, s.starts_with(&*t) == pre(&b, &a) && s.ends_with(&*t) == suf(&b, &a), "starts_with, ends_with of {s:?} {t:?}");
    must!(n, s.strip_prefix(&*t).map(cs) == pre(&b, &a).then(|| a[b.len()..].to_vec()), "strip_prefix of {s:?} {t:?}");
    must!(n, s.strip_suffix(&*t).map(cs) == suf(&b, &a).then(|| a[..a.len() - b.len()].to_vec()), "strip_suffix of {s:?} {t:?}");
    must!(n, s.contains(&*t) == contains(&a, &b), "contains of {s:?} {t:?}");
    if !t.is_empty() {
        let u = text(r);
        must!(n, cs(&s.replace(&*t, &u)) == replaced(&a, &b, &cs(&u)), "replace of {s:?} {t:?} {u:?}");
        let mut e = &a[..];
        while suf(&b, e) {
            e = &e[..e.len() - b.len()];
        }
        must!(n, cs(s.trim_end_matches(&*t)) == e, "trim_end_matches of {s:?} {t:?}");
        let mut e = &a[..];
        while pre(&b, e) {
            e = &e[b.len()..];
        }
        must!(n, cs(s.trim_start_matches(&*t)) == e, "trim_start_matches of {s:?} {t:?}");
        let c = b[0];
        must!(n, s.starts_with(c) == (a.first() == Some(&c)) && s.ends_with(c) == (a.last() == Some(&c)), "starts_with, ends_with of {s:?} {c:?}");
        must!(n, s.starts_with([c, 'a']) == a.first().is_some_and(|x| [c, 'a'].contains(x)), "starts_with of {s:?} [{c:?}, 'a']");
        must!(n, s.ends_with(&['a', c][..]) == a.last().is_some_and(|x| [c, 'a'].contains(x)), "ends_with of {s:?} ['a', {c:?}]");
        let mut e = &a[..];
        while e.last() == Some(&c) {
            e = &e[..e.len() - 1];
        }
        must!(n, cs(s.trim_end_matches(c)) == e, "trim_end_matches of {s:?} {c:?}");
    }
    must!(n, s.ends_with(char::is_whitespace) == a.last().is_some_and(|c| ws_char(*c)), "ends_with white space of {s:?}");
    must!(n, cs(s.trim_end_matches(char::is_whitespace)) == trim_end(&a), "trim_end_matches white space of {s:?}");
    must!(n, cs(&(s.clone() + &t)) == [&a[..], &b].concat(), "{s:?} + {t:?}");
    let mut u = s.clone();
    u.push_str(&t);
    u.push('é');
    must!(n, cs(&u) == [&a[..], &b, &['é']].concat(), "push of {s:?} {t:?}");
    must!(n, (s == t) == (a == b), "{s:?} == {t:?}");
    must!(n, s.to_string() == s && s.to_owned() == s && String::from(&*s) == s && format!("{s}") == s, "copies of {s:?}");
    for k in 0..s.len() + 2 {
        let at = (0..=a.len()).find(|i| blen(&a[..*i]) == k);
        let mut u = s.clone();
        let ok = catch_unwind(AssertUnwindSafe(|| u.truncate(k))).is_ok();
        match at {
            Some(i) => must!(n, ok && cs(&u) == a[..i], "truncate {k} of {s:?}"),
            None if k >= s.len() => must!(n, ok && u == s, "truncate {k} of {s:?}"),
            None => must!(n, !ok, "truncate {k} of {s:?}"),
        }
    }
    let k = r.below(5);
    must!(n, s.repeat(k) == vec![s.clone(); k].concat(), "repeat {k} of {s:?}");
    let l: Vec<_> = (0..k).map(|_| text(r)).collect();
    let mut e = String::new();
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            e += &t;
        }
        e += x;
    }
    must!(n, l.join(&t) == e, "join of {l:?} by {t:?}");
    must!(n, s.lines().nth(k).is_some() == (s.lines().count() > k) && s.chars().count() == a.len() && s.chars().next() == a.first().copied(), "nth and count of {s:?}");
    // bytes
    let by: Vec<u8> = (0..r.below(9)).map(|_| *r.pick(&[b'a', b'\n', b' ', b':', 0, 0x7f, 0x80, 0xbf, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x98, 0x80, 0xff])).collect();
    let lossy = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    must!(n, lossy(&by).is_empty() == by.is_empty(), "lossy of {by:?}");
    for i in 0..=by.len() {
        let (x, y) = by.split_at(i);
        if x.last().is_none_or(|c| *c < 0x80) || y.first().is_none_or(|c| *c < 0x80) {
            must!(n, lossy(&by) == lossy(x) + &lossy(y), "lossy of {by:?} cut at {i}");
        }
    }
    for c in 0..0x80u8 {
        if !by.contains(&c) {
            must!(n, !lossy(&by).contains(c as char), "{c} is read out of {by:?}");
        }
    }
    let asc: Vec<u8> = by.iter().copied().filter(|c| *c < 0x80).collect();
    must!(n, lossy(&asc).as_bytes() == asc && cs(&lossy(&asc)) == asc.iter().map(|c| *c as char).collect::<C>(), "lossy of {asc:?}");
    must!(n, lossy(s.as_bytes()) == s, "bytes of {s:?}");
    let parts: Vec<&[u8]> = by.split(|c| *c == b'\n').collect();
    let mut e = vec![vec![]];
    for c in &by {
        if *c == b'\n' { e.push(vec![]) } else { e.last_mut().unwrap().push(*c) }
    }
    must!(n, parts == e, "split of {by:?}");
    let by2: Vec<u8> = (0..r.below(3)).map(|_| *r.pick(&[b'a', b'\n', 0x80])).collect();
    must!(n, by.starts_with(&by2) == (by.len() >= by2.len() && by[..by2.len()] == by2[..]), "starts_with of {by:?} {by2:?}");
    must!(n, by.ends_with(&by2) == (by.len() >= by2.len() && by[by.len() - by2.len()..] == by2[..]), "ends_with of {by:?} {by2:?}");
    let k = r.below(by.len() + 2);
    let mut v = by.clone();
    let ok = catch_unwind(AssertUnwindSafe(|| drop(v.drain(k..)))).is_ok();
    must!(n, if k <= by.len() { ok && v == by[..k] } else { !ok }, "drain {k} of {by:?}");
    let us: Vec<usize> = by.iter().map(|c| *c as usize).collect();
    let mut e = 0;
    for x in &us {
        e += x;
    }
    must!(n, us.iter().sum::<usize>() == e, "sum of {us:?}");
    // numbers
    let d = match r.below(4) {
        0 => s.clone(),
        1 => number(r),
        2 => format!("{}{}", r.pick(&["", "+", "00", ""]), r.pick(EDGES)),
        _ => format!("{}", *r.pick(EDGES) / 10i128.pow(r.below(4) as u32)) + r.pick(&["", "0", "9"]),
    };
    let dc = cs(&d);
    fn fits(w: Option<(bool, u128, bool)>, min: i128, max: u128) -> Option<(bool, u128)> {
        w.and_then(|(m, a, big)| if big { None } else { Some((m && a > 0, a)) }).filter(|(m, a)| if *m { min < 0 && *a <= min.unsigned_abs() } else { *a <= max })
    }
    macro_rules! si {
        ($($t:ident)+) => { $(
            must!(n, d.parse::<$t>().ok().map(|x| (x < 0, x.unsigned_abs() as u128)) == fits(signed(&dc, 10), $t::MIN as i128, $t::MAX as u128), "{d:?} as {}", stringify!($t));
            let x = $t::try_from(*r.pick(EDGES)).unwrap_or($t::MIN / 7 * (r.below(9) as $t - 4));
            must!(n, x.to_string() == int_text(x as i128) && format!("{x}") == int_text(x as i128), "text of {x}");
            let w = r.pick(EDGES).clamp(&(i64::MIN as i128), &(i64::MAX as i128)).clone() as i64;
            must!(n, $t::try_from(w).ok().map(|y| y as i128) == Some(w as i128).filter(|w| ($t::MIN as i128..=$t::MAX as i128).contains(w)), "{w} into {}", stringify!($t));
        )+ };
    }
    macro_rules! un {
        ($($t:ident)+) => { $(
            must!(n, d.parse::<$t>().ok().map(|x| (false, x as u128)) == fits(unsigned(&dc), 0, $t::MAX as u128), "{d:?} as {}", stringify!($t));
            let x = $t::try_from(*r.pick(EDGES)).unwrap_or($t::MAX / (r.below(9) as $t + 1));
            must!(n, x.to_string() == nat_text(x as u128) && format!("{x}") == nat_text(x as u128), "text of {x}");
            let w = r.pick(EDGES).clamp(&(i64::MIN as i128), &(i64::MAX as i128)).clone() as i64;
            must!(n, $t::try_from(w).ok().map(|y| y as u128) == (w >= 0 && w as u128 <= $t::MAX as u128).then_some(w as u128), "{w} into {}", stringify!($t));
        )+ };
    }
    si!(i8 i16 i32 i64 i128 isize);
    un!(u8 u16 u32 u64 u128 usize);
    for radix in [8, 10, 16] {
        must!(n, i64::from_str_radix(&d, radix).ok().map(|x| (x < 0, x.unsigned_abs() as u128)) == fits(signed(&dc, radix as u128), i64::MIN as i128, i64::MAX as u128), "{d:?} in base {radix}");
    }
    let _ = BIG;
    // floats
    let f = match r.below(4) {
        0 => *r.pick(&[0., -0., 1., 1.5, -2.25, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, 0.1, 1e21, 1e-7]),
        1 => r.below(1 << 30) as f64 / 8.,
        _ => f64::from_bits(r.next()),
    };
    must!(n, f.to_string().parse::<f64>().is_ok_and(|g| fkey(g) == fkey(f)), "text of {f:?}");
    must!(n, f64::NAN.is_nan() && (f == 0.) == (fkey(f) == 0 && !f.is_nan()), "zero of {f:?}");
    must!(n, format!("{f}") == f.to_string(), "display of {f:?}");
    // what a hasher is given
    must!(n, (rec(&s) == rec(&t)) == (s == t), "hash of {s:?} {t:?}");
    must!(n, rec(&s) == rec(&*s), "hash of the text {s:?}");
    let v: Vec<Key> = (0..r.below(4)).map(|_| Key(r.below(3) as u8, 0)).collect();
    let mut h = Rec::default();
    h.write_usize(v.len());
    v.iter().for_each(|k| k.hash(&mut h));
    must!(n, rec(&v) == h.0, "hash of {v:?}");
    must!(n, rec(&1u64) != rec(&2u64) && rec(&-1i64) != rec(&1i64) && rec(&true) != rec(&false), "hash of numbers");
    must!(n, rec(&Rc::new(s.clone())) == rec(&s) && (Rc::new(s.clone()) == Rc::new(t.clone())) == (s == t) && (Arc::new(s.clone()) == Arc::new(t.clone())) == (s == t), "Rc of {s:?} {t:?}");
    // maps
    let mut l = LinkedHashMap::new();
    let (mut m, mut all): (M, M) = (vec![], vec![]);
    for i in 0..r.below(12) as u32 {
        let k = Key(r.below(7) as u8, i);
        let was = m.iter().find(|e| e.0 == k).map(|e| e.1);
        must!(n, l.insert(k.clone(), i) == was, "insert of {k:?} in {m:?}");
        all.push((k.clone(), i));
        minsert(&mut m, k, i);
        must!(n, same(&l, &m), "{l:?} for {m:?}");
        let k = Key(r.below(7) as u8, 99);
        must!(n, l.get(&k).copied() == m.iter().find(|e| e.0 == k).map(|e| e.1), "get of {k:?} in {m:?}");
        must!(n, l.contains_key(&k) == m.iter().any(|e| e.0 == k), "contains_key of {k:?} in {m:?}");
    }
    let c: LinkedHashMap<Key, u32> = all.iter().cloned().collect();
    must!(n, same(&c, &m), "collected {all:?}");
    let mut w = LinkedHashMap::with_capacity(r.below(9));
    w.extend(all.iter().cloned());
    must!(n, same(&w, &m) && same(&l.clone(), &m), "extended {all:?}");
    must!(n, l.clone().into_iter().map(|e| (e.0 .0, e.0 .1, e.1)).eq(m.iter().map(|e| (e.0 .0, e.0 .1, e.1))), "into_iter of {m:?}");
    let mut h = Rec::default();
    for e in &m {
        e.0.hash(&mut h);
        e.1.hash(&mut h);
    }
    must!(n, rec(&l) == h.0, "hash of {m:?}");
    let mut bm: BTreeMap<String, usize> = BTreeMap::new();
    let mut bl: Vec<(String, usize)> = vec![];
    for i in 0..r.below(6) {
        let k = text(r);
        must!(n, bm.insert(k.clone(), i).is_some() == bl.iter().any(|e| e.0 == k), "insert of {k:?} in {bl:?}");
        bl.retain(|e| e.0 != k);
        bl.push((k, i));
        must!(n, bl.iter().all(|e| bm.get(&e.0) == Some(&e.1) && bm.contains_key(&e.0) && bm[&e.0] == e.1) && bm.len() == bl.len() && bm.iter().count() == bl.len(), "{bm:?} for {bl:?}");
        let k = text(r);
        must!(n, bm.contains_key(&k) == bl.iter().any(|e| e.0 == k) && bm.get(&k).is_some() == bm.contains_key(&k), "get of {k:?} in {bl:?}");
    }
    Ok(n)
}
fn table() -> Result<u64, String> {
    let mut n = 0u64;
    for c in '\0'..=char::MAX {
        must!(n, c.is_whitespace() == ws_char(c) && c.len_utf8() == clen(c), "{c:?}");
    }
    for c in 0..=255u8 {
        must!(n, c.is_ascii_digit() == (48..=57).contains(&c), "digit {c}");
        must!(n, c.is_ascii_hexdigit() == ((48..=57).contains(&c) || (65..=70).contains(&c) || (97..=102).contains(&c)), "hexdigit {c}");
        must!(n, c.is_ascii_alphanumeric() == ((48..=57).contains(&c) || (65..=90).contains(&c) || (97..=122).contains(&c)), "alphanumeric {c}");
        must!(n, c.is_ascii_whitespace() == [32, 9, 10, 12, 13].contains(&c), "white space {c}");
        must!(n, char::from(c) as u32 == c as u32 && c as char as u32 == c as u32, "character {c}");
    }
    must!(n, Err::<usize, ()>(()).unwrap_or_default() == 0 && !Err::<bool, ()>(()).unwrap_or_default() && Err::<String, ()>(()).unwrap_or_default().is_empty(), "defaults");
    must!(n, st(&['a', 'é']) == "aé" && std::slice::from_ref(&1) == [1] && format!("{} {}", true, false) == "true false", "texts");
    Ok(n)
}

/// `(cases, comparisons)`
pub fn conform(seed: u64, cases: u64) -> Result<u64, String> {
    let mut n = table()?;
    let mut r = Rng::new(seed);
    for _ in 0..cases {
        n += once(&mut r)?;
    }
    Ok(n)
}
