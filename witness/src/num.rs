//! What numbers mean, written from the statement.
use crate::gen::V;

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())
}
/// The number which a whole token denotes.
pub fn number(s: &str) -> Option<V> {
    let t = s.strip_prefix('-').unwrap_or(s);
    if digits(t) {
        return Some(V::Int(s.into()));
    }
    if let Some(h) = s.strip_prefix("0x") {
        if !h.is_empty() && h.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Some(V::Int(s.into()));
        }
    }
    if let Some(o) = s.strip_prefix("0o") {
        if !o.is_empty() && o.bytes().all(|c| (b'0'..=b'7').contains(&c)) {
            return Some(V::Int(s.into()));
        }
    }
    if let Some((a, b)) = t.split_once('.') {
        if digits(a) && (b.is_empty() || digits(b)) {
            // up to a trailing `.0`
            let f = if b == "0" { &s[..s.len() - 2] } else { s };
            return Some(V::Float(f.into()));
        }
    }
    if let Some((a, b)) = t.split_once(['e', 'E']) {
        let b = b.strip_prefix(['+', '-']).unwrap_or(b);
        if digits(a) && digits(b) {
            return Some(V::Float(s.into()));
        }
    }
    None
}
/// The value of an integer text, if it fits 64 bits.
pub fn int_value(s: &str) -> Option<i64> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (base, t) = if let Some(h) = t.strip_prefix("0x") {
        (16, h)
    } else if let Some(o) = t.strip_prefix("0o") {
        (8, o)
    } else {
        (10, t)
    };
    if t.is_empty() {
        return None;
    }
    let mut n: i128 = 0;
    for c in t.chars() {
        n = n.checked_mul(base)?.checked_add(c.to_digit(base as u32)? as i128)?;
        if n > 1 << 64 {
            return None;
        }
    }
    i64::try_from(if neg { -n } else { n }).ok()
}
pub fn same_int(a: &str, b: &str) -> bool {
    match (int_value(a), int_value(b)) {
        (None, None) => a == b,
        (x, y) => x == y,
    }
}
pub fn same_float(a: &str, b: &str) -> bool {
    match (a.parse::<f64>(), b.parse::<f64>()) {
        (Ok(x), Ok(y)) => x == y || x.is_nan() && y.is_nan(),
        (Err(_), Err(_)) => a == b,
        _ => false,
    }
}
