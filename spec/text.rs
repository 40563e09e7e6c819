// The grammar of the scalars, on the bytes of the document.

// ---- numbers

pub open spec fn m_num_prefix(d: Seq<u8>, i: int) -> Option<int> {
    let j = if at(d, i, 45) { i + 1 } else { i };
    m_take(p_digit(), d, j, TakeOpt::More(1))
}
pub open spec fn m_oct(d: Seq<u8>, i: int) -> Option<int> {
    if at(d, i, 111) { m_take(p_oct(), d, i + 1, TakeOpt::More(1)) } else { None }
}
pub open spec fn m_hexa(d: Seq<u8>, i: int) -> Option<int> {
    if at(d, i, 120) { m_take(p_hex(), d, i + 1, TakeOpt::More(1)) } else { None }
}
/// End of the text of a number, end of the match behind its boundary.
pub open spec fn num_end(d: Seq<u8>, e: int) -> Option<(int, int)> {
    match m_num_bound(d, e) { Some(f) => Some((e, f)), None => None }
}
pub open spec fn m_int(d: Seq<u8>, i: int) -> Option<(int, int)> {
    match m_num_prefix(d, i) {
        None => None,
        Some(e) => num_end(d, if e == i + 1 && d[i] == 48 {
            match m_oct(d, e) { Some(x) => x, None => match m_hexa(d, e) { Some(x) => x, None => e } }
        } else { e }),
    }
}
pub open spec fn m_float(d: Seq<u8>, i: int) -> Option<(int, int)> {
    match m_num_prefix(d, i) {
        Some(e) if at(d, e, 46) => num_end(d, run(p_digit(), d, e + 1)),
        _ => None,
    }
}
pub open spec fn p_sign() -> spec_fn(u8) -> bool { p_in(seq![43u8, 45u8]) }
pub open spec fn m_sci(d: Seq<u8>, i: int) -> Option<(int, int)> {
    match m_num_prefix(d, i) {
        Some(e) if at(d, e, 101) || at(d, e, 69) => {
            let s = if at(d, e + 1, 43) || at(d, e + 1, 45) { e + 2 } else { e + 1 };
            match m_take(p_digit(), d, s, TakeOpt::More(1)) { Some(f) => num_end(d, f), None => None }
        }
        _ => None,
    }
}
pub open spec fn m_end(m: Option<(int, int)>) -> Option<int> { match m { Some(e) => Some(e.1), None => None } }
/// The text of a float: the written one without a final `.0`.
pub open spec fn float_text(b: Seq<u8>) -> Seq<u8> {
    if b.len() >= 2 && b[b.len() - 2] == 46 && b[b.len() - 1] == 48 { b.take(b.len() - 2) } else { b }
}
pub proof fn lemma_prefix(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures m_num_prefix(d, i) is Some ==> ({
        let e = m_num_prefix(d, i)->Some_0;
        i < e <= d.len() && digit(d[e - 1]) && (e == d.len() || !digit(d[e])) && ascii(d.subrange(i, e))
            && forall|k: int| i < k < e ==> digit(#[trigger] d[k]) && (digit(d[i]) || d[i] == 45)
    })
{
    let j = if at(d, i, 45) { i + 1 } else { i };
    lemma_run_bound(p_digit(), d, j);
    if m_num_prefix(d, i) is Some {
        let e = m_num_prefix(d, i)->Some_0;
        assert forall|k: int| 0 <= k < e - i implies #[trigger] d.subrange(i, e)[k] < 0x80 by {
            if i + k >= j { assert(p_digit()(d[i + k])); }
        }
        assert forall|k: int| i < k < e implies digit(#[trigger] d[k]) && (digit(d[i]) || d[i] == 45) by { assert(p_digit()(d[k])); assert(j == i ==> p_digit()(d[i])); }
        assert(p_digit()(d[e - 1]));
    }
}
/// One `.0` is left out.
pub proof fn lemma_float_text(p: &Str, b: Seq<u8>, n: int)
    requires p@ == ".0"@, ascii(b), 0 < n < b.len(), b[n] == 46, forall|k: int| 0 <= k < b.len() && k != n ==> #[trigger] b[k] != 46
    ensures trim_pat(p, utf8(b)) == utf8(float_text(b))
{
    reveal_strlit(".0");
    reveal_with_fuel(trim_pat, 3);
    axiom_utf8_bytes(b);
    let s = utf8(b);
    let m = b.len() - 2;
    let c = b.take(m);
    axiom_utf8_bytes(c);
    assert(p@.len() == 2 && p@[0] == '.' && p@[1] == '0');
    assert('.' as u8 == 46 && '0' as u8 == 48 && 46u8 as char == '.' && 48u8 as char == '0');
    if p.suf(s) {
        assert(s.subrange(m, s.len() as int) =~= p@);
        assert(s[m] == p@[0] && s[m + 1] == p@[1]);
        assert(s[m] == b[m] as char && s[m + 1] == b[m + 1] as char);
        assert(b[m] == 46 && b[m + 1] == 48);
        assert(s.take(m) =~= utf8(c));
        if p.suf(utf8(c)) {
            let k = m - 2;
            assert(utf8(c).subrange(k, m) =~= p@);
            assert(utf8(c)[k] == p@[0]);
            assert(c[k] == 46);
            assert(b[k] == 46);
        }
    } else if b[m] == 46 && b[m + 1] == 48 {
        assert(s[m] == b[m] as char && s[m + 1] == b[m + 1] as char);
        assert(s.subrange(m, s.len() as int) =~= p@);
    }
}

// ---- quoted strings

/// What an escaped character stands for.
pub open spec fn esc_char(c: char) -> char {
    if c == 'n' { '\n' } else if c == 'r' { '\r' } else if c == 't' { '\t' } else if c == 'b' { '\x08' } else if c == 'f' { '\x0C' } else { c }
}
/// Double-quoted text decoded.
pub open spec fn dec(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s[0] == '\\' { if s.len() == 1 { Seq::empty() } else { seq![esc_char(s[1])] + dec(s.skip(2)) } }
    else { seq![s[0]] + dec(s.skip(1)) }
}
/// The first pass on a double-quoted text: only `\"` is decoded.
pub open spec fn half(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s[0] == '\\' && s.len() > 1 && s[1] == '"' { seq!['"'] + half(s.skip(2)) }
    else if s[0] == '\\' && s.len() > 1 { seq!['\\', s[1]] + half(s.skip(2)) }
    else { seq![s[0]] + half(s.skip(1)) }
}
/// The two passes decode.
pub proof fn lemma_half(s: Seq<char>)
    ensures dec(half(s)) == dec(s)
    decreases s.len()
{
    if s.len() > 0 {
        if s[0] == '\\' && s.len() > 1 && s[1] == '"' {
            lemma_half(s.skip(2));
            assert(half(s).skip(1) =~= half(s.skip(2)));
            assert(half(s)[0] == '"');
        } else if s[0] == '\\' && s.len() > 1 {
            lemma_half(s.skip(2));
            assert(half(s).skip(2) =~= half(s.skip(2)));
            assert(half(s)[0] == '\\' && half(s)[1] == s[1]);
        } else {
            lemma_half(s.skip(1));
            assert(half(s).skip(1) =~= half(s.skip(1)));
            assert(half(s)[0] == s[0]);
        }
    }
}
/// Single-quoted text decoded: two quotes are one.
pub open spec fn undouble(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s[0] == '\'' && s.len() > 1 && s[1] == '\'' { seq!['\''] + undouble(s.skip(2)) }
    else { seq![s[0]] + undouble(s.skip(1)) }
}
/// What a text between quotes becomes in the first pass.
pub open spec fn quoted(sym: u8, s: Seq<char>) -> Seq<char> { if sym == 34 { half(s) } else { undouble(s) } }
/// Where the closing quote is.
pub open spec fn close(d: Seq<u8>, i: int, sym: u8) -> Option<int>
    decreases d.len() - i
{
    if i < 0 || i >= d.len() { None }
    else if sym == 39 {
        if d[i] != 39 { close(d, i + 1, sym) } else if at(d, i + 1, 39) { close(d, i + 2, sym) } else { Some(i) }
    } else {
        if d[i] == 92 { if i + 1 < d.len() { close(d, i + 2, sym) } else { None } } else if d[i] == 34 { Some(i) } else { close(d, i + 1, sym) }
    }
}
pub open spec fn plain_byte(c: u8, sym: u8) -> bool { c != 92 && c != sym }
/// Bytes which are no quote and no backslash are passed over.
pub proof fn lemma_close_skip(d: Seq<u8>, i: int, j: int, sym: u8)
    requires 0 <= i <= j <= d.len(), sym == 39 || sym == 34, forall|k: int| i <= k < j ==> plain_byte(#[trigger] d[k], sym)
    ensures close(d, i, sym) == close(d, j, sym)
    decreases j - i
{
    if i < j { assert(plain_byte(d[i], sym)); lemma_close_skip(d, i + 1, j, sym); }
}
pub proof fn lemma_close_bound(d: Seq<u8>, i: int, sym: u8)
    requires 0 <= i, sym == 39 || sym == 34
    ensures close(d, i, sym) is Some ==> i <= close(d, i, sym)->Some_0 < d.len() && d[close(d, i, sym)->Some_0] == sym
        && (sym == 39 ==> !at(d, close(d, i, sym)->Some_0 + 1, 39))
    decreases d.len() - i
{
    if i < d.len() {
        if sym == 39 {
            if d[i] != 39 { lemma_close_bound(d, i + 1, sym); } else if at(d, i + 1, 39) { lemma_close_bound(d, i + 2, sym); }
        } else {
            if d[i] == 92 { if i + 1 < d.len() { lemma_close_bound(d, i + 2, sym); } } else if d[i] == 34 {} else { lemma_close_bound(d, i + 1, sym); }
        }
    }
}
/// No line break.
pub open spec fn one_line(d: Seq<u8>, i: int, e: int) -> bool { forall|k: int| i <= k < e ==> p_line()(#[trigger] d[k]) }
pub open spec fn plain_text(s: Seq<char>, sym: u8) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '\\' && s[k] != sym as char }
/// Plain characters in front stay as they are.
pub proof fn lemma_quoted_front(sym: u8, a: Seq<char>, b: Seq<char>)
    requires sym == 39 || sym == 34, plain_text(a, sym)
    ensures quoted(sym, a + b) == a + quoted(sym, b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(a + quoted(sym, b) =~= quoted(sym, b)); }
    else {
        assert(a[0] != '\\' && a[0] != sym as char);
        assert(39u8 as char == '\'' && 34u8 as char == '"');
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b)[0] == a[0]);
        lemma_quoted_front(sym, a.skip(1), b);
        assert(a + quoted(sym, b) =~= seq![a[0]] + (a.skip(1) + quoted(sym, b)));
    }
}
/// The text of a run of plain bytes in front of an ASCII byte.
pub proof fn lemma_chunk(d: Seq<u8>, i: int, j: int, e: int, sym: u8)
    requires 0 <= i <= j <= e <= d.len(), sym == 39 || sym == 34, forall|k: int| i <= k < j ==> plain_byte(#[trigger] d[k], sym),
        i == j || j == e || d[j] < 0x80 || d[j - 1] < 0x80
    ensures quoted(sym, utf8(d.subrange(i, e))) == utf8(d.subrange(i, j)) + quoted(sym, utf8(d.subrange(j, e)))
{
    let a = d.subrange(i, j);
    let b = d.subrange(j, e);
    assert(d.subrange(i, e) =~= a + b);
    axiom_utf8_cut(a, b);
    axiom_utf8_char(a, 92);
    axiom_utf8_char(a, sym);
    assert(92u8 as char == '\\');
    lemma_quoted_front(sym, utf8(a), utf8(b));
}
/// A pair of ASCII bytes in front.
pub proof fn lemma_pair(d: Seq<u8>, i: int, e: int)
    requires 0 <= i, i + 2 <= e <= d.len(), d[i] < 0x80, d[i + 1] < 0x80
    ensures utf8(d.subrange(i, e)) == seq![d[i] as char, d[i + 1] as char] + utf8(d.subrange(i + 2, e))
{
    let a = d.subrange(i, i + 2);
    let b = d.subrange(i + 2, e);
    assert(d.subrange(i, e) =~= a + b);
    axiom_utf8_cut(a, b);
    axiom_utf8_bytes(a);
    assert(utf8(a) =~= seq![d[i] as char, d[i + 1] as char]);
}
pub proof fn lemma_trim_end(s: Seq<char>)
    ensures trim_end(s).len() <= s.len(), trim_end(s) == s.take(trim_end(s).len() as int)
    decreases s.len()
{
    if s.len() > 0 && ws_char(s.last()) {
        lemma_trim_end(s.drop_last());
        assert(s.drop_last().take(trim_end(s).len() as int) =~= s.take(trim_end(s).len() as int));
    } else { assert(s.take(s.len() as int) =~= s); }
}
/// `truncate` to the length of `trim_end`.
pub proof fn lemma_truncate(s: Seq<char>)
    ensures exists|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == blen(trim_end(s)) && s.take(k) == trim_end(s),
        blen(trim_end(s)) <= blen(s), blen(trim_end(s)) == blen(s) ==> trim_end(s) == s
    decreases s.len()
{
    lemma_trim_end(s);
    let k = trim_end(s).len() as int;
    lemma_blen(s, k);
    assert(blen(s.take(k)) == blen(trim_end(s)));
}
pub proof fn lemma_blen(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures blen(s.take(k)) <= blen(s), blen(s.take(k)) == blen(s) ==> k == s.len()
    decreases s.len()
{
    if k < s.len() {
        lemma_blen(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
    } else { assert(s.take(k) =~= s); }
}
/// A gap without comments is white.
pub proof fn lemma_lines_white(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures i <= m_lines(d, i, false).0 <= d.len(), forall|k: int| i <= k < m_lines(d, i, false).0 ==> white(#[trigger] d[k])
    decreases d.len() - i
{
    lemma_lines(d, i, false);
    lemma_run_bound(p_blank(), d, i);
    let b = run(p_blank(), d, i);
    assert forall|k: int| i <= k < b implies white(#[trigger] d[k]) by { assert(p_blank()(d[k])); }
    match m_nl(d, b) { Some(e) => lemma_lines_white(d, e), None => {} }
}
pub proof fn lemma_gap(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures match m_gap(d, i, false) { Some(r) => i < r.0 <= d.len() && 1 <= r.1 <= d.len() && forall|k: int| i <= k < r.0 ==> white(#[trigger] d[k]), None => true }
{
    match m_nl(d, i) { Some(e) => { lemma_lines(d, e, false); lemma_lines_white(d, e); } None => {} }
}

/// What the first pass adds for the special byte at `q`.
pub open spec fn piece(d: Seq<u8>, q: int, sym: u8) -> Seq<char> {
    if sym == 34 && at(d, q, 92) && at(d, q + 1, 92) { seq!['\\', '\\'] }
    else if sym == 34 && at(d, q, 92) && at(d, q + 1, 34) { seq!['"'] }
    else if sym == 39 && at(d, q, 39) { seq!['\''] }
    else { seq!['\\'] }
}
pub open spec fn piece_end(d: Seq<u8>, q: int, sym: u8) -> int {
    if sym == 34 && at(d, q, 92) && (at(d, q + 1, 92) || at(d, q + 1, 34)) { q + 2 }
    else if sym == 39 && at(d, q, 39) { q + 2 }
    else { q + 1 }
}
pub proof fn lemma_piece(d: Seq<u8>, q: int, e: int, sym: u8)
    requires 0 <= q < e < d.len(), sym == 39 || sym == 34, close(d, q, sym) == Some(e), one_line(d, q, e), d[q] == 92 || d[q] == sym
    ensures ({
        let x = piece_end(d, q, sym);
        x <= e && quoted(sym, utf8(d.subrange(q, e))) == piece(d, q, sym) + quoted(sym, utf8(d.subrange(x, e)))
    })
{
    let x = piece_end(d, q, sym);
    let s = utf8(d.subrange(q, e));
    lemma_close_bound(d, x, sym);
    lemma_close_bound(d, q + 2, sym);
    assert(39u8 as char == '\'' && 34u8 as char == '"' && 92u8 as char == '\\');
    if x == q + 2 {
        assert(close(d, q, sym) == close(d, x, sym));
        lemma_pair(d, q, e);
        assert(s.skip(2) =~= utf8(d.subrange(x, e)));
    } else {
        lemma_one(d, q, e);
        assert(s.skip(1) =~= utf8(d.subrange(x, e)));
        if sym == 34 {
            // an escaped character which is no quote and no backslash
            let t = utf8(d.subrange(x, e));
            assert(d[q] == 92);
            if q + 1 == e { assert(false); }
            lemma_first(d, x, e, sym);
            assert(s.skip(2) =~= t.skip(1));
            assert(half(t) == seq![t[0]] + half(t.skip(1)));
            assert(s[1] == t[0]);
            assert(half(s) == seq!['\\', s[1]] + half(s.skip(2)));
            assert(half(s) =~= seq!['\\'] + half(t));
        }
    }
}
pub proof fn lemma_one(d: Seq<u8>, i: int, e: int)
    requires 0 <= i < e <= d.len(), d[i] < 0x80
    ensures utf8(d.subrange(i, e)) == seq![d[i] as char] + utf8(d.subrange(i + 1, e))
{
    let a = d.subrange(i, i + 1);
    let b = d.subrange(i + 1, e);
    assert(d.subrange(i, e) =~= a + b);
    axiom_utf8_cut(a, b);
    axiom_utf8_bytes(a);
    assert(utf8(a) =~= seq![d[i] as char]);
}
/// The first character of a text starting with a plain byte is plain.
pub proof fn lemma_first(d: Seq<u8>, i: int, e: int, sym: u8)
    requires 0 <= i < e <= d.len(), sym == 39 || sym == 34, plain_byte(d[i], sym)
    ensures utf8(d.subrange(i, e)).len() > 0, utf8(d.subrange(i, e))[0] != '\\', utf8(d.subrange(i, e))[0] != sym as char
{
    broadcast use axiom_utf8_some;
    let p = |c: u8| c != 92 && c != sym;
    let b = d.subrange(0, e);
    lemma_run_bound(p, b, i);
    let j = run(p, b, i);
    lemma_run_bound(p, b, i + 1);
    assert(p(b[i]));
    assert(j > i);
    let a = d.subrange(i, j);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] != 92 && a[k] != sym by { assert(p(b[i + k])); }
    axiom_utf8_char(a, 92);
    axiom_utf8_char(a, sym);
    let r = d.subrange(j, e);
    if j < e { assert(b[j] == r[0]); }
    axiom_utf8_cut(a, r);
    assert(d.subrange(i, e) =~= a + r);
    assert(utf8(a + r)[0] == utf8(a)[0]);
    assert(92u8 as char == '\\');
}

/// Behind a gap without comments, all blanks are white too.
pub proof fn lemma_gap_stop(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures match m_gap(d, i, false) {
        Some(r) => i < r.0 <= run(p_blank(), d, r.0) <= d.len() && forall|k: int| i <= k < run(p_blank(), d, r.0) ==> white(#[trigger] d[k]),
        None => true,
    }
{
    lemma_gap(d, i);
    match m_gap(d, i, false) {
        Some(r) => {
            lemma_run_bound(p_blank(), d, r.0);
            assert forall|k: int| r.0 <= k < run(p_blank(), d, r.0) implies white(#[trigger] d[k]) by { assert(p_blank()(d[k])); }
        }
        None => {}
    }
}

/// `n` line breaks.
pub open spec fn nls(n: int) -> Seq<char> { rep_of('\n', n) }
/// The text of a quoted string goes on after `t` line breaks.
pub open spec fn qfold(v: Seq<char>, t0: int) -> Seq<char> {
    let t = if '\\'.suf(v) { t0 - 1 } else { t0 };
    if t < 1 { v }
    else if t == 1 { let x = trim_end(v); if seq!['\\', 'n'].is_suffix_of(x) { x } else { x.push(' ') } }
    else { v + nls(t - 1) }
}
/// The text which is read from `q` up to the closing quote.
#[verifier::opaque]
pub open spec fn qrun(d: Seq<u8>, q: int, v: Seq<char>, sym: u8) -> Seq<char>
    decreases d.len() - q
{
    let q1 = run(p_not_in(seq![10u8, 13u8, 92u8, sym]), d, q);
    let v1 = v + utf8(d.subrange(q, q1));
    if !(0 <= q <= q1 < d.len()) { v1 }
    else if sym == 34 && at(d, q1, 92) && at(d, q1 + 1, 92) { qrun(d, q1 + 2, v1 + seq!['\\', '\\'], sym) }
    else if sym == 34 && at(d, q1, 92) && at(d, q1 + 1, 34) { qrun(d, q1 + 2, v1.push('"'), sym) }
    else if sym == 39 && at(d, q1, 39) && at(d, q1 + 1, 39) { qrun(d, q1 + 2, v1.push('\''), sym) }
    else {
        match m_gap(d, q1, false) {
            Some(g) => {
                let e = run(p_blank(), d, g.0);
                if e <= q1 || e > d.len() { v1 } else { qrun(d, e, qfold(v1, g.1), sym) }
            }
            None => if at(d, q1, 92) { qrun(d, q1 + 1, v1.push('\\'), sym) } else { v1 },
        }
    }
}
/// The text of the quoted string at `i`.
#[verifier::opaque]
pub open spec fn quoted_fn(d: Seq<u8>, i: int, sym: u8) -> Seq<char> {
    let j = run(p_blank(), d, i + 1);
    qrun(d, j, utf8(d.subrange(i + 1, j)), sym)
}

// ---- plain strings

pub open spec fn nl_at(d: Seq<u8>, i: int) -> bool { at(d, i, 10) || at(d, i, 13) }
pub open spec fn bracket(c: u8) -> bool { c == 91 || c == 93 || c == 123 || c == 125 }
/// Where a line of a plain string from `i` ends.
pub open spec fn pstop(d: Seq<u8>, q: int, i: int, inner: bool) -> bool {
    q >= d.len() || nl_at(d, q)
    || (at(d, q, 58) && (q + 1 >= d.len() || at(d, q + 1, 32) || nl_at(d, q + 1)))
    || (at(d, q, 32) && at(d, q + 1, 35))
    || (bracket(d[q]) && (inner || q == i))
    || (d[q] == 44 && inner)
}
pub open spec fn plain_end(d: Seq<u8>, q: int, i: int, inner: bool) -> int
    decreases d.len() - q
{
    if pstop(d, q, i, inner) { q } else { plain_end(d, q + 1, i, inner) }
}
pub proof fn lemma_plain_end(d: Seq<u8>, q: int, j: int, i: int, inner: bool)
    requires 0 <= q <= j <= d.len(), forall|k: int| q <= k < j ==> !pstop(d, k, i, inner)
    ensures plain_end(d, q, i, inner) == plain_end(d, j, i, inner), j <= plain_end(d, q, i, inner) <= d.len(),
        pstop(d, plain_end(d, q, i, inner), i, inner)
    decreases d.len() - q
{
    if q < j { assert(!pstop(d, q, i, inner)); lemma_plain_end(d, q + 1, j, i, inner); }
    else if !pstop(d, q, i, inner) { lemma_plain_end(d, q + 1, q + 1, i, inner); }
}
/// The next line goes on with the same plain string.
pub open spec fn plain_cont(d: Seq<u8>, p: int, w: Seq<usize>, level: int) -> bool {
    nl_at(d, p) && m_gap(d, p, true) is Some && !doc_mark(d, m_gap(d, p, true)->Some_0.0) && m_ind(d, m_gap(d, p, true)->Some_0.0, w, level) is Some
}
pub open spec fn plain_text_of(d: Seq<u8>, i: int, inner: bool) -> Seq<char> { trim_end(utf8(d.subrange(i, plain_end(d, i, i, inner)))) }
/// The text grows by a run next to an ASCII byte.
pub proof fn lemma_grow(d: Seq<u8>, i: int, q: int, r: int)
    requires 0 <= i <= q <= r <= d.len(), i == q || q == r || d[q - 1] < 0x80 || d[q] < 0x80
    ensures utf8(d.subrange(i, r)) == utf8(d.subrange(i, q)) + utf8(d.subrange(q, r))
{
    assert(d.subrange(i, r) =~= d.subrange(i, q) + d.subrange(q, r));
    axiom_utf8_cut(d.subrange(i, q), d.subrange(q, r));
}
pub proof fn lemma_trim_ws(s: Seq<char>, c: char)
    requires ws_char(c)
    ensures trim_end(s.push(c)) == trim_end(s)
{
    assert(s.push(c).drop_last() =~= s);
}
/// Line breaks at the end are trimmed.
pub proof fn lemma_trim_nls(s: Seq<char>)
    ensures forall|k: int| trim_end(#[trigger] (s + rep_of('\n', k))) == trim_end(s)
{
    assert forall|k: int| trim_end(#[trigger] (s + rep_of('\n', k))) == trim_end(s) by { lemma_trim_nls_n(s, k); }
}
pub proof fn lemma_trim_nls_n(s: Seq<char>, k: int)
    ensures trim_end(s + rep_of('\n', k)) == trim_end(s)
    decreases k
{
    if k <= 0 { assert(s + rep_of('\n', k) =~= s); }
    else {
        assert(s + rep_of('\n', k) =~= (s + rep_of('\n', k - 1)).push('\n'));
        lemma_trim_ws(s + rep_of('\n', k - 1), '\n');
        lemma_trim_nls_n(s, k - 1);
    }
}

/// The bytes at which the loop of a plain string looks twice.
pub open spec fn pset(inner: bool) -> Seq<u8> {
    if inner { seq![91u8, 93, 123, 125, 58, 32, 10, 13, 44] } else { seq![91u8, 93, 123, 125, 58, 32, 10, 13] }
}
/// The text so far goes on after `t` line breaks.
pub open spec fn pfold(v: Seq<char>, t: int) -> Seq<char> { if t == 1 { v.push(' ') } else { v + nls(t - 1) } }
pub ghost struct PX { pub go: bool, pub q: int, pub w: Seq<usize>, pub v: Seq<char>, pub lead: bool }
/// One round of a plain string.
pub open spec fn pround(d: Seq<u8>, q: int, w: Seq<usize>, v: Seq<char>, lead: bool, level: int, inner: bool) -> PX {
    let q1 = run(p_not_in(pset(inner)), d, q);
    let v1 = v + utf8(d.subrange(q, q1));
    pround1(d, q1, w, v1, lead, level, inner)
}
pub open spec fn pround1(d: Seq<u8>, q1: int, w: Seq<usize>, v1: Seq<char>, lead: bool, level: int, inner: bool) -> PX {
    if q1 >= d.len() { PX { go: false, q: q1, w, v: v1, lead } }
    else if (at(d, q1, 58) && (q1 + 1 >= d.len() || at(d, q1 + 1, 32) || nl_at(d, q1 + 1))) || (at(d, q1, 32) && at(d, q1 + 1, 35)) { PX { go: false, q: q1, w, v: v1, lead } }
    else if d[q1] == 32 { PX { go: true, q: q1 + 1, w, v: (if lead { trim_end(v1) } else { v1 }) + utf8(d.subrange(q1, q1 + 1)), lead } }
    else if d[q1] == 58 { PX { go: true, q: q1 + 1, w, v: v1 + utf8(d.subrange(q1, q1 + 1)), lead } }
    else if !inner && v1.len() > 0 && bracket(d[q1]) { PX { go: true, q: q1 + 1, w, v: v1 + utf8(d.subrange(q1, q1 + 1)), lead: false } }
    else {
        match m_gap(d, q1, true) {
            Some(g) => {
                if doc_mark(d, g.0) { PX { go: false, q: q1, w, v: v1, lead } }
                else {
                    match m_ind(d, g.0, w, level) {
                        Some(e) => PX { go: true, q: e, w: ind_widths(w, level), v: pfold(v1, g.1), lead: true },
                        None => PX { go: false, q: q1, w: ind_widths(w, level), v: pfold(v1, g.1), lead },
                    }
                }
            }
            None => PX { go: false, q: gap_fail(d, q1, true), w, v: v1, lead },
        }
    }
}
/// The plain string read from `q`: its text, the cursor and the indentation.
#[verifier::opaque]
pub open spec fn prun(d: Seq<u8>, q: int, w: Seq<usize>, v: Seq<char>, lead: bool, level: int, inner: bool) -> (Seq<char>, int, Seq<usize>)
    decreases d.len() - q
{
    let x = pround(d, q, w, v, lead, level, inner);
    if x.go && q < x.q <= d.len() { prun(d, x.q, x.w, x.v, x.lead, level, inner) } else { (x.v, x.q, x.w) }
}
pub proof fn lemma_prun(d: Seq<u8>, q: int, w: Seq<usize>, v: Seq<char>, lead: bool, level: int, inner: bool)
    ensures ({
        let x = pround(d, q, w, v, lead, level, inner);
        prun(d, q, w, v, lead, level, inner) == (if x.go && q < x.q <= d.len() { prun(d, x.q, x.w, x.v, x.lead, level, inner) } else { (x.v, x.q, x.w) })
    })
{ reveal(prun); }
/// The plain string at `i`: its text, the cursor and the indentation behind it.
#[verifier::opaque]
pub open spec fn plain_fn(d: Seq<u8>, i: int, w: Seq<usize>, level: int, inner: bool) -> (Option<Seq<char>>, int, Seq<usize>) {
    if at(d, i, 35) { (None, i, w) }
    else {
        let x = prun(d, i, w, Seq::empty(), false, level, inner);
        let t = trim_end(x.0);
        (if t.len() > 0 { Some(t) } else { None }, x.1, x.2)
    }
}

// ---- block scalars

pub open spec fn rep(c: char, n: int) -> Seq<char> { rep_of(c, n) }
/// One more line of a literal (`keep`) or folded string.
pub open spec fn wrap_add(v: Seq<char>, s: Seq<char>, sep: char, keep: bool, first: bool) -> Seq<char> {
    if keep {
        if first { v + s } else { v.push(sep) + s }
    } else {
        let t = trim_start(s);
        if v.len() == 0 || ws_char(v.last()) { v + t } else { v.push(sep) + t }
    }
}
pub open spec fn doc_mark(d: Seq<u8>, i: int) -> bool { lit_at(d, i, seq![45u8, 45u8, 45u8]) || lit_at(d, i, seq![46u8, 46u8, 46u8]) }
/// Where the text of the next line starts, if there is one, with the line
/// breaks of the empty lines before it; else the end of the block.
pub open spec fn wrap_next(d: Seq<u8>, q1: int, n: int) -> (bool, int, int) {
    if q1 >= d.len() || doc_mark(d, q1) { (false, 0, q1 - 1) }
    else if spaces(d, q1, n) { (true, 0, q1 + n) }
    else {
        match m_gap(d, run(p_blank(), d, q1), false) {
            None => (false, 0, q1 - 1),
            Some(g) => if spaces(d, g.0, n) { (true, g.1, g.0 + n) } else { (false, g.1, q1 - 1) },
        }
    }
}
/// The lines of a block scalar from the line break at `q`: their text and
/// where they end.
pub open spec fn wrap(d: Seq<u8>, q: int, v: Seq<char>, n: int, sep: char, keep: bool, first: bool) -> Option<(Seq<char>, int)>
    decreases d.len() - q when 0 <= q <= d.len() && 0 <= n via wrap_dec
{
    match m_nl(d, q) {
        None => None,
        Some(q1) => {
            let x = wrap_next(d, q1, n);
            let v2 = v + rep('\n', x.1);
            if !x.0 { Some((v2, x.2)) } else {
                let e = run(p_line(), d, x.2);
                let v3 = wrap_add(v2, utf8(d.subrange(x.2, e)), sep, keep, first);
                if e >= d.len() { Some((v3, e)) } else { wrap(d, e, v3, n, sep, keep, false) }
            }
        }
    }
}
#[via_fn]
proof fn wrap_dec(d: Seq<u8>, q: int, v: Seq<char>, n: int, sep: char, keep: bool, first: bool) {
    match m_nl(d, q) { Some(q1) => lemma_wrap_next(d, q, q1, n), None => {} }
}
pub proof fn lemma_wrap_next(d: Seq<u8>, q: int, q1: int, n: int)
    requires 0 <= q <= d.len(), 0 <= n, m_nl(d, q) == Some(q1)
    ensures q < q1 <= d.len(), q <= wrap_next(d, q1, n).2 <= d.len(), 0 <= wrap_next(d, q1, n).1 <= d.len(),
        wrap_next(d, q1, n).0 ==> q1 <= wrap_next(d, q1, n).2 <= run(p_line(), d, wrap_next(d, q1, n).2) <= d.len(),
        q1 <= run(p_blank(), d, q1) <= d.len(),
{
    lemma_run_bound(p_blank(), d, q1);
    lemma_gap(d, run(p_blank(), d, q1));
    let x = wrap_next(d, q1, n);
    if x.0 { lemma_run_bound(p_line(), d, x.2); }
}
/// At a line break there is always a block.
pub proof fn lemma_wrap_some(d: Seq<u8>, q: int, v: Seq<char>, n: int, sep: char, keep: bool, first: bool)
    requires 0 <= q <= d.len(), 0 <= n
    ensures wrap(d, q, v, n, sep, keep, first) is Some == m_nl(d, q) is Some,
        match wrap(d, q, v, n, sep, keep, first) { Some(r) => q <= r.1 <= d.len(), None => true }
    decreases d.len() - q
{
    match m_nl(d, q) {
        None => {}
        Some(q1) => {
            lemma_wrap_next(d, q, q1, n);
            let x = wrap_next(d, q1, n);
            if x.0 {
                let e = run(p_line(), d, x.2);
                lemma_run_bound(p_line(), d, x.2);
                let v3 = wrap_add(v + rep('\n', x.1), utf8(d.subrange(x.2, e)), sep, keep, first);
                if e < d.len() { assert(!p_line()(d[e])); lemma_wrap_some(d, e, v3, n, sep, keep, false); }
            }
        }
    }
}
pub proof fn lemma_ind_twice(w: Seq<usize>, level: int)
    requires 0 <= level
    ensures ind_widths(ind_widths(w, level), level) == ind_widths(w, level)
{
    assert(ind_widths(w, level).len() == level + 1);
    assert(ind_widths(w, level).take(level + 1) =~= ind_widths(w, level));
}
pub proof fn lemma_starts(d: Seq<u8>, i: int, s: Seq<u8>)
    requires 0 <= i <= d.len()
    ensures s.is_prefix_of(d.subrange(i, d.len() as int)) == lit_at(d, i, s)
{
    let f = d.subrange(i, d.len() as int);
    if s.is_prefix_of(f) {
        assert(s =~= f.subrange(0, s.len() as int));
        assert forall|k: int| 0 <= k < s.len() implies d[i + k] == #[trigger] s[k] by { assert(s[k] == f.subrange(0, s.len() as int)[k]); }
    }
    if lit_at(d, i, s) { assert(s =~= f.subrange(0, s.len() as int)); }
}
/// Number of blanks of the indentation.
pub open spec fn ind_len(w: Seq<usize>, level: int) -> int { sum(ind_widths(w, level)) as int }
/// The end of a block scalar: `-` strips, `+` keeps, else one line break.
pub open spec fn chomped(kind: int, s: Seq<char>) -> Seq<char> {
    if kind == 0 { trim_end(s) } else if kind == 1 { s } else { trim_end(s) + seq!['\n'] }
}
/// The indentation behind the lines of a block scalar.
pub open spec fn wrap_ind(d: Seq<u8>, b: int, w: Seq<usize>, level: int) -> Seq<usize> {
    match m_nl(d, b) { Some(q) => if q >= d.len() || doc_mark(d, q) { w } else { ind_widths(w, level) }, None => w }
}
#[verifier::opaque]
pub open spec fn block_ind_fn(d: Seq<u8>, i: int, w: Seq<usize>, level: int, c: char) -> Seq<usize> {
    wrap_ind(d, run(p_blank(), d, if chomp_kind(d, i + 1) == 2 { i + 1 } else { i + 2 }), w, level)
}
pub open spec fn chomp_kind(d: Seq<u8>, i: int) -> int { if at(d, i, 45) { 0 } else if at(d, i, 43) { 1 } else { 2 } }
/// A block scalar: its text and its end.
pub open spec fn m_block(d: Seq<u8>, i: int, ind: char, n: int) -> Option<(Seq<char>, int)> {
    if !at(d, i, ind as u8) { None } else {
        let k = chomp_kind(d, i + 1);
        let b = run(p_blank(), d, if k == 2 { i + 1 } else { i + 2 });
        match wrap(d, b, Seq::empty(), n, if ind == '|' { '\n' } else { ' ' }, ind == '|', true) {
            Some(r) => Some((chomped(k, r.0 + seq!['\n']), r.1)),
            None => None,
        }
    }
}

// ---- tags

pub enum TagRes {
    /// No tag.
    No,
    /// An undefined handle.
    Undef,
    /// The tag and where it ends.
    Tag(Seq<char>, int),
}
pub open spec fn txt(d: Seq<u8>, i: int, e: int) -> Seq<char> { utf8(d.subrange(i, e)) }
/// An optional identifier.
pub open spec fn suffix(d: Seq<u8>, i: int, prefix: Seq<char>) -> TagRes {
    match m_ident(d, i) { Some(e) => TagRes::Tag(prefix + txt(d, i, e), e), None => TagRes::Tag(prefix, i) }
}
pub open spec fn p_full() -> spec_fn(u8) -> bool { p_not_in(seq![32u8, 60u8, 62u8, 10u8, 13u8]) }
pub open spec fn m_tag(d: Seq<u8>, i: int, tags: Map<Seq<char>, Seq<char>>) -> TagRes {
    let j = i + 1;
    if !at(d, i, 33) { TagRes::No }
    else {
        match m_ident(d, j) {
            Some(e) => if at(d, e, 33) {
                // !handle!name
                let h = txt(d, j, e);
                if tags.dom().contains(h) { suffix(d, e + 1, tags[h]) } else { TagRes::Undef }
            } else {
                // !name
                TagRes::Tag(txt(d, j, e), e)
            },
            None => if at(d, j, 60) {
                // !<text>
                let e = run(p_full(), d, j + 1);
                if e > j + 1 && at(d, e, 62) { suffix(d, e + 1, txt(d, j + 1, e)) } else { TagRes::No }
            } else if at(d, j, 33) {
                // !!name
                suffix(d, j + 1, tags["!!"@])
            } else {
                TagRes::Tag(tags["!"@], j)
            },
        }
    }
}
pub proof fn lemma_ident(d: Seq<u8>, i: int)
    requires 0 <= i
    ensures match m_ident(d, i) { Some(e) => i < e <= d.len(), None => true }
{
    if i < d.len() { lemma_run_bound(p_id(), d, i + 1); }
}

// ---- directives

pub enum DirRes {
    /// No directive.
    No,
    /// A second version, or a wrong one.
    Bad,
    /// Ends in front of the gap, the version is seen, a handle is declared.
    Dir(int, bool, Option<(Seq<char>, Seq<char>)>),
}
pub open spec fn version(d: Seq<u8>, i: int) -> bool { lit_at(d, i, seq![49u8, 46u8, 49u8]) || lit_at(d, i, seq![49u8, 46u8, 50u8]) }
pub open spec fn p_prefix() -> spec_fn(u8) -> bool { p_not_in(seq![32u8, 10u8, 13u8]) }
/// The declaration of a handle, from its `!`.
pub open spec fn m_handle(d: Seq<u8>, i: int) -> DirRes {
    let j = i + 1;
    let (h, e) = match m_ident(d, j) {
        Some(e) => (txt(d, j, e), if at(d, e, 33) { e + 1 } else { -1 }),
        None => if at(d, j, 33) { ("!!"@, j + 1) } else { ("!"@, j) },
    };
    if !at(d, i, 33) || e < 0 { DirRes::No } else {
        let b = run(p_blank(), d, e);
        let f = run(p_prefix(), d, b);
        if b > e && f > b { DirRes::Dir(f, false, Some((h, txt(d, b, f)))) } else { DirRes::No }
    }
}
/// A directive, from behind its `%`.
pub open spec fn m_dir(d: Seq<u8>, j: int, seen: bool) -> DirRes {
    if lit_at(d, j, seq![89u8, 65u8, 77u8, 76u8]) {
        let b = run(p_blank(), d, j + 4);
        if b == j + 4 { DirRes::No }
        else if seen || !version(d, b) { DirRes::Bad }
        else { DirRes::Dir(b + 3, true, None) }
    } else if lit_at(d, j, seq![84u8, 65u8, 71u8]) {
        let b = run(p_blank(), d, j + 3);
        if b == j + 3 { DirRes::No } else { m_handle(d, b) }
    } else { DirRes::Dir(run(p_line(), d, j), false, None) }
}
/// Where the cursor stays when there is no directive.
pub open spec fn handle_fail(d: Seq<u8>, j: int, i: int) -> int {
    if !at(d, i, 33) { j } else {
        let e = match m_ident(d, i + 1) { Some(e) => if at(d, e, 33) { e + 1 } else { -1 }, None => if at(d, i + 1, 33) { i + 2 } else { i + 1 } };
        if e < 0 || run(p_blank(), d, e) == e { i + 1 } else { run(p_blank(), d, e) }
    }
}
pub open spec fn dir_fail(d: Seq<u8>, j: int) -> int {
    if !lit_at(d, j, seq![89u8, 65u8, 77u8, 76u8]) && lit_at(d, j, seq![84u8, 65u8, 71u8]) {
        let b = run(p_blank(), d, j + 3);
        if b == j + 3 { j } else { handle_fail(d, j, b) }
    } else { j }
}
pub open spec fn dir_tags(m: DirRes, t: Map<Seq<char>, Seq<char>>) -> Map<Seq<char>, Seq<char>> {
    match m { DirRes::Dir(_, _, Some(h)) => t.insert(h.0, h.1), _ => t }
}
