// The grammar reads the documented form of regular trees back.

// ---- texts and bytes

pub open spec fn asc(t: Seq<char>) -> bool { forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k] as u32) < 0x80 }
pub open spec fn bytes(t: Seq<char>) -> Seq<u8> { Seq::new(t.len(), |k: int| t[k] as u8) }
/// The text stands at `i`.
pub open spec fn on(d: Seq<u8>, i: int, t: Seq<char>) -> bool {
    0 <= i && i + t.len() <= d.len() && forall|k: int| #![trigger d[i + k]] #![trigger t[k]] 0 <= k < t.len() ==> (t[k] as u32) < 0x80 && d[i + k] == t[k] as u8
}
pub proof fn lemma_on_cat(d: Seq<u8>, i: int, a: Seq<char>, b: Seq<char>)
    ensures on(d, i, a + b) == (on(d, i, a) && on(d, i + a.len(), b))
{
    if on(d, i, a + b) {
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k] as u32) < 0x80 && d[i + k] == a[k] as u8 by { assert((a + b)[k] == a[k]); }
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k] as u32) < 0x80 && d[i + a.len() + k] == b[k] as u8 by { assert((a + b)[a.len() + k] == b[k]); assert(d[i + (a.len() + k)] == b[k] as u8); }
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] d[i + k] == a[k] as u8 by { assert((a[k] as u32) < 0x80); }
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] d[i + a.len() + k] == b[k] as u8 && (b[k] as u32) < 0x80 by { assert((b[k] as u32) < 0x80); }
    }
    if on(d, i, a) && on(d, i + a.len(), b) {
        assert forall|k: int| 0 <= k < (a + b).len() implies (#[trigger] (a + b)[k] as u32) < 0x80 && d[i + k] == (a + b)[k] as u8 by {
            if k < a.len() { assert((a[k] as u32) < 0x80); } else { assert((b[k - a.len()] as u32) < 0x80); assert(d[i + a.len() + (k - a.len())] == b[k - a.len()] as u8); }
        }
        assert forall|k: int| 0 <= k < (a + b).len() implies #[trigger] d[i + k] == (a + b)[k] as u8 && ((a + b)[k] as u32) < 0x80 by { assert(((a + b)[k] as u32) < 0x80); }
    }
}
pub proof fn lemma_on_all(t: Seq<char>)
    requires asc(t)
    ensures on(bytes(t), 0, t), utf8(bytes(t)) == t, utf8_enc(t) == bytes(t), ascii(bytes(t))
{
    assert(ascii(bytes(t))) by { assert forall|k: int| 0 <= k < bytes(t).len() implies #[trigger] bytes(t)[k] < 0x80 by { assert((t[k] as u32) < 0x80); } }
    axiom_utf8_bytes(bytes(t));
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] utf8(bytes(t))[k] == t[k] by { lemma_char(t[k]); assert(utf8(bytes(t))[k] == bytes(t)[k] as char); }
    assert(utf8(bytes(t)) =~= t);
}
proof fn lemma_char(c: char)
    requires (c as u32) < 0x80
    ensures (c as u8) as char == c, c as u8 as u32 == c as u32
{}
/// The text of the bytes at `i`.
pub proof fn lemma_text(d: Seq<u8>, i: int, t: Seq<char>)
    requires on(d, i, t)
    ensures utf8(d.subrange(i, i + t.len())) == t
{
    let b = d.subrange(i, i + t.len());
    assert(b =~= bytes(t)) by { assert forall|k: int| 0 <= k < t.len() implies b[k] == #[trigger] bytes(t)[k] by { assert(d[i + k] == t[k] as u8); } }
    assert(asc(t));
    lemma_on_all(t);
}
pub proof fn lemma_on_part(d: Seq<u8>, i: int, t: Seq<char>, a: int, b: int)
    requires on(d, i, t), 0 <= a <= b <= t.len()
    ensures on(d, i + a, t.subrange(a, b)), utf8(d.subrange(i + a, i + b)) == t.subrange(a, b)
{
    assert(t =~= t.take(a) + (t.subrange(a, b) + t.skip(b)));
    lemma_on_cat(d, i, t.take(a), t.subrange(a, b) + t.skip(b));
    lemma_on_cat(d, i + a, t.subrange(a, b), t.skip(b));
    lemma_text(d, i + a, t.subrange(a, b));
}
pub proof fn lemma_on_spaces(d: Seq<u8>, i: int, lv: nat)
    requires on(d, i, dind(lv))
    ensures dind(lv).len() == 2 * lv, spaces(d, i, 2 * lv as int)
{
    lemma_dind(lv);
    assert forall|k: int| i <= k < i + 2 * lv implies #[trigger] d[k] == 32 by { assert(dind(lv)[k - i] == ' '); assert(d[i + (k - i)] == ' ' as u8); }
}
pub proof fn lemma_dind(lv: nat)
    ensures dind(lv).len() == 2 * lv, forall|k: int| 0 <= k < 2 * lv ==> #[trigger] dind(lv)[k] == ' '
    decreases lv
{
    reveal_strlit("  ");
    if lv > 0 { lemma_dind((lv - 1) as nat); }
}

// ---- gaps and indentation

/// A byte at which the contents of a line start.
pub open spec fn sol(c: u8) -> bool { !blank(c) && c != 10 && c != 13 && c != 35 }
/// The line at `q` has `n` spaces and something behind them, or it is the end of the text.
pub open spec fn line(d: Seq<u8>, q: int, n: int) -> bool { 0 <= q <= d.len() && 0 <= n && (q == d.len() || (spaces(d, q, n) && q + n < d.len() && sol(d[q + n]))) }
pub open spec fn is_line(d: Seq<u8>, q: int) -> bool { exists|n: int| line(d, q, n) }
pub proof fn lemma_here(d: Seq<u8>, i: int)
    requires 0 <= i < d.len(), sol(d[i])
    ensures run(p_blank(), d, i) == i, run(p_white(), d, i) == i, m_gap(d, i, true) is None, gap_fail(d, i, true) == i, skip_comment(d, i) == i, m_nl(d, i) is None
{ reveal_with_fuel(run, 2); assert(!p_blank()(d[i])); assert(!p_white()(d[i])); }
pub proof fn lemma_run_here(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len(), i < d.len() ==> !blank(d[i])
    ensures run(p_blank(), d, i) == i
{ if i < d.len() { assert(!p_blank()(d[i])); } }
pub proof fn lemma_spaces_run(d: Seq<u8>, i: int, n: int)
    requires spaces(d, i, n), 0 <= n, i + n == d.len() || !blank(d[i + n])
    ensures run(p_blank(), d, i) == i + n
{ lemma_run(p_blank(), d, i, i + n); }
pub proof fn lemma_spaces_white(d: Seq<u8>, i: int, n: int)
    requires spaces(d, i, n), 0 <= n, i + n == d.len() || sol(d[i + n])
    ensures run(p_white(), d, i) == i + n
{ lemma_run(p_white(), d, i, i + n); }
/// One line break in front of a line.
pub proof fn lemma_gap1(d: Seq<u8>, p: int, n: int)
    requires at(d, p, 10), line(d, p + 1, n)
    ensures m_gap(d, p, true) == Some((p + 1, 1int)), m_gap(d, p, false) == Some((p + 1, 1int)), run(p_blank(), d, p) == p
{
    lemma_run_here(d, p);
    assert(skip_comment(d, p) == p);
    assert(!at(d, p + 1, 13)) by { if p + 1 < d.len() && n > 0 { assert(d[p + 1] == 32); } }
    assert(m_nl(d, p) == Some(p + 1));
    lemma_lines0(d, p + 1, n);
}
pub proof fn lemma_lines0(d: Seq<u8>, q: int, n: int)
    requires line(d, q, n)
    ensures m_lines(d, q, true) == (q, 0int), m_lines(d, q, false) == (q, 0int)
{
    if q < d.len() {
        lemma_spaces_run(d, q, n);
        lemma_here(d, q + n);
    } else { lemma_run_here(d, q); }
}
/// An empty line in front of a line.
pub proof fn lemma_gap2(d: Seq<u8>, p: int, n: int)
    requires at(d, p, 10), at(d, p + 1, 10), line(d, p + 2, n)
    ensures m_gap(d, p, true) == Some((p + 2, 2int)), run(p_blank(), d, p) == p
{
    lemma_run_here(d, p); lemma_run_here(d, p + 1);
    assert(skip_comment(d, p) == p);
    assert(skip_comment(d, p + 1) == p + 1);
    assert(m_nl(d, p) == Some(p + 1));
    assert(!at(d, p + 2, 13)) by { if p + 2 < d.len() && n > 0 { assert(d[p + 2] == 32); } }
    assert(m_nl(d, p + 1) == Some(p + 2));
    lemma_lines0(d, p + 2, n);
    reveal_with_fuel(m_lines, 2);
}
pub proof fn lemma_sum_push(w: Seq<usize>, x: usize)
    ensures sum(w.push(x)) == sum(w) + x
{ assert(w.push(x).drop_last() =~= w); }
/// A level which is not there yet is two wide.
pub proof fn lemma_widen(w: Seq<usize>, k: int)
    requires 1 <= k, w.len() <= k
    ensures ind_widths(w, k) == ind_widths(w, k - 1).push(2), sum(ind_widths(w, k)) == sum(ind_widths(w, k - 1)) + 2, ind_widths(w, k).len() == k + 1
{
    if k - 1 >= w.len() {
        assert(ind_widths(w, k) =~= ind_widths(w, k - 1).push(2));
    } else {
        assert(w.take(k) =~= w);
        assert(ind_widths(w, k) =~= w.push(2));
    }
    lemma_sum_push(ind_widths(w, k - 1), 2);
}
pub proof fn lemma_lower(w: Seq<usize>, a: int, b: int)
    requires 0 <= b <= a
    ensures ind_widths(ind_widths(w, a), b) == ind_widths(w, b), ind_widths(w, b).len() == b + 1
{
    assert(ind_widths(w, b).len() == b + 1);
    assert(ind_widths(ind_widths(w, a), b) =~= ind_widths(w, b));
}
pub proof fn lemma_lower_push(w: Seq<usize>, a: int, x: usize)
    requires 0 <= a
    ensures ind_widths(ind_widths(w, a).push(x), a) == ind_widths(w, a), ind_widths(ind_widths(w, a).push(x), a + 1) == ind_widths(w, a).push(x),
        sum(ind_widths(w, a).push(x)) == sum(ind_widths(w, a)) + x
{
    let v = ind_widths(w, a).push(x);
    assert(ind_widths(v, a) =~= ind_widths(w, a));
    assert(ind_widths(v, a + 1) =~= v);
    lemma_sum_push(ind_widths(w, a), x);
}
/// Levels below stay the same when a higher one does.
pub proof fn lemma_keep(a: Seq<usize>, b: Seq<usize>, k: int, j: int)
    requires 0 <= j <= k, ind_widths(a, k) == ind_widths(b, k)
    ensures ind_widths(a, j) == ind_widths(b, j)
{ lemma_lower(a, k, j); lemma_lower(b, k, j); }

// ---- regular trees

pub open spec fn c_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn c_letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn c_word(c: char) -> bool { c_letter(c) || c_digit(c) || c == '_' || c == '-' || c == '.' || c == '/' }
pub open spec fn minus(t: Seq<char>) -> int { if t.len() > 0 && t[0] == '-' { 1 } else { 0 } }
/// An optional minus sign and decimal digits.
pub open spec fn int_txt(t: Seq<char>) -> bool { minus(t) < t.len() && forall|k: int| minus(t) <= k < t.len() ==> c_digit(#[trigger] t[k]) }
/// Digits on both sides of a point, the last one not zero.
pub open spec fn flo_at(t: Seq<char>, p: int) -> bool {
    &&& minus(t) < p < t.len() - 1 && t[p] == '.' && t.last() != '0'
    &&& forall|k: int| minus(t) <= k < t.len() && k != p ==> c_digit(#[trigger] t[k])
}
pub open spec fn flo_txt(t: Seq<char>) -> bool { exists|p: int| flo_at(t, p) }
/// Letters, digits and some signs with single spaces between them, from a letter on.
pub open spec fn row_txt(t: Seq<char>) -> bool {
    t.len() > 0 && c_letter(t[0]) && forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> c_word(t[k]) || (t[k] == ' ' && k + 1 < t.len() && c_word(t[k + 1]))
}
pub open spec fn leaf(y: Yaml) -> bool {
    match y {
        Yaml::Null => true,
        Yaml::Bool(_) => true,
        Yaml::Int(s) => int_txt(s@),
        Yaml::Float(s) => flo_txt(s@),
        Yaml::Str(s) => row_txt(s@) && word(s@) is Str,
        Yaml::Seq(v) => v@.len() == 0,
        Yaml::Map(m) => m.v@.len() == 0,
        Yaml::Alias(_) => false,
    }
}
pub open spec fn reg(y: Yaml) -> bool
    decreases y
{
    match y {
        Yaml::Seq(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i].tag@.len() == 0 && reg(*v@[i].yaml),
        Yaml::Map(m) => differ(m.v@) && forall|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() ==>
            m.v@[i].0.tag@.len() == 0 && m.v@[i].1.tag@.len() == 0 && reg(*m.v@[i].0.yaml) && reg(*m.v@[i].1.yaml),
        _ => leaf(y),
    }
}
/// No two keys are equal.
pub open spec fn differ(m: Seq<(Node, Node)>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> !neq(#[trigger] m[i].0, #[trigger] m[j].0) }
pub open spec fn no_tab() -> Seq<(Str, Node)> { Seq::empty() }
/// The text of a leaf.
pub open spec fn leaf_txt(y: Yaml) -> Seq<char> { dval(y, Root::Scalar, 0, no_tab()) }
/// `str::lines` of a text without line breaks.
#[verifier::external_body]
pub proof fn axiom_one_line(s: Seq<char>)
    requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '\n'
    ensures lines_of(s).len() <= 1
{}
/// What stands behind a leaf: a colon and a boundary, or a line break and a line which does not belong to it.
pub open spec fn ends(d: Seq<u8>, q: int, w: Seq<usize>, k: int) -> bool {
    (at(d, q, 58) && (at(d, q + 1, 32) || at(d, q + 1, 10)))
    || (at(d, q, 10) && is_line(d, q + 1) && (doc_mark(d, q + 1) || m_ind(d, q + 1, w, k) is None))
}
pub proof fn lemma_ends(d: Seq<u8>, q: int, w: Seq<usize>, k: int)
    requires ends(d, q, w, k)
    ensures
        0 <= q < d.len(), d[q] == 58 || d[q] == 10, run(p_blank(), d, q) == q, bound_byte(d[q]), m_num_bound(d, q) == Some(q),
        d[q] == 10 ==> m_gap(d, q, true) == Some((q + 1, 1int)),
{
    lemma_run_here(d, q);
    if d[q] == 10 { let x = q + 1; let n = choose|n: int| line(d, x, n); lemma_gap1(d, q, n); }
}
pub proof fn lemma_digits(d: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= d.len(), forall|k: int| i <= k < e ==> digit(#[trigger] d[k]), e == d.len() || !digit(d[e])
    ensures run(p_digit(), d, i) == e
{ assert forall|k: int| i <= k < e implies p_digit()(#[trigger] d[k]) by {} lemma_run(p_digit(), d, i, e); }
pub proof fn lemma_bytes_at(d: Seq<u8>, i: int, t: Seq<char>)
    requires on(d, i, t)
    ensures forall|k: int| #![trigger d[k]] i <= k < i + t.len() ==> d[k] == t[k - i] as u8 && (t[k - i] as u32) < 0x80
{ assert forall|k: int| #![trigger d[k]] i <= k < i + t.len() implies d[k] == t[k - i] as u8 && (t[k - i] as u32) < 0x80 by { assert(d[i + (k - i)] == t[k - i] as u8); } }
/// The number at `i`.
pub proof fn lemma_int(d: Seq<u8>, i: int, t: Seq<char>, w: Seq<usize>, k: int)
    requires on(d, i, t), int_txt(t), ends(d, i + t.len(), w, k)
    ensures g_number(d, i) == Some((Yaml::Int(str_of(t)), i + t.len()))
{
    let q = i + t.len();
    lemma_ends(d, q, w, k);
    lemma_bytes_at(d, i, t);
    let j = i + minus(t);
    assert forall|x: int| j <= x < q implies digit(#[trigger] d[x]) by { assert(c_digit(t[x - i])); }
    assert(at(d, i, 45) == (minus(t) == 1)) by { assert(d[i] == t[0] as u8); if minus(t) == 0 { assert(c_digit(t[0])); } }
    lemma_digits(d, j, q);
    assert(m_num_prefix(d, i) == Some(q));
    assert(m_float(d, i) is None);
    assert(m_sci(d, i) is None);
    assert(m_oct(d, q) is None && m_hexa(d, q) is None);
    lemma_text(d, i, t);
}
pub proof fn lemma_flo(d: Seq<u8>, i: int, t: Seq<char>, w: Seq<usize>, k: int)
    requires on(d, i, t), flo_txt(t), ends(d, i + t.len(), w, k)
    ensures g_number(d, i) == Some((Yaml::Float(str_of(t)), i + t.len()))
{
    let q = i + t.len();
    let p = choose|p: int| flo_at(t, p);
    lemma_ends(d, q, w, k);
    lemma_bytes_at(d, i, t);
    let j = i + minus(t);
    assert forall|x: int| j <= x < q && x != i + p implies digit(#[trigger] d[x]) by { assert(c_digit(t[x - i])); }
    assert(d[i + p] == 46);
    assert(at(d, i, 45) == (minus(t) == 1)) by { assert(d[i] == t[0] as u8); if minus(t) == 0 { assert(c_digit(t[0])); } }
    lemma_digits(d, j, i + p);
    assert(m_num_prefix(d, i) == Some(i + p));
    lemma_digits(d, i + p + 1, q);
    assert(m_float(d, i) == Some((q, q)));
    lemma_text(d, i, t);
    let b = d.subrange(i, q);
    assert(b[b.len() - 1] == t.last() as u8);
    assert(float_text(b) == b);
}
pub open spec fn ends_eof(d: Seq<u8>, q: int, w: Seq<usize>, k: int) -> bool { q == d.len() || ends(d, q, w, k) }
pub open spec fn kept_w(a: Seq<usize>, w: Seq<usize>, k: int) -> bool { a == w || a == ind_widths(w, k) }
proof fn lemma_pset(c: u8)
    ensures p_not_in(pset(false))(c) == !(c == 91 || c == 93 || c == 123 || c == 125 || c == 58 || c == 32 || c == 10 || c == 13)
{}
proof fn lemma_trim_row(t: Seq<char>)
    requires row_txt(t)
    ensures trim_end(t) == t, trim_end(t.push(' ')) == t
{
    assert(c_word(t.last()) || t.last() == ' ');
    assert(t.last() == t[t.len() - 1]);
    assert(!ws_char(t.last()));
    lemma_trim_ws(t, ' ');
}
proof fn lemma_row_mid(d: Seq<u8>, q1: int, w: Seq<usize>, v1: Seq<char>, k: int)
    requires 0 <= q1, q1 + 1 < d.len(), d[q1] == 32, d[q1 + 1] != 35
    ensures pround1(d, q1, w, v1, false, k, false) == (PX { go: true, q: q1 + 1, w, v: v1 + utf8(d.subrange(q1, q1 + 1)), lead: false })
{}
proof fn lemma_row_end(d: Seq<u8>, end: int, t: Seq<char>, w: Seq<usize>, k: int)
    requires 0 <= end, ends_eof(d, end, w, k), t.len() > 0
    ensures ({
        let x = pround1(d, end, w, t, false, k, false);
        !x.go && x.q == end && (x.v == t || x.v == t.push(' ')) && kept_w(x.w, w, k) && (at(d, end, 58) ==> x.w == w)
    })
{
    if end < d.len() { lemma_ends(d, end, w, k); }
    assert(pfold(t, 1) == t.push(' '));
}
proof fn lemma_row(d: Seq<u8>, i: int, t: Seq<char>, w: Seq<usize>, k: int, q: int)
    requires on(d, i, t), row_txt(t), i <= q <= i + t.len(), ends_eof(d, i + t.len(), w, k)
    ensures ({
        let x = prun(d, q, w, t.take(q - i), false, k, false);
        x.1 == i + t.len() && trim_end(x.0) == t && kept_w(x.2, w, k) && (at(d, i + t.len(), 58) ==> x.2 == w)
    })
    decreases i + t.len() - q
{
    hide(pround1); hide(ends); hide(m_ind); hide(m_gap);
    let end = i + t.len();
    let p = p_not_in(pset(false));
    let v = t.take(q - i);
    lemma_bytes_at(d, i, t);
    lemma_run_bound(p, d, q);
    let q1 = run(p, d, q);
    if end < d.len() { lemma_ends(d, end, w, k); lemma_pset(d[end]); if q1 > end { assert(p(d[end])); } }
    assert(q <= q1 <= end);
    lemma_on_part(d, i, t, q - i, q1 - i);
    let v1 = v + utf8(d.subrange(q, q1));
    assert(d.subrange(i + (q - i), i + (q1 - i)) =~= d.subrange(q, q1));
    assert(v1 =~= t.take(q1 - i));
    lemma_prun(d, q, w, v, false, k, false);
    lemma_trim_row(t);
    let x = pround(d, q, w, v, false, k, false);
    if q1 == end {
        assert(v1 =~= t);
        lemma_row_end(d, end, t, w, k);
        assert(!x.go && x.q == end);
    } else {
        lemma_pset(d[q1]);
        let c = t[q1 - i];
        assert(c_word(c) || c == ' ');
        assert(d[q1] == 32);
        assert(d[q1 + 1] == t[q1 + 1 - i] as u8);
        assert(c_word(t[q1 + 1 - i]));
        assert(d[q1 + 1] != 35);
        lemma_on_part(d, i, t, q1 - i, q1 + 1 - i);
        assert(d.subrange(i + (q1 - i), i + (q1 + 1 - i)) =~= d.subrange(q1, q1 + 1));
        assert(v1 + t.subrange(q1 - i, q1 + 1 - i) =~= t.take(q1 + 1 - i));
        lemma_row_mid(d, q1, w, v1, k);
        assert(x.go && x.q == q1 + 1 && x.w == w && !x.lead && x.v == t.take(q1 + 1 - i));
        lemma_row(d, i, t, w, k, q1 + 1);
    }
}
proof fn lemma_plain(d: Seq<u8>, i: int, t: Seq<char>, w: Seq<usize>, k: int)
    requires on(d, i, t), row_txt(t), ends_eof(d, i + t.len(), w, k)
    ensures ({
        let x = plain_fn(d, i, w, k, false);
        x.0 == Some(t) && x.1 == i + t.len() && kept_w(x.2, w, k) && (at(d, i + t.len(), 58) ==> x.2 == w)
    })
{
    reveal(plain_fn);
    lemma_bytes_at(d, i, t);
    assert(d[i] == t[0] as u8);
    lemma_row(d, i, t, w, k, i);
    assert(t.take(0) =~= Seq::<char>::empty());
}
/// The outcome of a term: its value and the state behind it.
pub open spec fn term_ok(e: GE, s: GS, k: int, y: Yaml, len: int, r: GR<Yaml>) -> bool {
    match r {
        GR::Ok(z, s1) => yeq(y, z) && s1.pos == s.pos + len && s.eaten <= s1.eaten <= s1.pos && s1.anc == s.anc && kept_w(s1.ind, s.ind, k)
            && (at(e.d, s.pos + len, 58) ==> s1.ind == s.ind),
        _ => false,
    }
}
proof fn lemma_no_number(d: Seq<u8>, i: int)
    requires 0 <= i < d.len(), d[i] != 45, !digit(d[i])
    ensures g_number(d, i) is None
{
    assert(!p_digit()(d[i]));
    assert(m_num_prefix(d, i) is None);
}
proof fn lemma_term_row(e: GE, s: GS, k: int, t: Seq<char>)
    requires on(e.d, s.pos, t), row_txt(t), ends(e.d, s.pos + t.len(), s.ind, k), s.eaten == s.pos
    ensures term_ok(e, s, k, word(t), t.len() as int, g_term(e, s, k, false))
{
    lemma_bytes_at(e.d, s.pos, t);
    assert(e.d[s.pos] == t[0] as u8);
    lemma_no_number(e.d, s.pos);
    lemma_plain(e.d, s.pos, t, s.ind, k);
    assert(g_alias(e, s) == GR::<Yaml>::Mis(back(s)));
    law_refl(word(t));
}
proof fn lemma_words(b: bool)
    ensures row_txt("null"@), row_txt("true"@), row_txt("false"@), word("null"@) == Yaml::Null, word("true"@) == Yaml::Bool(true), word("false"@) == Yaml::Bool(false)
{
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("~"); reveal_strlit("Null"); reveal_strlit("NULL"); reveal_strlit("True"); reveal_strlit("TRUE");
    let (n, t, f) = ("null"@, "true"@, "false"@);
    assert(n[0] == 'n' && n[1] == 'u' && n[2] == 'l' && n[3] == 'l');
    assert(t[0] == 't' && t[1] == 'r' && t[2] == 'u' && t[3] == 'e');
    assert(f[0] == 'f' && f[1] == 'a' && f[2] == 'l' && f[3] == 's' && f[4] == 'e');
    assert(t != "~"@ && t != n && f != "~"@ && f != n) by { assert(t[0] != n[0]); assert(f.len() != n.len()); assert("~"@.len() == 1); }
    assert("Null"@[0] == 'N' && "NULL"@[0] == 'N' && "True"@[0] == 'T' && "TRUE"@[0] == 'T');
}
proof fn lemma_empty_plain(d: Seq<u8>, i: int, w: Seq<usize>, k: int)
    requires 0 <= i < d.len(), d[i] == 91 || d[i] == 123
    ensures plain_fn(d, i, w, k, false) == (None::<Seq<char>>, i, w)
{
    broadcast use axiom_utf8_empty;
    reveal(plain_fn);
    lemma_pset(d[i]);
    assert(run(p_not_in(pset(false)), d, i) == i);
    assert(d.subrange(i, i) =~= Seq::<u8>::empty());
    assert(Seq::<char>::empty() + utf8(d.subrange(i, i)) =~= Seq::<char>::empty());
    lemma_here(d, i);
    lemma_prun(d, i, w, Seq::empty(), false, k, false);
}
proof fn lemma_term_brackets(e: GE, s: GS, k: int, y: Yaml)
    requires on(e.d, s.pos, leaf_txt(y)), y is Seq || y is Map, leaf(y), s.eaten == s.pos
    ensures term_ok(e, s, k, y, 2, g_term(e, s, k, false)), leaf_txt(y).len() == 2
{
    broadcast use group_values;
    reveal_strlit("[]"); reveal_strlit("{}");
    let t = leaf_txt(y);
    lemma_bytes_at(e.d, s.pos, t);
    assert(e.d[s.pos] == t[0] as u8 && e.d[s.pos + 1] == t[1] as u8);
    lemma_no_number(e.d, s.pos);
    lemma_empty_plain(e.d, s.pos, s.ind, k);
    assert(g_alias(e, s) == GR::<Yaml>::Mis(back(s)));
    let s2 = to(s, s.pos + 1);
    lemma_here(e.d, s.pos + 1);
    if y is Seq {
        assert(g_items(e, s2, k, Seq::empty()) == GR::Ok(y_seq(Seq::empty()), fwd(to(fwd(s2), s.pos + 2))));
    } else {
        assert(g_seq_flow(e, s, k) == GR::<Yaml>::Mis(s));
        assert(g_pairs(e, s2, k, Seq::empty()) == GR::Ok(y_map(Seq::empty()), fwd(to(fwd(s2), s.pos + 2))));
    }
}
proof fn lemma_term(e: GE, s: GS, k: int, y: Yaml)
    requires leaf(y), on(e.d, s.pos, leaf_txt(y)), ends(e.d, s.pos + leaf_txt(y).len(), s.ind, k), s.eaten == s.pos
    ensures term_ok(e, s, k, y, leaf_txt(y).len() as int, g_term(e, s, k, false))
{
    broadcast use group_of;
    let t = leaf_txt(y);
    lemma_words(true);
    match y {
        Yaml::Int(x) => { lemma_int(e.d, s.pos, t, s.ind, k); law_refl(y); }
        Yaml::Float(x) => { lemma_flo(e.d, s.pos, t, s.ind, k); law_refl(y); }
        Yaml::Str(x) => { lemma_str(x, 0); lemma_term_row(e, s, k, t); }
        Yaml::Null => { lemma_term_row(e, s, k, t); }
        Yaml::Bool(b) => { lemma_term_row(e, s, k, t); }
        _ => { lemma_term_brackets(e, s, k, y); }
    }
}
/// A word is written as it is.
proof fn lemma_str(x: Str, lv: nat)
    requires row_txt(x@)
    ensures dstr(x@, lv) == x@
{
    let t = x@;
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != '\n' by {}
    axiom_one_line(t);
    assert(asc(t)) by { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j] as u32) < 0x80 by {} }
    lemma_on_all(t);
    lemma_plain(bytes(t), 0, t, seq![0usize], 0);
}

// ---- the places of values

/// The first byte of a leaf.
pub open spec fn leaf_byte(c: u8) -> bool { (97 <= c <= 122) || (65 <= c <= 90) || digit(c) || c == 45 || c == 91 || c == 123 }
/// The contents of a line which are no item of a sequence and no mark of a document.
pub open spec fn key_at(d: Seq<u8>, i: int) -> bool { 0 <= i < d.len() && (leaf_byte(d[i]) || d[i] == 63) && m_dash(d, i) is None && !at_doc_end(d, i) }
proof fn lemma_leaf_first(d: Seq<u8>, i: int, y: Yaml)
    requires leaf(y), on(d, i, leaf_txt(y))
    ensures key_at(d, i), leaf_byte(d[i]), leaf_txt(y).len() > 0
{
    let t = leaf_txt(y);
    lemma_bytes_at(d, i, t);
    lemma_words(true);
    reveal_strlit("[]"); reveal_strlit("{}");
    match y {
        Yaml::Str(x) => { lemma_str(x, 0); }
        Yaml::Float(x) => { let p = choose|p: int| flo_at(t, p); if minus(t) == 0 { assert(c_digit(t[0])); } else { assert(c_digit(t[1])); assert(d[i + 1] == t[1] as u8); } }
        Yaml::Int(x) => { if minus(t) == 0 { assert(c_digit(t[0])); } else { assert(c_digit(t[1])); assert(d[i + 1] == t[1] as u8); } }
        _ => {}
    }
    assert(d[i] == t[0] as u8);
}
/// The line behind a value belongs to a parent: at most `c` spaces, no item of a sequence at `c`.
pub open spec fn nextl(d: Seq<u8>, q: int, n: int, c: int, nd: bool) -> bool {
    line(d, q, n) && q < d.len() && n <= c && (nd && n == c ==> m_dash(d, q + n) is None)
}
pub open spec fn has_nextl(d: Seq<u8>, q: int, c: int, nd: bool) -> bool { exists|n: int| nextl(d, q, n, c, nd) }
pub open spec fn follow(d: Seq<u8>, p: int, c: int, nd: bool) -> bool { at(d, p, 10) && (at_doc_end(d, p + 1) || has_nextl(d, p + 1, c, nd)) }
proof fn lemma_doc_end_line(d: Seq<u8>, q: int)
    requires at_doc_end(d, q), 0 <= q <= d.len()
    ensures line(d, q, 0)
{
    let a = seq![45u8, 45u8, 45u8];
    let b = seq![46u8, 46u8, 46u8];
    if q < d.len() { if lit_at(d, q, a) { assert(d[q + 0] == a[0]); } else { assert(d[q + 0] == b[0]); } }
}
proof fn lemma_follow_line(d: Seq<u8>, p: int, c: int, nd: bool)
    requires follow(d, p, c, nd)
    ensures is_line(d, p + 1), m_gap(d, p, true) == Some((p + 1, 1int)), run(p_blank(), d, p) == p, p + 1 <= d.len()
{
    let q = p + 1;
    if at_doc_end(d, q) { lemma_doc_end_line(d, q); lemma_gap1(d, p, 0); }
    else { let n = choose|n: int| nextl(d, q, n, c, nd); lemma_gap1(d, p, n); assert(line(d, q, n)); }
}
/// A line with less spaces.
proof fn lemma_short(d: Seq<u8>, q: int, n: int, m: int)
    requires line(d, q, n), n < m
    ensures !spaces(d, q, m)
{ if q < d.len() { if spaces(d, q, m) { assert(d[q + n] == 32); } } }
proof fn lemma_follow_ends(d: Seq<u8>, p: int, c: int, nd: bool, w: Seq<usize>, k: int)
    requires follow(d, p, c, nd), 0 <= k, sum(ind_widths(w, k)) > c, sum(ind_widths(w, k)) > 0
    ensures ends(d, p, w, k)
{
    let q = p + 1;
    lemma_follow_line(d, p, c, nd);
    let m = sum(ind_widths(w, k)) as int;
    if at_doc_end(d, q) { if q >= d.len() { assert(!spaces(d, q, m)); } else { assert(doc_mark(d, q)); } }
    else { let n = choose|n: int| nextl(d, q, n, c, nd); lemma_short(d, q, n, m); }
}
/// The value at `s` was read up to `len` bytes further, the widths up to level `j` are kept.
pub open spec fn val_ok(s: GS, j: int, y: Yaml, end: int, r: GR<Yaml>) -> bool {
    match r { GR::Ok(z, s1) => yeq(y, z) && s1.pos == end && s1.anc == s.anc && ind_widths(s1.ind, j) == ind_widths(s.ind, j), _ => false }
}
pub open spec fn node_ok(s: GS, j: int, n: Node, end: int, r: GR<Node>) -> bool {
    match r { GR::Ok(z, s1) => neq(n, z) && s1.pos == end && s1.eaten == end && s1.anc == s.anc && ind_widths(s1.ind, j) == ind_widths(s.ind, j), _ => false }
}
proof fn lemma_props(e: GE, s: GS)
    requires s.eaten == s.pos, 0 <= s.pos < e.d.len(), e.d[s.pos] != 38, e.d[s.pos] != 33
    ensures g_props(e, s) == GR::Ok((Seq::<char>::empty(), Seq::<char>::empty()), s)
{
    assert(g_anchor(e, s) == (Seq::<char>::empty(), s));
    assert(g_p1(e, s) == GR::Ok(Seq::<char>::empty(), s));
    assert(m_tag(e.d, s.pos, e.tags) == TagRes::No);
    assert(g_p2(e, s) == GR::Ok(Seq::<char>::empty(), s));
    assert(g_p3(e, s, Seq::empty()) == GR::Ok(Seq::<char>::empty(), s));
}
proof fn lemma_scalar(e: GE, s: GS, k: int, map: bool, n: Node, end: int, j: int)
    requires s.eaten == s.pos, 0 <= s.pos < e.d.len(), e.d[s.pos] != 38, e.d[s.pos] != 33, val_ok(s, j, yv(n), end, g_value(e, s, k, map, false))
    ensures node_ok(s, j, n, end, g_scalar(e, s, k, map, false))
{
    broadcast use group_values;
    lemma_props(e, s);
}
proof fn lemma_scalar_flow(e: GE, s: GS, k: int, n: Node, end: int, j: int)
    requires s.eaten == s.pos, 0 <= s.pos < e.d.len(), e.d[s.pos] != 38, e.d[s.pos] != 33, val_ok(s, j, yv(n), end, g_term(e, s, k, false))
    ensures node_ok(s, j, n, end, g_scalar_flow(e, s, k, false)), g_scalar_flow(e, s, k, false)->Ok_1.ind == g_term(e, s, k, false)->Ok_1.ind
{
    broadcast use group_values;
    lemma_props(e, s);
}
proof fn lemma_no_block(e: GE, s: GS, k: int)
    requires 0 <= s.pos < e.d.len(), e.d[s.pos] != 124, e.d[s.pos] != 62
    ensures g_block(e, s, k, '|') is None, g_block(e, back(s), k, '>') is None || s.eaten != s.pos
{}
/// A leaf behind a colon.
proof fn lemma_leaf_value(e: GE, s: GS, k: int, y: Yaml)
    requires leaf(y), on(e.d, s.pos, leaf_txt(y)), s.eaten == s.pos, k >= 1, ends(e.d, s.pos + leaf_txt(y).len(), s.ind, k)
    ensures val_ok(s, k - 1, y, s.pos + leaf_txt(y).len(), g_value(e, s, k, true, false))
{
    lemma_leaf_first(e.d, s.pos, y);
    lemma_here(e.d, s.pos);
    lemma_no_block(e, s, k);
    assert(g_place(e, s, k, true, false) == GR::<()>::Mis(s));
    assert(g_seq(e, s, k, true) == GR::<Yaml>::Mis(s));
    assert(g_map1(e, s, k, true, false) == GR::<Yaml>::Mis(s));
    assert(g_map(e, s, k, true, false) == GR::<Yaml>::Mis(s));
    lemma_term(e, s, k, y);
    lemma_lower(s.ind, k, k - 1);
}
/// A leaf in front of a colon.
proof fn lemma_leaf_key(e: GE, s: GS, k: int, n: Node)
    requires leaf(yv(n)), on(e.d, s.pos, leaf_txt(yv(n))), s.eaten == s.pos, k >= 0, ends(e.d, s.pos + leaf_txt(yv(n)).len(), s.ind, k + 1)
    ensures node_ok(s, k, n, s.pos + leaf_txt(yv(n)).len(), g_key(e, s, k, false)),
        at(e.d, s.pos + leaf_txt(yv(n)).len(), 58) ==> g_key(e, s, k, false)->Ok_1.ind == s.ind
{
    lemma_leaf_first(e.d, s.pos, yv(n));
    lemma_term(e, s, k + 1, yv(n));
    lemma_lower(s.ind, k + 1, k);
    lemma_scalar_flow(e, s, k + 1, n, s.pos + leaf_txt(yv(n)).len(), k);
}
/// A map, or a leaf, on the same line.
proof fn lemma_here_value(e: GE, s: GS, k: int)
    requires s.eaten == s.pos, key_at(e.d, s.pos), k >= 0, !(g_first(e, s, k, false) is Mis)
    ensures g_value(e, s, k, false, false) == g_first(e, s, k, false)
{
    lemma_here(e.d, s.pos);
    lemma_no_block(e, s, k);
    assert(g_place(e, s, k, false, false) == GR::<()>::Ok((), s));
    assert(g_seq(e, s, k, false) == GR::<Yaml>::Mis(s));
    assert(g_place(e, s, k, false, true) == GR::<()>::Ok((), s));
    assert(g_map1(e, s, k, false, false) == g_first(e, s, k, false));
    assert(g_map(e, s, k, false, false) == g_first(e, s, k, false));
}
/// A leaf behind a dash.
proof fn lemma_leaf_item(e: GE, s: GS, k: int, y: Yaml)
    requires leaf(y), on(e.d, s.pos, leaf_txt(y)), s.eaten == s.pos, k >= 0, at(e.d, s.pos + leaf_txt(y).len(), 10), ends(e.d, s.pos + leaf_txt(y).len(), s.ind, k + 1)
    ensures val_ok(s, k, y, s.pos + leaf_txt(y).len(), g_value(e, s, k, false, false))
{
    broadcast use group_values;
    let n = node_of(0, Seq::empty(), y);
    let q = s.pos + leaf_txt(y).len();
    lemma_leaf_first(e.d, s.pos, y);
    lemma_leaf_key(e, s, k, n);
    lemma_ends(e.d, q, s.ind, k + 1);
    assert(m_colon(e.d, q) is None);
    lemma_here_value(e, s, k);
}
pub open spec fn moved(s: GS, p: int, w: Seq<usize>) -> GS { GS { pos: p, eaten: p, ind: w, anc: s.anc } }
/// A dash, a blank and something behind them.
pub open spec fn dash_at(d: Seq<u8>, i: int) -> bool { at(d, i, 45) && at(d, i + 1, 32) && i + 2 < d.len() && !blank(d[i + 2]) }
proof fn lemma_dash(d: Seq<u8>, i: int)
    requires dash_at(d, i)
    ensures m_dash(d, i) == Some(i + 2), sol(d[i]), !at_doc_end(d, i)
{
    let a = seq![45u8, 45u8, 45u8];
    let b = seq![46u8, 46u8, 46u8];
    if lit_at(d, i, a) { assert(d[i + 1] == a[1]); }
    if lit_at(d, i, b) { assert(d[i + 0] == b[0]); }
    lemma_run(p_blank(), d, i + 1, i + 2);
}
pub open spec fn col(w: Seq<usize>, k: int) -> int { sum(ind_widths(w, k)) as int }
/// The line breaks at `p` end at `q`.
pub open spec fn gap_to(d: Seq<u8>, p: int, q: int) -> bool { match m_gap(d, p, true) { Some(g) => g.0 == q && p < q, None => false } }
/// A sequence below a key.
proof fn lemma_seq_value(e: GE, s: GS, k: int, q: int, own: int)
    requires
        s.eaten == s.pos, k >= 1, at(e.d, s.pos, 10), gap_to(e.d, s.pos, q), line(e.d, q, own), dash_at(e.d, q + own), col(s.ind, k - 1) <= own,
        !(g_entry(e, moved(s, q + own + 2, ind_widths(s.ind, k - 1).push((own - col(s.ind, k - 1)) as usize)), k, Seq::empty()) is Mis),
    ensures
        g_value(e, s, k, true, false) == g_entry(e, moved(s, q + own + 2, ind_widths(s.ind, k - 1).push((own - col(s.ind, k - 1)) as usize)), k, Seq::empty()),
{
    let c = col(s.ind, k - 1);
    lemma_no_block(e, s, k);
    lemma_dash(e.d, q + own);
    assert(spaces(e.d, q, c));
    assert(spaces(e.d, q + c, own - c));
    lemma_spaces_white(e.d, q + c, own - c);
    let s1 = GS { pos: q + own, ind: ind_widths(s.ind, k - 1).push((own - c) as usize), ..s };
    assert(g_place(e, s, k, true, false) == GR::<()>::Ok((), s1));
    assert(g_seq(e, s, k, true) == g_entry(e, fwd(to(s1, q + own + 2)), k, Seq::empty()));
}
/// A map below a key.
proof fn lemma_map_value(e: GE, s: GS, k: int, q: int, own: int)
    requires
        s.eaten == s.pos, k >= 1, at(e.d, s.pos, 10), gap_to(e.d, s.pos, q), line(e.d, q, own), key_at(e.d, q + own), col(s.ind, k - 1) < own,
        !(g_first(e, moved(s, q + own, ind_widths(s.ind, k - 1).push((own - col(s.ind, k - 1)) as usize)), k, false) is Mis),
    ensures
        g_value(e, s, k, true, false) == g_first(e, moved(s, q + own, ind_widths(s.ind, k - 1).push((own - col(s.ind, k - 1)) as usize)), k, false),
{
    let c = col(s.ind, k - 1);
    let w = ind_widths(s.ind, k - 1).push((own - c) as usize);
    lemma_no_block(e, s, k);
    assert(spaces(e.d, q, c));
    assert(spaces(e.d, q + c, own - c));
    lemma_spaces_white(e.d, q + c, own - c);
    lemma_spaces_run(e.d, q + c, own - c);
    lemma_lower(s.ind, k - 1, k - 1);
    lemma_lower_push(s.ind, k - 1, (own - c) as usize);
    let s1 = GS { pos: q + own, ind: w, ..s };
    assert(g_place(e, s, k, true, false) == GR::<()>::Ok((), s1));
    let s2 = GS { ind: w, ..s };
    assert(g_seq(e, s, k, true) == GR::<Yaml>::Mis(s2));
    assert(has_ind(e, to(s2, q), k - 1));
    assert(indented(e, to(s2, q), k - 1) == (GS { pos: q + c, ind: ind_widths(s.ind, k - 1), ..s }));
    assert(g_place(e, s2, k, true, true) == GR::<()>::Ok((), s1));
    assert(g_map1(e, s2, k, true, false) == g_first(e, fwd(s1), k, false));
    assert(g_map(e, s2, k, true, false) == g_first(e, fwd(s1), k, false));
}
/// A sequence below a dash.
proof fn lemma_seq_item(e: GE, s: GS, k: int)
    requires
        s.eaten == s.pos, k >= 0, at(e.d, s.pos, 10), line(e.d, s.pos + 1, col(s.ind, k)), dash_at(e.d, s.pos + 1 + col(s.ind, k)),
        !(g_entry(e, moved(s, s.pos + 3 + col(s.ind, k), ind_widths(s.ind, k)), k, Seq::empty()) is Mis),
    ensures
        g_value(e, s, k, false, false) == g_entry(e, moved(s, s.pos + 3 + col(s.ind, k), ind_widths(s.ind, k)), k, Seq::empty()),
{
    let c = col(s.ind, k);
    let q = s.pos + 1;
    lemma_no_block(e, s, k);
    lemma_gap1(e.d, s.pos, c);
    lemma_dash(e.d, q + c);
    let s1 = GS { pos: q + c, ind: ind_widths(s.ind, k), ..s };
    assert(g_place(e, s, k, false, false) == GR::<()>::Ok((), s1));
    assert(g_seq(e, s, k, false) == g_entry(e, fwd(to(s1, q + c + 2)), k, Seq::empty()));
}
/// A sequence at the start of a document.
proof fn lemma_seq_root(e: GE, s: GS, k: int)
    requires s.eaten == s.pos, k >= 0, dash_at(e.d, s.pos), !(g_entry(e, moved(s, s.pos + 2, s.ind), k, Seq::empty()) is Mis)
    ensures g_value(e, s, k, false, false) == g_entry(e, moved(s, s.pos + 2, s.ind), k, Seq::empty())
{
    lemma_no_block(e, s, k);
    lemma_dash(e.d, s.pos);
    lemma_here(e.d, s.pos);
    assert(g_place(e, s, k, false, false) == GR::<()>::Ok((), s));
    assert(g_seq(e, s, k, false) == g_entry(e, fwd(to(s, s.pos + 2)), k, Seq::empty()));
}

// ---- the places of items and pairs

/// A collection on its own lines.
pub open spec fn block(y: Yaml) -> bool { match y { Yaml::Seq(v) => v@.len() > 0, Yaml::Map(m) => m.v@.len() > 0, _ => false } }
#[verifier::spinoff_prover]
proof fn lemma_reg_leaf(y: Yaml)
    requires reg(y)
    ensures block(y) || leaf(y), !(block(y) && leaf(y))
{}
/// The text of a leaf is the same everywhere.
#[verifier::spinoff_prover]
proof fn lemma_leaf_txt(y: Yaml, root: Root, lv: nat)
    requires leaf(y)
    ensures dval(y, root, lv, no_tab()) == leaf_txt(y)
{
    match y { Yaml::Str(x) => { lemma_str(x, lv); lemma_str(x, 0); } _ => {} }
}
/// Nothing is written in front of a value without tag when there are no anchors.
#[verifier::spinoff_prover]
proof fn lemma_no_props(n: Node, t: Seq<char>)
    requires n.tag@.len() == 0
    ensures danchor(n, no_tab()) + dtag(n) + t == t
{
    lemma_core_tags();
    assert(afind(no_tab(), n, 0) is None);
    assert(danchor(n, no_tab()) + dtag(n) + t =~= t);
}
pub open spec fn dv(y: Yaml, root: Root, lv: int) -> Seq<char> { dval(y, root, lv as nat, no_tab()) }
pub open spec fn vdd(v: Vec<Node>, k: int, lv: int) -> Seq<char> { ditems(v, k as nat, lv as nat, no_tab()) }
pub open spec fn mdd(m: LMap, k: int, root: Root, lv: int) -> Seq<char> { dpairs(m, k as nat, root, lv as nat, no_tab()) }
pub open spec fn itx(v: Vec<Node>, j: int, lv: int) -> Seq<char> { dv(*v@[j].yaml, Root::Array, lv + 1) }
pub open spec fn ktx(m: LMap, j: int, lv: int) -> Seq<char> { dv(*m.v@[j].0.yaml, Root::Map, lv + 1) }
pub open spec fn vlv(m: LMap, j: int, root: Root, lv: int) -> int { if *m.v@[j].1.yaml is Seq && root is Array && j == 0 { lv } else { lv + 1 } }
pub open spec fn vtx(m: LMap, j: int, root: Root, lv: int) -> Seq<char> { dv(*m.v@[j].1.yaml, Root::Map, vlv(m, j, root, lv)) }
#[verifier::spinoff_prover]
proof fn lemma_items_step(v: Vec<Node>, j: int, lv: int)
    requires reg(Yaml::Seq(v)), 0 <= j < v@.len(), 0 <= lv
    ensures vdd(v, j + 1, lv) == ditem(vdd(v, j, lv), itx(v, j, lv), j > 0 || lv > 0, lv as nat)
{
    assert(v@[j].tag@.len() == 0);
    lemma_no_props(v@[j], itx(v, j, lv));
    assert((j + 1) as nat - 1 == j as nat);
}
#[verifier::spinoff_prover]
proof fn lemma_pairs_step(m: LMap, j: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= j < m.v@.len(), 0 <= lv
    ensures mdd(m, j + 1, root, lv) == dpair(mdd(m, j, root, lv), m.v@[j].0, ktx(m, j, lv), vtx(m, j, root, lv), j > 0 || root is Map, lv as nat)
{
    assert(m.v@[j].0.tag@.len() == 0 && m.v@[j].1.tag@.len() == 0);
    lemma_no_props(m.v@[j].0, ktx(m, j, lv));
    lemma_no_props(m.v@[j].1, vtx(m, j, root, lv));
    assert((j + 1) as nat - 1 == j as nat);
}
/// The first items are at the start.
#[verifier::spinoff_prover]
proof fn lemma_items_on(d: Seq<u8>, b: int, v: Vec<Node>, n: int, j: int, lv: int)
    requires reg(Yaml::Seq(v)), 0 <= j <= n <= v@.len(), 0 <= lv, on(d, b, vdd(v, n, lv))
    ensures on(d, b, vdd(v, j, lv))
    decreases n - j
{
    if j < n {
        lemma_items_step(v, n - 1, lv);
        let (pre, it, lw) = (vdd(v, n - 1, lv), itx(v, n - 1, lv), lv as nat);
        let a = if n - 1 > 0 || lv > 0 { pre + dind(lw) } else { pre };
        lemma_on_cat(d, b, a + seq!['-', ' '] + it, nl());
        lemma_on_cat(d, b, a + seq!['-', ' '], it);
        lemma_on_cat(d, b, a, seq!['-', ' ']);
        lemma_on_cat(d, b, pre, dind(lw));
        lemma_items_on(d, b, v, n - 1, j, lv);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_pairs_on(d: Seq<u8>, b: int, m: LMap, n: int, j: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= j <= n <= m.v@.len(), 0 <= lv, on(d, b, mdd(m, n, root, lv))
    ensures on(d, b, mdd(m, j, root, lv))
    decreases n - j
{
    if j < n {
        lemma_pairs_step(m, n - 1, root, lv);
        let (pre, kt, vt, lw) = (mdd(m, n - 1, root, lv), ktx(m, n - 1, lv), vtx(m, n - 1, root, lv), lv as nat);
        let key = m.v@[n - 1].0;
        let a = if n - 1 > 0 || root is Map { pre + dind(lw) } else { pre };
        let bb = if dblock(key) { a + seq!['?'] + dind(lw + 1) + nl() + kt + nl() + dind(lw) } else { a + kt };
        let c = bb + seq![':'];
        let dd = if nl().is_prefix_of(vt) { c } else { c + seq![' '] };
        lemma_on_cat(d, b, dd + vt, nl());
        lemma_on_cat(d, b, dd, vt);
        lemma_on_cat(d, b, c, seq![' ']);
        lemma_on_cat(d, b, bb, seq![':']);
        if dblock(key) {
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl() + kt + nl(), dind(lw));
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl() + kt, nl());
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl(), kt);
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1), nl());
            lemma_on_cat(d, b, a + seq!['?'], dind(lw + 1));
            lemma_on_cat(d, b, a, seq!['?']);
        } else { lemma_on_cat(d, b, a, kt); }
        lemma_on_cat(d, b, pre, dind(lw));
        lemma_pairs_on(d, b, m, n - 1, j, root, lv);
    }
}
/// The line of an item: `q` its start, `z` its end.
pub open spec fn item_at(d: Seq<u8>, q: int, v: Vec<Node>, j: int, lv: int, z: int) -> bool {
    &&& 0 <= q && spaces(d, q, 2 * lv) && at(d, q + 2 * lv, 45) && at(d, q + 2 * lv + 1, 32)
    &&& on(d, q + 2 * lv + 2, itx(v, j, lv)) && z == q + 2 * lv + 2 + itx(v, j, lv).len() && at(d, z, 10)
}
#[verifier::spinoff_prover]
proof fn lemma_on1(d: Seq<u8>, i: int, c: char)
    requires on(d, i, seq![c])
    ensures at(d, i, c as u8), 0 <= i
{ assert(d[i + 0] == seq![c][0] as u8); }
#[verifier::spinoff_prover]
proof fn lemma_item_at(d: Seq<u8>, b: int, v: Vec<Node>, j: int, lv: int)
    requires reg(Yaml::Seq(v)), 0 <= j < v@.len(), 0 <= lv, on(d, b, vdd(v, v@.len() as int, lv))
    ensures item_at(d, b + vdd(v, j, lv).len(), v, j, lv, b + vdd(v, j + 1, lv).len() - 1), at(d, b, 10), vdd(v, 0, lv).len() == 1
{
    hide(on); hide(spaces); hide(dval); hide(ditems);
    assert(vdd(v, 0, lv) == nl()) by { reveal(ditems); }
    lemma_items_on(d, b, v, v@.len() as int, j + 1, lv);
    lemma_items_on(d, b, v, v@.len() as int, 0, lv);
    lemma_on1(d, b, '\n');
    lemma_items_step(v, j, lv);
    let (pre, it, lw) = (vdd(v, j, lv), itx(v, j, lv), lv as nat);
    lemma_dind(lw);
    if !(j > 0 || lv > 0) { assert(dind(lw) =~= Seq::<char>::empty()); assert(pre + dind(lw) =~= pre); }
    let a = pre + dind(lw);
    let ds = seq!['-', ' '];
    lemma_on_cat(d, b, a + ds + it, nl());
    lemma_on_cat(d, b, a + ds, it);
    lemma_on_cat(d, b, a, ds);
    lemma_on_cat(d, b, pre, dind(lw));
    let q = b + pre.len();
    lemma_on_spaces(d, q, lw);
    let p = q + 2 * lv;
    lemma_bytes_at(d, p, ds);
    lemma_on_in(d, b, pre);
    assert(d[p] == ds[0] as u8 && d[p + 1] == ds[1] as u8) by { reveal(on); }
    lemma_on1(d, p + 2 + it.len(), '\n');
}
/// Where a key, its colon and its value are.
pub open spec fn kpos(b: int, m: LMap, j: int, root: Root, lv: int) -> int { b + mdd(m, j, root, lv).len() + if j > 0 || root is Map { 2 * lv } else { 0 } }
pub open spec fn cpos(b: int, m: LMap, j: int, root: Root, lv: int) -> int {
    kpos(b, m, j, root, lv) + if dblock(m.v@[j].0) { 4 * lv + 5 + ktx(m, j, lv).len() } else { ktx(m, j, lv).len() as int }
}
pub open spec fn vpos(b: int, m: LMap, j: int, root: Root, lv: int) -> int { cpos(b, m, j, root, lv) + if nl().is_prefix_of(vtx(m, j, root, lv)) { 1int } else { 2 } }
pub open spec fn vend(b: int, m: LMap, j: int, root: Root, lv: int) -> int { b + mdd(m, j + 1, root, lv).len() - 1 }
pub open spec fn key_on(d: Seq<u8>, b: int, m: LMap, j: int, root: Root, lv: int) -> bool {
    let k = kpos(b, m, j, root, lv);
    let c = cpos(b, m, j, root, lv);
    if dblock(m.v@[j].0) {
        at(d, k, 63) && spaces(d, k + 1, 2 * lv + 2) && at(d, k + 2 * lv + 3, 10) && on(d, k + 2 * lv + 4, ktx(m, j, lv))
        && at(d, c - 2 * lv - 1, 10) && spaces(d, c - 2 * lv, 2 * lv)
    } else { on(d, k, ktx(m, j, lv)) }
}
pub open spec fn pair_at(d: Seq<u8>, b: int, m: LMap, j: int, root: Root, lv: int) -> bool {
    let c = cpos(b, m, j, root, lv);
    let v = vpos(b, m, j, root, lv);
    let t = vtx(m, j, root, lv);
    &&& 0 <= b + mdd(m, j, root, lv).len()
    &&& j > 0 || root is Map ==> spaces(d, b + mdd(m, j, root, lv).len(), 2 * lv)
    &&& key_on(d, b, m, j, root, lv)
    &&& at(d, c, 58) && (v == c + 2 ==> at(d, c + 1, 32)) && on(d, v, t) && vend(b, m, j, root, lv) == v + t.len() && at(d, v + t.len(), 10)
}
#[verifier::spinoff_prover]
proof fn lemma_key_on(d: Seq<u8>, b: int, m: LMap, j: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= j < m.v@.len(), 0 <= lv,
        ({
            let a = if j > 0 || root is Map { mdd(m, j, root, lv) + dind(lv as nat) } else { mdd(m, j, root, lv) };
            let kt = ktx(m, j, lv);
            on(d, b, if dblock(m.v@[j].0) { a + seq!['?'] + dind(lv as nat + 1) + nl() + kt + nl() + dind(lv as nat) } else { a + kt })
        })
    ensures key_on(d, b, m, j, root, lv)
{
    hide(on); hide(spaces); hide(dval); hide(dpairs);
    let lw = lv as nat;
    let a = if j > 0 || root is Map { mdd(m, j, root, lv) + dind(lw) } else { mdd(m, j, root, lv) };
    let kt = ktx(m, j, lv);
    lemma_dind(lw); lemma_dind(lw + 1);
    let k = kpos(b, m, j, root, lv);
    assert(k == b + a.len());
    if dblock(m.v@[j].0) {
        lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl() + kt + nl(), dind(lw));
        lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl() + kt, nl());
        lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl(), kt);
        lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1), nl());
        lemma_on_cat(d, b, a + seq!['?'], dind(lw + 1));
        lemma_on_cat(d, b, a, seq!['?']);
        lemma_on1(d, k, '?');
        lemma_on_spaces(d, k + 1, lw + 1);
        lemma_on1(d, k + 2 * lv + 3, '\n');
        lemma_on1(d, k + 2 * lv + 4 + kt.len(), '\n');
        lemma_on_spaces(d, k + 2 * lv + 5 + kt.len(), lw);
    } else { lemma_on_cat(d, b, a, kt); }
}
#[verifier::spinoff_prover]
proof fn lemma_on_in(d: Seq<u8>, i: int, t: Seq<char>)
    requires on(d, i, t)
    ensures 0 <= i, i + t.len() <= d.len()
{}
#[verifier::spinoff_prover]
proof fn lemma_mdd0(m: LMap, root: Root, lv: int)
    ensures mdd(m, 0, root, lv) == dfirst(root)
{}
#[verifier::spinoff_prover]
proof fn lemma_pair_at(d: Seq<u8>, b: int, m: LMap, j: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= j < m.v@.len(), 0 <= lv, on(d, b, mdd(m, m.v@.len() as int, root, lv))
    ensures pair_at(d, b, m, j, root, lv), root is Map ==> at(d, b, 10) && mdd(m, 0, root, lv).len() == 1, !(root is Map) ==> mdd(m, 0, root, lv).len() == 0
{
    hide(on); hide(spaces); hide(dval); hide(mdd);
    lemma_mdd0(m, root, lv);
    lemma_pairs_on(d, b, m, m.v@.len() as int, j + 1, root, lv);
    lemma_pairs_on(d, b, m, m.v@.len() as int, 0, root, lv);
    if root is Map { lemma_on1(d, b, '\n'); }
    lemma_pairs_step(m, j, root, lv);
    let (pre, kt, vt, lw) = (mdd(m, j, root, lv), ktx(m, j, lv), vtx(m, j, root, lv), lv as nat);
    let key = m.v@[j].0;
    lemma_dind(lw); lemma_dind(lw + 1);
    let a = if j > 0 || root is Map { pre + dind(lw) } else { pre };
    let bb = if dblock(key) { a + seq!['?'] + dind(lw + 1) + nl() + kt + nl() + dind(lw) } else { a + kt };
    let c = bb + seq![':'];
    let dd = if nl().is_prefix_of(vt) { c } else { c + seq![' '] };
    lemma_on_cat(d, b, dd + vt, nl());
    lemma_on_cat(d, b, dd, vt);
    lemma_on_cat(d, b, c, seq![' ']);
    lemma_on_cat(d, b, bb, seq![':']);
    lemma_key_on(d, b, m, j, root, lv);
    lemma_on_in(d, b, bb);
    assert(b + bb.len() == cpos(b, m, j, root, lv));
    lemma_on1(d, b + bb.len(), ':');
    lemma_on1(d, b + dd.len() + vt.len(), '\n');
    if !nl().is_prefix_of(vt) { lemma_on1(d, b + c.len(), ' '); }
    if j > 0 || root is Map {
        if dblock(key) {
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl() + kt + nl(), dind(lw));
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl() + kt, nl());
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1) + nl(), kt);
            lemma_on_cat(d, b, a + seq!['?'] + dind(lw + 1), nl());
            lemma_on_cat(d, b, a + seq!['?'], dind(lw + 1));
            lemma_on_cat(d, b, a, seq!['?']);
        } else { lemma_on_cat(d, b, a, kt); }
        lemma_on_cat(d, b, pre, dind(lw));
        lemma_on_spaces(d, b + pre.len(), lw);
    }
}
/// The first byte of a value.
pub open spec fn first_byte(c: u8) -> bool { leaf_byte(c) || c == 63 || c == 10 }
#[verifier::spinoff_prover]
proof fn lemma_first_byte(d: Seq<u8>, i: int, y: Yaml, root: Root, lv: int)
    requires reg(y), on(d, i, dv(y, root, lv)), 0 <= lv, root is Map || root is Array || !(y is Seq), at(d, i + dv(y, root, lv).len(), 10)
    ensures 0 <= i < d.len(), first_byte(d[i]), dv(y, root, lv).len() > 0,
        block(y) && (y is Seq || root is Map) ==> d[i] == 10 && dv(y, root, lv)[0] == '\n',
        leaf(y) ==> leaf_byte(d[i]),
        !(block(y) && (y is Seq || root is Map)) ==> key_at(d, i) && dv(y, root, lv)[0] != '\n',
{
    let t = dv(y, root, lv);
    lemma_reg_leaf(y);
    if leaf(y) { lemma_leaf_txt(y, root, lv as nat); lemma_leaf_first(d, i, y); assert(d[i + 0] == t[0] as u8); }
    else {
        match y {
            Yaml::Seq(v) => { lemma_full(d, i, y, root, lv); lemma_item_at(d, i, v, 0, lv); lemma_items_ge(v, 0, v@.len() as int, lv); assert(d[i + 0] == vdd(v, v@.len() as int, lv)[0] as u8); assert(t[0] == vdd(v, v@.len() as int, lv)[0]); lemma_nl_char(t[0]); assert(d[i + 0] == t[0] as u8); }
            Yaml::Map(m) => {
                lemma_full(d, i, y, root, lv); lemma_pair_at(d, i, m, 0, root, lv); lemma_pairs_ge(m, 0, m.v@.len() as int, root, lv);
                assert(d[i + 0] == t[0] as u8);
                if root is Map { lemma_nl_char(t[0]); } else { lemma_key_first(d, i, m, 0, root, lv); }
            }
            _ => {}
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_nl_char(c: char)
    requires (c as u32) < 0x80
    ensures (c as u8 == 10) == (c == '\n')
{}
/// The text of a collection and its last line break.
#[verifier::spinoff_prover]
proof fn lemma_full(d: Seq<u8>, i: int, y: Yaml, root: Root, lv: int)
    requires reg(y), block(y), on(d, i, dv(y, root, lv)), 0 <= lv, at(d, i + dv(y, root, lv).len(), 10)
    ensures
        y is Seq ==> on(d, i, vdd(y->Seq_0, y->Seq_0@.len() as int, lv)) && dv(y, root, lv).len() == vdd(y->Seq_0, y->Seq_0@.len() as int, lv).len() - 1,
        y is Map ==> on(d, i, mdd(y->Map_0, y->Map_0.v@.len() as int, root, lv)) && dv(y, root, lv).len() == mdd(y->Map_0, y->Map_0.v@.len() as int, root, lv).len() - 1,
{
    let t = dv(y, root, lv);
    let u = match y { Yaml::Seq(v) => vdd(v, v@.len() as int, lv), Yaml::Map(m) => mdd(m, m.v@.len() as int, root, lv), _ => t };
    match y {
        Yaml::Seq(v) => { lemma_ditems_nl(v, v@.len(), lv as nat, no_tab()); }
        Yaml::Map(m) => { lemma_dpairs_nl(m, m.v@.len(), root, lv as nat, no_tab()); }
        _ => {}
    }
    assert(t == u.drop_last());
    assert(u =~= t + nl());
    assert(on(d, i + t.len(), nl())) by { assert(nl()[0] as u8 == 10); }
    lemma_on_cat(d, i, t, nl());
}
#[verifier::spinoff_prover]
proof fn lemma_items_ge(v: Vec<Node>, j: int, n: int, lv: int)
    requires reg(Yaml::Seq(v)), 0 <= j < n <= v@.len(), 0 <= lv
    ensures vdd(v, j, lv).len() + 3 + itx(v, j, lv).len() <= vdd(v, n, lv).len(), vdd(v, 0, lv).len() == 1
    decreases n
{
    lemma_items_step(v, n - 1, lv);
    if j < n - 1 { lemma_items_ge(v, j, n - 1, lv); }
}
#[verifier::spinoff_prover]
proof fn lemma_pairs_ge(m: LMap, j: int, n: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= j < n <= m.v@.len(), 0 <= lv
    ensures mdd(m, j, root, lv).len() + 2 + ktx(m, j, lv).len() <= mdd(m, n, root, lv).len()
    decreases n
{
    lemma_pairs_step(m, n - 1, root, lv);
    if j < n - 1 { lemma_pairs_ge(m, j, n - 1, root, lv); }
}
/// The place of a key is the start of a pair.
#[verifier::spinoff_prover]
proof fn lemma_key_first(d: Seq<u8>, b: int, m: LMap, j: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= j < m.v@.len(), 0 <= lv, pair_at(d, b, m, j, root, lv)
    ensures key_at(d, kpos(b, m, j, root, lv))
{
    let k = kpos(b, m, j, root, lv);
    let y = *m.v@[j].0.yaml;
    assert(reg(y)) by { assert(m.v@[j].0.tag@.len() == 0); }
    lemma_reg_leaf(y);
    if dblock(m.v@[j].0) {
        lemma_dind(lv as nat);
        let a = seq![45u8, 45u8, 45u8];
        let c = seq![46u8, 46u8, 46u8];
        if lit_at(d, k, a) { assert(d[k + 0] == a[0]); }
        if lit_at(d, k, c) { assert(d[k + 0] == c[0]); }
    } else { lemma_leaf_txt(y, Root::Map, lv as nat + 1); lemma_leaf_first(d, k, y); }
}

// ---- values, items and pairs

/// The value which ends at `p` is read to there.
pub open spec fn room(e: GE, s: GS) -> bool { s.eaten == s.pos && 0 <= s.pos <= e.d.len() <= lim() }
/// Where the value is, and what is around it.
pub open spec fn here(e: GE, s: GS, x: int, y: Yaml, lv: int, k: int, c: int, map: bool) -> bool {
    let root = if map { Root::Map } else { Root::Array };
    &&& room(e, s) && reg(y) && 0 <= x <= 1 && 0 <= lv && k >= 1 && s.ind.len() <= k && col(s.ind, k - 1) == c
    &&& on(e.d, s.pos + x, dv(y, root, lv)) && follow(e.d, s.pos + x + dv(y, root, lv).len(), c, 2 * lv == c)
    &&& map ==> 2 * lv >= c && (y is Map ==> 2 * lv > c)
    &&& !map ==> 2 * lv == c + 2
    &&& x == 1 ==> map && block(y) && at(e.d, s.pos, 10)
}
#[verifier::spinoff_prover]
proof fn lemma_col(w: Seq<usize>, k: int)
    requires k >= 1, w.len() <= k
    ensures col(w, k) == col(w, k - 1) + 2, col(w, k - 1) >= 0, col(w, k) >= 2
{ lemma_widen(w, k); }
#[verifier::spinoff_prover]
proof fn lemma_leaf_here(e: GE, s: GS, y: Yaml, lv: int, k: int, c: int, map: bool)
    requires here(e, s, 0, y, lv, k, c, map), leaf(y)
    ensures val_ok(s, k - 1, y, s.pos + dv(y, if map { Root::Map } else { Root::Array }, lv).len(), g_value(e, s, k, map, false))
{
    let root = if map { Root::Map } else { Root::Array };
    lemma_leaf_txt(y, root, lv as nat);
    let p = s.pos + dv(y, root, lv).len();
    lemma_col(s.ind, k);
    if map {
        lemma_follow_ends(e.d, p, c, 2 * lv == c, s.ind, k);
        lemma_leaf_value(e, s, k, y);
    } else {
        lemma_col(s.ind, k + 1);
        lemma_follow_ends(e.d, p, c, 2 * lv == c, s.ind, k + 1);
        lemma_leaf_item(e, s, k, y);
        lemma_lower(s.ind, k, k - 1);
        let r = g_value(e, s, k, false, false);
        lemma_keep(r->Ok_1.ind, s.ind, k, k - 1);
    }
}
/// The line of an item.
#[verifier::spinoff_prover]
proof fn lemma_item_line(d: Seq<u8>, q: int, v: Vec<Node>, j: int, lv: int, z: int)
    requires item_at(d, q, v, j, lv, z), reg(Yaml::Seq(v)), 0 <= j < v@.len(), 0 <= lv
    ensures line(d, q, 2 * lv), q < d.len(), dash_at(d, q + 2 * lv), m_dash(d, q + 2 * lv) == Some(q + 2 * lv + 2), !at_doc_end(d, q), !at_doc_end(d, q + 2 * lv),
        reg(*v@[j].yaml), first_byte(d[q + 2 * lv + 2]), q + 2 * lv + 2 < d.len(), z < d.len()
{
    assert(v@[j].tag@.len() == 0 && reg(*v@[j].yaml));
    lemma_first_byte(d, q + 2 * lv + 2, yv(v@[j]), Root::Array, lv + 1);
    lemma_dash(d, q + 2 * lv);
    lemma_no_mark(d, q, 2 * lv);
}
#[verifier::spinoff_prover]
proof fn lemma_no_mark(d: Seq<u8>, q: int, n: int)
    requires spaces(d, q, n), 0 <= n, q + n < d.len(), !at_doc_end(d, q + n)
    ensures !at_doc_end(d, q)
{
    let a = seq![45u8, 45u8, 45u8];
    let b = seq![46u8, 46u8, 46u8];
    if n > 0 {
        assert(d[q] == 32);
        if lit_at(d, q, a) { assert(d[q + 0] == a[0]); }
        if lit_at(d, q, b) { assert(d[q + 0] == b[0]); }
    }
}
/// The collection ends in front of a line of a parent.
#[verifier::spinoff_prover]
proof fn lemma_entries_end(e: GE, s: GS, k: int, own: int, c: int, nd: bool, v: Seq<Node>)
    requires room(e, s), k >= 0, col(s.ind, k) == own, c <= own, c < own || nd, follow(e.d, s.pos, c, nd)
    ensures ({
        let r = g_entries(e, s, k, v);
        r is Ok && r->Ok_0 == y_seq(v) && r->Ok_1.pos == s.pos && r->Ok_1.anc == s.anc && ind_widths(r->Ok_1.ind, k) == ind_widths(s.ind, k)
    })
{
    let q = s.pos + 1;
    lemma_follow_line(e.d, s.pos, c, nd);
    lemma_lower(s.ind, k, k);
    let s1 = gapped(e, fwd(s));
    assert(s1.pos == q && s1.eaten == s.pos);
    if at_doc_end(e.d, q) {
    } else {
        let n = choose|n: int| nextl(e.d, q, n, c, nd);
        if n < own { lemma_short(e.d, q, n, own); assert(!has_ind(e, s1, k)); }
        else { assert(m_dash(e.d, q + n) is None); assert(indented(e, s1, k).pos == q + n); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_more_end(e: GE, s: GS, k: int, own: int, c: int, v: Seq<(Node, Node)>)
    requires room(e, s), k >= 0, col(s.ind, k) == own, c < own, follow(e.d, s.pos, c, false)
    ensures ({
        let r = g_more(e, s, k, false, v);
        r is Ok && r->Ok_0 == y_map(v) && r->Ok_1.pos == s.pos && r->Ok_1.anc == s.anc && ind_widths(r->Ok_1.ind, k) == ind_widths(s.ind, k)
    })
{
    let q = s.pos + 1;
    lemma_follow_line(e.d, s.pos, c, false);
    lemma_lower(s.ind, k, k);
    let s1 = gapped(e, fwd(s));
    assert(s1.pos == q && s1.eaten == s.pos);
    if at_doc_end(e.d, q) {
    } else {
        let n = choose|n: int| nextl(e.d, q, n, c, false);
        lemma_short(e.d, q, n, own);
        assert(!has_ind(e, s1, k));
    }
}
/// The next item.
#[verifier::spinoff_prover]
proof fn lemma_entries_next(e: GE, s: GS, k: int, own: int, v: Seq<Node>)
    requires room(e, s), k >= 0, col(s.ind, k) == own, at(e.d, s.pos, 10), line(e.d, s.pos + 1, own), s.pos + 1 < e.d.len(), !at_doc_end(e.d, s.pos + 1), dash_at(e.d, s.pos + 1 + own)
    ensures g_entries(e, s, k, v) == g_entry(e, moved(s, s.pos + 3 + own, ind_widths(s.ind, k)), k, v)
{
    let q = s.pos + 1;
    lemma_gap1(e.d, s.pos, own);
    lemma_dash(e.d, q + own);
    let s1 = gapped(e, fwd(s));
    assert(s1.pos == q && s1.eaten == s.pos);
    assert(has_ind(e, s1, k));
    assert(indented(e, s1, k).pos == q + own);
}
/// The next pair.
#[verifier::spinoff_prover]
proof fn lemma_more_next(e: GE, s: GS, k: int, own: int, v: Seq<(Node, Node)>)
    requires room(e, s), k >= 0, col(s.ind, k) == own, at(e.d, s.pos, 10), line(e.d, s.pos + 1, own), s.pos + 1 < e.d.len(), !at_doc_end(e.d, s.pos + 1)
    ensures g_more(e, s, k, false, v) == g_next(e, moved(s, s.pos + 1 + own, ind_widths(s.ind, k)), k, false, v)
{
    let q = s.pos + 1;
    lemma_gap1(e.d, s.pos, own);
    let s1 = gapped(e, fwd(s));
    assert(s1.pos == q && s1.eaten == s.pos);
    assert(has_ind(e, s1, k));
    assert(indented(e, s1, k).pos == q + own);
}
/// The items read are those of the sequence.
pub open spec fn eq_items(v: Seq<Node>, a: Seq<Node>, n: int) -> bool { a.len() == n && n <= v.len() && forall|i: int| #![trigger v[i]] 0 <= i < n ==> neq(v[i], a[i]) }
pub open spec fn eq_pairs(v: Seq<(Node, Node)>, a: Seq<(Node, Node)>, n: int) -> bool {
    a.len() == n && n <= v.len() && forall|i: int| #![trigger v[i]] 0 <= i < n ==> neq(v[i].0, a[i].0) && neq(v[i].1, a[i].1)
}
#[verifier::spinoff_prover]
proof fn lemma_items_eq(v: Vec<Node>, a: Seq<Node>)
    requires eq_items(v@, a, v@.len() as int)
    ensures yeq(Yaml::Seq(v), y_seq(a))
{
    broadcast use group_values;
    assert(v.len() == v@.len());
    assert(vec_of(a)@ == a);
    assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies neq(v@[i], vec_of(a)@[i]) by {}
}
pub open spec fn apart(m: Seq<(Node, Node)>) -> bool { forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() ==> !neq(m[i].0, m[j].0) }
#[verifier::spinoff_prover]
proof fn lemma_find(m: Seq<(Node, Node)>, k: Yaml, i: int)
    requires 0 <= i
    ensures match mfind(m, k, i) { Some(x) => i <= x < m.len() && yeq(yv(m[x].0), k), None => true }
    decreases m.len() - i
{ if i < m.len() && !yeq(yv(m[i].0), k) { lemma_find(m, k, i + 1); } }
#[verifier::spinoff_prover]
proof fn lemma_collect(m: Seq<(Node, Node)>)
    requires apart(m)
    ensures mcollect(m) == m
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        let k = m.last().0;
        assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies !neq(d[i].0, d[j].0) by { assert(d[i] == m[i] && d[j] == m[j]); }
        lemma_collect(d);
        lemma_find(d, yv(k), 0);
        match mfind(d, yv(k), 0) { Some(i) => { assert(d[i] == m[i]); assert(!neq(m[i].0, m[m.len() - 1].0)); } None => {} }
        assert(d.push((k, m.last().1)) =~= m);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_pairs_eq(m: LMap, a: Seq<(Node, Node)>)
    requires eq_pairs(m.v@, a, m.v@.len() as int), differ(m.v@)
    ensures yeq(Yaml::Map(m), y_map(a))
{
    broadcast use group_values;
    let v = m.v@;
    assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() implies !neq(a[i].0, a[j].0) by {
        if neq(a[i].0, a[j].0) {
            assert(neq(v[i].0, a[i].0) && neq(v[j].0, a[j].0));
            law_trans(yv(v[i].0), yv(a[i].0), yv(a[j].0));
            law_sym(yv(v[j].0), yv(a[j].0));
            law_trans(yv(v[i].0), yv(a[j].0), yv(v[j].0));
            assert(neq(v[i].0, v[j].0));
        }
    }
    lemma_collect(a);
    assert(m.v.len() == v.len());
    assert(vec_of(a)@ == a);
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies neq(v[i].0, vec_of(a)@[i].0) && neq(v[i].1, vec_of(a)@[i].1) by {}
}
#[verifier::spinoff_prover]
proof fn lemma_follow_wide(d: Seq<u8>, p: int, c: int, nd: bool, c2: int)
    requires follow(d, p, c, nd), c <= c2
    ensures follow(d, p, c2, false)
{
    if !at_doc_end(d, p + 1) {
        let q = p + 1;
        let n = choose|n: int| nextl(d, q, n, c, nd);
        assert(nextl(d, q, n, c2, false));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_follow_here(d: Seq<u8>, p: int, n: int, nd: bool)
    requires at(d, p, 10), line(d, p + 1, n), p + 1 < d.len(), nd ==> m_dash(d, p + 1 + n) is None
    ensures follow(d, p, n, nd)
{ let q = p + 1; assert(nextl(d, q, n, n, nd)); }
/// The first items behind the one at `j`.
pub open spec fn entry_at(e: GE, s: GS, b: int, v: Vec<Node>, j: int, k: int, lv: int, c: int, nd: bool, a: Seq<Node>) -> bool {
    let n = v@.len() as int;
    &&& room(e, s) && reg(Yaml::Seq(v)) && 0 <= j < n && 0 <= lv && on(e.d, b, vdd(v, n, lv)) && s.pos == b + vdd(v, j, lv).len() + 2 * lv + 2
    &&& k >= 0 && s.ind.len() <= k + 1 && col(s.ind, k) == 2 * lv && c <= 2 * lv && (c < 2 * lv || nd)
    &&& follow(e.d, b + vdd(v, n, lv).len() - 1, c, nd) && eq_items(v@, a, j)
}
pub open spec fn ipos(b: int, v: Vec<Node>, j: int, lv: int) -> int { b + vdd(v, j, lv).len() }
/// The item at `j` is in its place.
#[verifier::spinoff_prover]
proof fn lemma_entry_item(e: GE, s: GS, b: int, v: Vec<Node>, j: int, k: int, lv: int, c: int, nd: bool, a: Seq<Node>)
    requires entry_at(e, s, b, v, j, k, lv, c, nd, a)
    ensures here(e, s, 0, yv(v@[j]), lv + 1, k + 1, 2 * lv, false), s.pos + dv(yv(v@[j]), Root::Array, lv + 1).len() == ipos(b, v, j + 1, lv) - 1,
        e.d[s.pos] != 38, e.d[s.pos] != 33, s.pos < e.d.len(), at(e.d, ipos(b, v, j + 1, lv) - 1, 10)
{
    hide(follow); hide(on); hide(dval); hide(ditems); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(reg); hide(sum); hide(ind_widths);
    let n = v@.len() as int;
    let own = 2 * lv;
    let q = b + vdd(v, j, lv).len();
    let z = b + vdd(v, j + 1, lv).len() - 1;
    lemma_item_at(e.d, b, v, j, lv);
    lemma_item_line(e.d, q, v, j, lv, z);
    if j + 1 < n {
        lemma_item_at(e.d, b, v, j + 1, lv);
        lemma_item_line(e.d, z + 1, v, j + 1, lv, b + vdd(v, j + 2, lv).len() - 1);
        lemma_follow_here(e.d, z, own, false);
    } else { lemma_follow_wide(e.d, z, c, nd, own); }
}
/// Behind the item at `j`: the next one, or the end of the sequence.
#[verifier::spinoff_prover]
proof fn lemma_entry_step(e: GE, s: GS, b: int, v: Vec<Node>, j: int, k: int, lv: int, c: int, nd: bool, a: Seq<Node>, m: Node, s1: GS)
    requires entry_at(e, s, b, v, j, k, lv, c, nd, a), s1.pos == ipos(b, v, j + 1, lv) - 1, s1.eaten == s1.pos, s1.anc == s.anc, ind_widths(s1.ind, k) == ind_widths(s.ind, k), neq(v@[j], m), s1.pos <= e.d.len(),
        at(e.d, s1.pos, 10),
    ensures
        j + 1 < v@.len() ==> {
            let s2 = moved(s1, s1.pos + 3 + 2 * lv, ind_widths(s1.ind, k));
            g_entries(e, s1, k, a.push(m)) == g_entry(e, s2, k, a.push(m)) && entry_at(e, s2, b, v, j + 1, k, lv, c, nd, a.push(m)) && s2.anc == s.anc && ind_widths(s2.ind, k) == ind_widths(s.ind, k)
        },
        j + 1 == v@.len() ==> val_ok(s, k, Yaml::Seq(v), b + vdd(v, v@.len() as int, lv).len() - 1, g_entries(e, s1, k, a.push(m))),
{
    hide(g_entries); hide(g_entry); hide(follow); hide(on); hide(dval); hide(ditems); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(reg); hide(sum);
    let n = v@.len() as int;
    let own = 2 * lv;
    let z = s1.pos;
    lemma_lower(s1.ind, k, k);
    if j + 1 < n {
        lemma_item_at(e.d, b, v, j + 1, lv);
        lemma_item_line(e.d, z + 1, v, j + 1, lv, b + vdd(v, j + 2, lv).len() - 1);
        lemma_entries_next(e, s1, k, own, a.push(m));
    } else {
        lemma_entries_end(e, s1, k, own, c, nd, a.push(m));
        lemma_items_eq(v, a.push(m));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_entry_eq(e: GE, s: GS, k: int, a: Seq<Node>, n: Node, end: int)
    requires node_ok(s, k, n, end, g_scalar(e, s, k + 1, false, false)), room(e, s), s.pos <= end <= e.d.len()
    ensures g_entry(e, s, k, a) == g_entries(e, g_scalar(e, s, k + 1, false, false)->Ok_1, k, a.push(g_scalar(e, s, k + 1, false, false)->Ok_0))
{ hide(neq); hide(yeq); }
#[verifier::spinoff_prover]
proof fn lemma_entry(e: GE, s: GS, b: int, v: Vec<Node>, j: int, k: int, lv: int, c: int, nd: bool, a: Seq<Node>)
    requires entry_at(e, s, b, v, j, k, lv, c, nd, a)
    ensures val_ok(s, k, Yaml::Seq(v), b + vdd(v, v@.len() as int, lv).len() - 1, g_entry(e, s, k, a))
    decreases v, v@.len() - j
{
    hide(g_value); hide(g_scalar); hide(g_entries); hide(g_entry); hide(follow); hide(on); hide(dval); hide(ditems); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(here); hide(reg); hide(ind_widths); hide(sum);
    let z = ipos(b, v, j + 1, lv) - 1;
    lemma_entry_item(e, s, b, v, j, k, lv, c, nd, a);
    lemma_value(e, s, 0, yv(v@[j]), lv + 1, k + 1, 2 * lv, false);
    lemma_scalar(e, s, k + 1, false, v@[j], z, k);
    let r = g_scalar(e, s, k + 1, false, false);
    lemma_entry_eq(e, s, k, a, v@[j], z);
    lemma_entry_step(e, s, b, v, j, k, lv, c, nd, a, r->Ok_0, r->Ok_1);
    if j + 1 < v@.len() {
        let s1 = r->Ok_1;
        lemma_entry(e, moved(s1, s1.pos + 3 + 2 * lv, ind_widths(s1.ind, k)), b, v, j + 1, k, lv, c, nd, a.push(r->Ok_0));
    }
}
/// The node of a key, and the place of its value.
pub open spec fn key_ok(e: GE, s: GS, key: Node, k: int, vp: int, r: GR<Node>) -> bool {
    match r {
        GR::Ok(z, s1) => neq(key, z) && s.pos <= s1.pos && m_colon(e.d, s1.pos) == Some(vp) && s1.anc == s.anc && s1.ind.len() <= k + 1 && ind_widths(s1.ind, k) == ind_widths(s.ind, k)
            && s.eaten <= s1.eaten <= s1.pos,
        _ => false,
    }
}
pub open spec fn in_map(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int) -> bool {
    let n = m.v@.len() as int;
    &&& room(e, s) && reg(Yaml::Map(m)) && 0 <= j < n && 0 <= lv && on(e.d, b, mdd(m, n, root, lv))
    &&& k >= 0 && s.ind.len() <= k + 1 && col(s.ind, k) == 2 * lv && c < 2 * lv
    &&& follow(e.d, b + mdd(m, n, root, lv).len() - 1, c, false)
}
#[verifier::spinoff_prover]
proof fn lemma_colon(d: Seq<u8>, b: int, m: LMap, j: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= j < m.v@.len(), 0 <= lv, pair_at(d, b, m, j, root, lv)
    ensures m_colon(d, cpos(b, m, j, root, lv)) == Some(vpos(b, m, j, root, lv)), reg(yv(m.v@[j].1)), reg(yv(m.v@[j].0)), first_byte(d[vpos(b, m, j, root, lv)]), 0 <= vpos(b, m, j, root, lv) < d.len(),
        cpos(b, m, j, root, lv) < vpos(b, m, j, root, lv), 0 <= kpos(b, m, j, root, lv) <= cpos(b, m, j, root, lv)
{
    hide(dval); hide(dpairs); hide(on); hide(mdd); hide(ktx);
    let y = yv(m.v@[j].1);
    let c = cpos(b, m, j, root, lv);
    let v = vpos(b, m, j, root, lv);
    assert(m.v@[j].0.tag@.len() == 0 && reg(y) && reg(yv(m.v@[j].0)));
    lemma_first_byte(d, v, y, Root::Map, vlv(m, j, root, lv));
    assert(first_byte(d[v]) && 0 <= v < d.len());
    assert(at(d, c, 58));
    lemma_run_here(d, c);
    if v == c + 1 { assert(d[c + 1] == 10) by { lemma_nl_first(d, v, vtx(m, j, root, lv)); } lemma_run_here(d, v); }
    else { assert(d[c + 1] == 32); assert(!blank(d[v])); assert forall|x: int| c + 1 <= x < v implies p_blank()(#[trigger] d[x]) by {} assert(!p_blank()(d[v])); lemma_run(p_blank(), d, c + 1, c + 2); }
}
#[verifier::spinoff_prover]
proof fn lemma_nl_first(d: Seq<u8>, v: int, t: Seq<char>)
    requires on(d, v, t), nl().is_prefix_of(t)
    ensures d[v] == 10
{ assert(nl()[0] == '\n'); assert(t.take(1)[0] == t[0]); assert(d[v + 0] == t[0] as u8); }
/// The place of a key on its own lines.
#[verifier::spinoff_prover]
proof fn lemma_key_here(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int)
    requires in_map(e, s, b, m, j, root, k, lv, c), s.pos == kpos(b, m, j, root, lv), dblock(m.v@[j].0)
    ensures ({
        let s1 = fwd(to(s, s.pos + 2 * lv + 3));
        m_complex(e.d, s.pos) == Some(s1.pos) && here(e, s1, 1, yv(m.v@[j].0), lv + 1, k + 1, 2 * lv, true) && e.d[s1.pos] == 10 && s1.pos < e.d.len()
            && cpos(b, m, j, root, lv) == s1.pos + 1 + ktx(m, j, lv).len() + 1 + 2 * lv && cpos(b, m, j, root, lv) < e.d.len()
            && at(e.d, s1.pos + 1 + ktx(m, j, lv).len(), 10) && line(e.d, s1.pos + 2 + ktx(m, j, lv).len(), 2 * lv)
    })
{
    hide(follow); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(at_doc_end); hide(m_dash); hide(on); hide(mdd);
    let own = 2 * lv;
    lemma_pair_at(e.d, b, m, j, root, lv);
    lemma_colon(e.d, b, m, j, root, lv);
    lemma_reg_leaf(yv(m.v@[j].0));
    let p = s.pos + 2 * lv + 3;
    lemma_spaces_run(e.d, s.pos + 1, 2 * lv + 2);
    let z = p + 1 + ktx(m, j, lv).len();
    assert(cpos(b, m, j, root, lv) == z + 1 + own);
    assert(at(e.d, z, 10));
    lemma_follow_here(e.d, z, own, false);
}
#[verifier::spinoff_prover]
proof fn lemma_key_eq(e: GE, s: GS, k: int, own: int, n: Node, end: int, cp: int, vp: int)
    requires
        room(e, s), k >= 0, col(s.ind, k) == own,
        ({ let s1 = fwd(to(s, m_complex(e.d, s.pos)->Some_0)); m_complex(e.d, s.pos) is Some && s.pos < s1.pos <= end && node_ok(s1, k, n, end, g_scalar(e, s1, k + 1, true, false)) }),
        at(e.d, end, 10), line(e.d, end + 1, own), cp == end + 1 + own, cp < e.d.len(), m_colon(e.d, cp) == Some(vp),
    ensures key_ok(e, s, n, k, vp, g_key(e, s, k, false))
{
    hide(neq); hide(yeq); hide(m_complex); hide(m_colon);
    let s1 = fwd(to(s, m_complex(e.d, s.pos)->Some_0));
    let r = g_scalar(e, s1, k + 1, true, false);
    let s2 = r->Ok_1;
    lemma_gap1(e.d, end, own);
    let s3 = gapped(e, s2);
    assert(s3.pos == end + 1);
    assert(has_ind(e, s3, k));
    assert(indented(e, s3, k).pos == cp);
    lemma_lower(s2.ind, k, k);
}
#[verifier::spinoff_prover]
proof fn lemma_key_leaf(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int)
    requires in_map(e, s, b, m, j, root, k, lv, c), s.pos == kpos(b, m, j, root, lv), !dblock(m.v@[j].0)
    ensures key_ok(e, s, m.v@[j].0, k, vpos(b, m, j, root, lv), g_key(e, s, k, false))
{
    hide(g_key); hide(follow); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(mdd); hide(on); hide(m_colon);
    let key = m.v@[j].0;
    let y = yv(key);
    lemma_pair_at(e.d, b, m, j, root, lv);
    lemma_colon(e.d, b, m, j, root, lv);
    lemma_reg_leaf(y);
    lemma_leaf_txt(y, Root::Map, lv as nat + 1);
    let cp = cpos(b, m, j, root, lv);
    assert(at(e.d, cp + 1, 32) || at(e.d, cp + 1, 10)) by {
        if vpos(b, m, j, root, lv) == cp + 1 { lemma_nl_first(e.d, cp + 1, vtx(m, j, root, lv)); }
    }
    lemma_lower(s.ind, k, k);
    lemma_leaf_key(e, s, k, key);
}
#[verifier::spinoff_prover]
proof fn lemma_key(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int)
    requires in_map(e, s, b, m, j, root, k, lv, c), s.pos == kpos(b, m, j, root, lv)
    ensures key_ok(e, s, m.v@[j].0, k, vpos(b, m, j, root, lv), g_key(e, s, k, false))
    decreases m, 0int
{
    hide(g_value); hide(g_scalar); hide(g_scalar_flow); hide(g_key); hide(follow); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(mdd); hide(here); hide(on); hide(m_colon); hide(reg); hide(ind_widths); hide(sum); hide(m_complex);
    let key = m.v@[j].0;
    if dblock(key) {
        lemma_key_here(e, s, b, m, j, root, k, lv, c);
        let s1 = fwd(to(s, s.pos + 2 * lv + 3));
        let z = s1.pos + 1 + ktx(m, j, lv).len();
        lemma_value(e, s1, 1, yv(key), lv + 1, k + 1, 2 * lv, true);
        lemma_scalar(e, s1, k + 1, true, key, z, k);
        lemma_pair_at(e.d, b, m, j, root, lv);
        lemma_colon(e.d, b, m, j, root, lv);
        lemma_key_eq(e, s, k, 2 * lv, key, z, cpos(b, m, j, root, lv), vpos(b, m, j, root, lv));
    } else { lemma_key_leaf(e, s, b, m, j, root, k, lv, c); }
}
/// Behind the colon of the pair at `j`.
/// The value of the pair at `j` is in its place.
#[verifier::spinoff_prover]
proof fn lemma_pair_value(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int)
    requires in_map(e, s, b, m, j, root, k, lv, c), s.pos == vpos(b, m, j, root, lv)
    ensures here(e, s, 0, yv(m.v@[j].1), vlv(m, j, root, lv), k + 1, 2 * lv, true), vend(b, m, j, root, lv) == s.pos + vtx(m, j, root, lv).len(),
        e.d[s.pos] != 38, e.d[s.pos] != 33, s.pos < e.d.len(), at(e.d, vend(b, m, j, root, lv), 10),
{
    hide(follow); hide(on); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(m_colon); hide(mdd);
    let n = m.v@.len() as int;
    let own = 2 * lv;
    let z = vend(b, m, j, root, lv);
    let vl = vlv(m, j, root, lv);
    lemma_pair_at(e.d, b, m, j, root, lv);
    lemma_colon(e.d, b, m, j, root, lv);
    if j + 1 < n {
        lemma_pair_at(e.d, b, m, j + 1, root, lv);
        lemma_key_first(e.d, b, m, j + 1, root, lv);
        lemma_key_line(e.d, z + 1, own);
        lemma_follow_here(e.d, z, own, 2 * vl == own);
    } else {
        if 2 * vl == own { lemma_follow_nd(e.d, z, c, own); } else { lemma_follow_wide(e.d, z, c, false, own); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_pair_step(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int, a: Seq<(Node, Node)>, s1: GS)
    requires in_map(e, s, b, m, j, root, k, lv, c), eq_pairs(m.v@, a, j + 1), s1.pos == vend(b, m, j, root, lv), s1.eaten == s1.pos, s1.anc == s.anc, ind_widths(s1.ind, k) == ind_widths(s.ind, k), s1.pos <= e.d.len(), at(e.d, s1.pos, 10),
    ensures
        j + 1 < m.v@.len() ==> {
            let s2 = moved(s1, s1.pos + 1 + 2 * lv, ind_widths(s1.ind, k));
            g_more(e, s1, k, false, a) == g_next(e, s2, k, false, a) && in_map(e, s2, b, m, j + 1, root, k, lv, c) && s2.pos == kpos(b, m, j + 1, root, lv) && s2.anc == s.anc && ind_widths(s2.ind, k) == ind_widths(s.ind, k)
        },
        j + 1 == m.v@.len() ==> val_ok(s, k, Yaml::Map(m), b + mdd(m, m.v@.len() as int, root, lv).len() - 1, g_more(e, s1, k, false, a)),
{
    hide(g_more); hide(g_next); hide(follow); hide(on); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(mdd); hide(sum); hide(ktx); hide(vtx);
    let n = m.v@.len() as int;
    let own = 2 * lv;
    let z = s1.pos;
    lemma_lower(s1.ind, k, k);
    if j + 1 < n {
        lemma_pair_at(e.d, b, m, j + 1, root, lv);
        lemma_key_first(e.d, b, m, j + 1, root, lv);
        lemma_key_line(e.d, z + 1, own);
        lemma_more_next(e, s1, k, own, a);
    } else {
        lemma_more_end(e, s1, k, own, c, a);
        lemma_pairs_eq(m, a);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_pair_eq(e: GE, s: GS, k: int, a: Seq<(Node, Node)>, kn: Node, n: Node, end: int)
    requires node_ok(s, k, n, end, g_scalar(e, s, k + 1, true, false)), room(e, s), s.pos <= end <= e.d.len()
    ensures g_pair(e, s, k, false, a, kn) == g_more(e, g_scalar(e, s, k + 1, true, false)->Ok_1, k, false, a.push((kn, g_scalar(e, s, k + 1, true, false)->Ok_0)))
{ hide(neq); hide(yeq); }
/// The state behind the colon of a key.
#[verifier::spinoff_prover]
proof fn lemma_key_pos(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int)
    requires in_map(e, s, b, m, j, root, k, lv, c), s.pos == kpos(b, m, j, root, lv)
    ensures s.pos < vpos(b, m, j, root, lv) < e.d.len()
{
    hide(follow); hide(on); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(m_colon); hide(mdd); hide(at_doc_end); hide(line); hide(m_dash); hide(ktx); hide(vtx); hide(sum); hide(ind_widths); hide(reg);
    lemma_pair_at(e.d, b, m, j, root, lv);
    lemma_colon(e.d, b, m, j, root, lv);
}
#[verifier::spinoff_prover]
proof fn lemma_key_go(e: GE, s: GS, k: int, x: int)
    requires room(e, s), k >= 0, s.pos < x < e.d.len(), g_key(e, s, k, false) is Ok, m_colon(e.d, g_key(e, s, k, false)->Ok_1.pos) == Some(x)
    ensures ({
        let s4 = fwd(to(g_key(e, s, k, false)->Ok_1, x));
        let kn = g_key(e, s, k, false)->Ok_0;
        (forall|a: Seq<(Node, Node)>| #[trigger] g_next(e, s, k, false, a) == g_pair(e, s4, k, false, a, kn)) && g_first(e, s, k, false) == g_pair(e, s4, k, false, Seq::empty(), kn)
    })
{ hide(m_colon); }
#[verifier::spinoff_prover]
proof fn lemma_key_in(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int, s4: GS)
    requires in_map(e, s, b, m, j, root, k, lv, c), s4.eaten == s4.pos, 0 <= s4.pos <= e.d.len(), s4.ind.len() <= k + 1, ind_widths(s4.ind, k) == ind_widths(s.ind, k)
    ensures in_map(e, s4, b, m, j, root, k, lv, c)
{ hide(follow); hide(on); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(mdd); hide(sum); hide(ind_widths); hide(reg); }
#[verifier::spinoff_prover]
proof fn lemma_key_state(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int)
    requires in_map(e, s, b, m, j, root, k, lv, c), s.pos == kpos(b, m, j, root, lv), key_ok(e, s, m.v@[j].0, k, vpos(b, m, j, root, lv), g_key(e, s, k, false))
    ensures ({
        let s4 = fwd(to(g_key(e, s, k, false)->Ok_1, vpos(b, m, j, root, lv)));
        let kn = g_key(e, s, k, false)->Ok_0;
        in_map(e, s4, b, m, j, root, k, lv, c) && s4.pos == vpos(b, m, j, root, lv) && s4.anc == s.anc && ind_widths(s4.ind, k) == ind_widths(s.ind, k)
            && (forall|a: Seq<(Node, Node)>| #[trigger] g_next(e, s, k, false, a) == g_pair(e, s4, k, false, a, kn)) && g_first(e, s, k, false) == g_pair(e, s4, k, false, Seq::empty(), kn)
    })
{
    let s3 = g_key(e, s, k, false)->Ok_1;
    lemma_key_pos(e, s, b, m, j, root, k, lv, c);
    lemma_key_go(e, s, k, vpos(b, m, j, root, lv));
    lemma_key_in(e, s, b, m, j, root, k, lv, c, fwd(to(s3, vpos(b, m, j, root, lv))));
}
/// Behind the colon of the pair at `j`.
#[verifier::spinoff_prover]
proof fn lemma_pairs_from(e: GE, s: GS, b: int, m: LMap, j: int, root: Root, k: int, lv: int, c: int, a: Seq<(Node, Node)>, kn: Node)
    requires in_map(e, s, b, m, j, root, k, lv, c), s.pos == vpos(b, m, j, root, lv), eq_pairs(m.v@, a, j), neq(m.v@[j].0, kn)
    ensures val_ok(s, k, Yaml::Map(m), b + mdd(m, m.v@.len() as int, root, lv).len() - 1, g_pair(e, s, k, false, a, kn))
    decreases m, 2 * (m.v@.len() - j)
{
    hide(g_value); hide(g_scalar); hide(g_more); hide(g_key); hide(g_pair); hide(g_next); hide(follow); hide(on); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(at_doc_end); hide(line); hide(m_dash); hide(m_colon); hide(here); hide(reg); hide(ind_widths); hide(sum); hide(mdd); hide(kpos); hide(vpos);
    let z = vend(b, m, j, root, lv);
    lemma_pair_value(e, s, b, m, j, root, k, lv, c);
    lemma_value(e, s, 0, yv(m.v@[j].1), vlv(m, j, root, lv), k + 1, 2 * lv, true);
    lemma_scalar(e, s, k + 1, true, m.v@[j].1, z, k);
    let r = g_scalar(e, s, k + 1, true, false);
    let s1 = r->Ok_1;
    let a2 = a.push((kn, r->Ok_0));
    lemma_pair_eq(e, s, k, a, kn, m.v@[j].1, z);
    assert(eq_pairs(m.v@, a2, j + 1));
    lemma_pair_step(e, s, b, m, j, root, k, lv, c, a2, s1);
    if j + 1 < m.v@.len() {
        let s2 = moved(s1, s1.pos + 1 + 2 * lv, ind_widths(s1.ind, k));
        lemma_key(e, s2, b, m, j + 1, root, k, lv, c);
        lemma_key_state(e, s2, b, m, j + 1, root, k, lv, c);
        let s4 = fwd(to(g_key(e, s2, k, false)->Ok_1, vpos(b, m, j + 1, root, lv)));
        lemma_pairs_from(e, s4, b, m, j + 1, root, k, lv, c, a2, g_key(e, s2, k, false)->Ok_0);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_colon_gt(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len(), m_colon(d, i) is Some
    ensures i < m_colon(d, i)->Some_0 <= d.len()
{ lemma_run_bound(p_blank(), d, i); let b = run(p_blank(), d, i); lemma_run_bound(p_blank(), d, b + 1); }
#[verifier::spinoff_prover]
proof fn lemma_key_line(d: Seq<u8>, q: int, n: int)
    requires spaces(d, q, n), 0 <= n, 0 <= q, key_at(d, q + n)
    ensures line(d, q, n), q < d.len(), !at_doc_end(d, q), m_dash(d, q + n) is None
{ lemma_no_mark(d, q, n); }
#[verifier::spinoff_prover]
proof fn lemma_follow_nd(d: Seq<u8>, p: int, c: int, c2: int)
    requires follow(d, p, c, false), c < c2
    ensures follow(d, p, c2, true)
{
    if !at_doc_end(d, p + 1) {
        let q = p + 1;
        let n = choose|n: int| nextl(d, q, n, c, false);
        assert(nextl(d, q, n, c2, true));
    }
}
/// From the first key on.
#[verifier::spinoff_prover]
proof fn lemma_map_from(e: GE, s: GS, b: int, m: LMap, root: Root, k: int, lv: int, c: int)
    requires in_map(e, s, b, m, 0, root, k, lv, c), s.pos == kpos(b, m, 0, root, lv)
    ensures val_ok(s, k, Yaml::Map(m), b + mdd(m, m.v@.len() as int, root, lv).len() - 1, g_first(e, s, k, false))
    decreases m, 2 * m.v@.len() + 1
{
    hide(g_pair); hide(g_key); hide(g_first); hide(follow); hide(on); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(m_colon); hide(reg); hide(ind_widths); hide(sum); hide(mdd); hide(kpos); hide(vpos);
    lemma_key(e, s, b, m, 0, root, k, lv, c);
    lemma_key_state(e, s, b, m, 0, root, k, lv, c);
    let s4 = fwd(to(g_key(e, s, k, false)->Ok_1, vpos(b, m, 0, root, lv)));
    lemma_pairs_from(e, s4, b, m, 0, root, k, lv, c, Seq::empty(), g_key(e, s, k, false)->Ok_0);
}
/// A sequence on the following lines: from its first item on.
#[verifier::spinoff_prover]
proof fn lemma_seq_here(e: GE, s: GS, x: int, v: Vec<Node>, lv: int, k: int, c: int, map: bool)
    requires here(e, s, x, Yaml::Seq(v), lv, k, c, map), v@.len() > 0
    ensures ({
        let w = if map { ind_widths(s.ind, k - 1).push((2 * lv - c) as usize) } else { ind_widths(s.ind, k) };
        let s2 = moved(s, s.pos + x + 3 + 2 * lv, w);
        entry_at(e, s2, s.pos + x, v, 0, k, lv, c, 2 * lv == c, Seq::empty()) && ind_widths(w, k - 1) == ind_widths(s.ind, k - 1)
            && (g_entry(e, s2, k, Seq::empty()) is Ok ==> g_value(e, s, k, map, false) == g_entry(e, s2, k, Seq::empty()))
            && dv(Yaml::Seq(v), if map { Root::Map } else { Root::Array }, lv).len() == vdd(v, v@.len() as int, lv).len() - 1
    })
{
    hide(g_value); hide(g_entry); hide(follow); hide(on); hide(dval); hide(ditems); hide(yeq); hide(at_doc_end); hide(line); hide(m_dash); hide(sum); hide(vdd);
    let root = if map { Root::Map } else { Root::Array };
    let b = s.pos + x;
    let own = 2 * lv;
    let y = Yaml::Seq(v);
    assert(at(e.d, b + dv(y, root, lv).len(), 10)) by { reveal(follow); }
    lemma_col(s.ind, k);
    lemma_full(e.d, b, y, root, lv);
    lemma_item_at(e.d, b, v, 0, lv);
    lemma_item_line(e.d, b + 1, v, 0, lv, b + vdd(v, 1, lv).len() - 1);
    if x == 0 { lemma_gap1(e.d, s.pos, own); } else { lemma_gap2(e.d, s.pos, own); }
    lemma_lower_push(s.ind, k - 1, (own - c) as usize);
    lemma_lower(s.ind, k, k); lemma_lower(s.ind, k, k - 1); lemma_lower(s.ind, k - 1, k - 1);
    if g_entry(e, moved(s, b + 3 + own, if map { ind_widths(s.ind, k - 1).push((own - c) as usize) } else { ind_widths(s.ind, k) }), k, Seq::empty()) is Ok {
        if map { lemma_seq_value(e, s, k, b + 1, own); } else { lemma_seq_item(e, s, k); }
    }
}
/// A map: from its first key on.
#[verifier::spinoff_prover]
proof fn lemma_map_here(e: GE, s: GS, x: int, m: LMap, lv: int, k: int, c: int, map: bool)
    requires here(e, s, x, Yaml::Map(m), lv, k, c, map), m.v@.len() > 0
    ensures ({
        let root = if map { Root::Map } else { Root::Array };
        let s2 = if map { moved(s, s.pos + x + 1 + 2 * lv, ind_widths(s.ind, k - 1).push((2 * lv - c) as usize)) } else { s };
        in_map(e, s2, s.pos + x, m, 0, root, k, lv, c) && s2.pos == kpos(s.pos + x, m, 0, root, lv) && ind_widths(s2.ind, k - 1) == ind_widths(s.ind, k - 1)
            && (g_first(e, s2, k, false) is Ok ==> g_value(e, s, k, map, false) == g_first(e, s2, k, false))
            && dv(Yaml::Map(m), root, lv).len() == mdd(m, m.v@.len() as int, root, lv).len() - 1
    })
{
    hide(g_value); hide(g_first); hide(follow); hide(on); hide(dval); hide(dpairs); hide(yeq); hide(at_doc_end); hide(line); hide(m_dash); hide(sum); hide(mdd); hide(ktx); hide(vtx);
    let root = if map { Root::Map } else { Root::Array };
    let b = s.pos + x;
    let own = 2 * lv;
    let y = Yaml::Map(m);
    assert(at(e.d, b + dv(y, root, lv).len(), 10)) by { reveal(follow); }
    lemma_col(s.ind, k);
    lemma_full(e.d, b, y, root, lv);
    lemma_pair_at(e.d, b, m, 0, root, lv);
    lemma_key_first(e.d, b, m, 0, root, lv);
    if map {
        lemma_key_line(e.d, b + 1, own);
        if x == 0 { lemma_gap1(e.d, s.pos, own); } else { lemma_gap2(e.d, s.pos, own); }
        lemma_lower_push(s.ind, k - 1, (own - c) as usize);
        lemma_lower(s.ind, k - 1, k - 1);
        if g_first(e, moved(s, b + 1 + own, ind_widths(s.ind, k - 1).push((own - c) as usize)), k, false) is Ok { lemma_map_value(e, s, k, b + 1, own); }
    } else if g_first(e, s, k, false) is Ok { lemma_here_value(e, s, k); }
}
/// A value is read back from its text.
#[verifier::spinoff_prover]
proof fn lemma_value(e: GE, s: GS, x: int, y: Yaml, lv: int, k: int, c: int, map: bool)
    requires here(e, s, x, y, lv, k, c, map)
    ensures val_ok(s, k - 1, y, s.pos + x + dv(y, if map { Root::Map } else { Root::Array }, lv).len(), g_value(e, s, k, map, false))
    decreases y, 0int
{
    hide(g_value); hide(g_entry); hide(g_first); hide(follow); hide(on); hide(dval); hide(dpairs); hide(ditems); hide(yeq); hide(neq); hide(at_doc_end); hide(entry_at); hide(in_map); hide(vdd); hide(mdd); hide(kpos);
    let root = if map { Root::Map } else { Root::Array };
    let b = s.pos + x;
    lemma_reg_leaf(y);
    if leaf(y) { lemma_leaf_here(e, s, y, lv, k, c, map); }
    else {
        match y {
            Yaml::Seq(v) => {
                lemma_seq_here(e, s, x, v, lv, k, c, map);
                let w = if map { ind_widths(s.ind, k - 1).push((2 * lv - c) as usize) } else { ind_widths(s.ind, k) };
                let s2 = moved(s, s.pos + x + 3 + 2 * lv, w);
                lemma_entry(e, s2, b, v, 0, k, lv, c, 2 * lv == c, Seq::empty());
                lemma_keep(g_entry(e, s2, k, Seq::empty())->Ok_1.ind, s2.ind, k, k - 1);
            }
            Yaml::Map(m) => {
                lemma_map_here(e, s, x, m, lv, k, c, map);
                let s2 = if map { moved(s, s.pos + x + 1 + 2 * lv, ind_widths(s.ind, k - 1).push((2 * lv - c) as usize)) } else { s };
                lemma_map_from(e, s2, b, m, root, k, lv, c);
                lemma_keep(g_first(e, s2, k, false)->Ok_1.ind, s2.ind, k, k - 1);
            }
            _ => {}
        }
    }
}

// ---- documents

/// The text of a document, without its last line break.
pub open spec fn doc_txt(n: Node) -> Seq<char> { dv(yv(n), Root::Scalar, 0) }
/// A value with a sequence starts with a line break.
pub open spec fn lead(y: Yaml) -> int { if y is Seq && block(y) { 1 } else { 0 } }
/// The place of a value at the start of a document.
pub open spec fn root_at(e: GE, s: GS, b: int, y: Yaml) -> bool {
    let p = b + dv(y, Root::Scalar, 0).len();
    &&& room(e, s) && reg(y) && s.ind.len() == 1 && col(s.ind, 0) == 0 && s.pos == b + lead(y)
    &&& on(e.d, b, dv(y, Root::Scalar, 0)) && at(e.d, p, 10) && at_doc_end(e.d, p + 1) && p + 1 <= e.d.len()
}
#[verifier::spinoff_prover]
proof fn lemma_root_first(d: Seq<u8>, b: int, y: Yaml)
    requires reg(y), on(d, b, dv(y, Root::Scalar, 0)), at(d, b + dv(y, Root::Scalar, 0).len(), 10)
    ensures
        lead(y) == 1 ==> at(d, b, 10) && dash_at(d, b + 1) && dv(y, Root::Scalar, 0)[0] == '\n' && dv(y, Root::Scalar, 0)[1] == '-',
        lead(y) == 0 ==> key_at(d, b),
        0 <= b < d.len(), dv(y, Root::Scalar, 0).len() > lead(y),
{
    hide(dval); hide(ditems); hide(dpairs);
    let t = dv(y, Root::Scalar, 0);
    lemma_reg_leaf(y);
    if leaf(y) { lemma_leaf_txt(y, Root::Scalar, 0); lemma_leaf_first(d, b, y); }
    else {
        lemma_full(d, b, y, Root::Scalar, 0);
        match y {
            Yaml::Seq(v) => {
                lemma_item_at(d, b, v, 0, 0);
                lemma_item_line(d, b + 1, v, 0, 0, b + vdd(v, 1, 0).len() - 1);
                lemma_items_ge(v, 0, v@.len() as int, 0);
                assert(d[b + 0] == t[0] as u8 && d[b + 1] == t[1] as u8);
                lemma_nl_char(t[0]); lemma_dash_char(t[1]);
            }
            Yaml::Map(m) => {
                lemma_pair_at(d, b, m, 0, Root::Scalar, 0);
                lemma_key_first(d, b, m, 0, Root::Scalar, 0);
                lemma_pairs_ge(m, 0, m.v@.len() as int, Root::Scalar, 0);
            }
            _ => {}
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_dash_char(c: char)
    requires (c as u32) < 0x80
    ensures (c as u8 == 45) == (c == '-')
{}
#[verifier::spinoff_prover]
proof fn lemma_root_leaf(e: GE, s: GS, b: int, y: Yaml)
    requires root_at(e, s, b, y), leaf(y)
    ensures val_ok(s, 0, y, b + dv(y, Root::Scalar, 0).len(), g_value(e, s, 0, false, false))
{
    let p = b + dv(y, Root::Scalar, 0).len();
    lemma_leaf_txt(y, Root::Scalar, 0);
    lemma_widen(s.ind, 1);
    lemma_follow_ends(e.d, p, -1, false, s.ind, 1);
    lemma_leaf_item(e, s, 0, y);
}
#[verifier::spinoff_prover]
proof fn lemma_root_seq(e: GE, s: GS, b: int, v: Vec<Node>)
    requires root_at(e, s, b, Yaml::Seq(v)), v@.len() > 0
    ensures val_ok(s, 0, Yaml::Seq(v), b + dv(Yaml::Seq(v), Root::Scalar, 0).len(), g_value(e, s, 0, false, false))
{
    hide(g_value); hide(g_entry); hide(dval); hide(ditems); hide(yeq); hide(neq); hide(on); hide(sum);
    let y = Yaml::Seq(v);
    lemma_full(e.d, b, y, Root::Scalar, 0);
    lemma_root_first(e.d, b, y);
    lemma_item_at(e.d, b, v, 0, 0);
    let s2 = moved(s, s.pos + 2, s.ind);
    assert(entry_at(e, s2, b, v, 0, 0, 0, -1, false, Seq::empty()));
    lemma_entry(e, s2, b, v, 0, 0, 0, -1, false, Seq::empty());
    lemma_seq_root(e, s, 0);
}
#[verifier::spinoff_prover]
proof fn lemma_root_map(e: GE, s: GS, b: int, m: LMap)
    requires root_at(e, s, b, Yaml::Map(m)), m.v@.len() > 0
    ensures val_ok(s, 0, Yaml::Map(m), b + dv(Yaml::Map(m), Root::Scalar, 0).len(), g_value(e, s, 0, false, false))
{
    hide(g_value); hide(g_first); hide(dval); hide(dpairs); hide(yeq); hide(neq); hide(on); hide(sum);
    let y = Yaml::Map(m);
    lemma_full(e.d, b, y, Root::Scalar, 0);
    lemma_root_first(e.d, b, y);
    lemma_mdd0(m, Root::Scalar, 0);
    assert(in_map(e, s, b, m, 0, Root::Scalar, 0, 0, -1));
    lemma_map_from(e, s, b, m, Root::Scalar, 0, 0, -1);
    lemma_here_value(e, s, 0);
}
#[verifier::spinoff_prover]
proof fn lemma_root(e: GE, s: GS, b: int, n: Node)
    requires root_at(e, s, b, yv(n))
    ensures node_ok(s, 0, n, b + doc_txt(n).len(), g_scalar(e, s, 0, false, false))
{
    hide(g_value); hide(g_scalar); hide(dval); hide(yeq); hide(neq); hide(on); hide(sum); hide(ind_widths); hide(m_dash);
    let y = yv(n);
    lemma_reg_leaf(y);
    lemma_root_first(e.d, b, y);
    if leaf(y) { lemma_root_leaf(e, s, b, y); }
    else { match y { Yaml::Seq(v) => { lemma_root_seq(e, s, b, v); } Yaml::Map(m) => { lemma_root_map(e, s, b, m); } _ => {} } }
    if lead(y) == 1 { assert(e.d[s.pos] == 45); }
    lemma_scalar(e, s, 0, false, n, b + doc_txt(n).len(), 0);
}
/// The start of a document: at its text, or on the line in front of it.
pub open spec fn doc_at(e: GE, s: GS, b: int, n: Node) -> bool {
    let p = b + doc_txt(n).len();
    &&& 0 <= s.eaten <= s.pos <= e.d.len() <= lim() && reg(yv(n)) && ind_widths(s.ind, 0) == seq![0usize]
    &&& on(e.d, b, doc_txt(n)) && at(e.d, p, 10) && p + 1 <= e.d.len() && (p + 1 == e.d.len() || lit_at(e.d, p + 1, seq![45u8, 45u8, 45u8]))
    &&& s.pos == b || (s.pos == b - 1 && at(e.d, s.pos, 10) && lead(yv(n)) == 0)
}
/// The gap in front of a document.
#[verifier::spinoff_prover]
proof fn lemma_doc_gap(e: GE, s: GS, b: int, n: Node)
    requires doc_at(e, s, b, n)
    ensures
        ({ let s1 = match m_bound(e.d, s.pos) { Some(x) => to(s, x), None => s }; s1 == s }),
        gapped(e, s) == to(s, b + lead(yv(n))), b + lead(yv(n)) < e.d.len(), !at_doc_end(e.d, b + lead(yv(n))), !blank(e.d[b + lead(yv(n))]),
        !at(e.d, s.pos, 37)
{
    hide(dval); hide(reg);
    let y = yv(n);
    lemma_root_first(e.d, b, y);
    let x = b + lead(y);
    if lead(y) == 1 { lemma_dash(e.d, x); }
    assert(line(e.d, x, 0));
    if s.pos == x { lemma_here(e.d, x); } else { lemma_gap1(e.d, s.pos, 0); }
    lemma_run_here(e.d, s.pos);
}
#[verifier::spinoff_prover]
proof fn lemma_sum0(w: Seq<usize>)
    requires ind_widths(w, 0) == seq![0usize]
    ensures sum(ind_widths(w, 0)) == 0, ind_widths(ind_widths(w, 0), 0) == seq![0usize], ind_widths(w, 0).len() == 1
{
    reveal_with_fuel(sum, 3);
    assert(seq![0usize].drop_last() =~= Seq::<usize>::empty());
    lemma_lower(w, 0, 0);
}
/// One document.
#[verifier::spinoff_prover]
proof fn lemma_doc(e: GE, s: GS, b: int, n: Node)
    requires doc_at(e, s, b, n)
    ensures match g_doc(e, s) {
        GR::Ok(m, s1) => neq(n, m) && s1.pos == b + doc_txt(n).len() && s1.eaten == s1.pos && ind_widths(s1.ind, 0) == seq![0usize],
        _ => false,
    }
{
    hide(g_scalar); hide(dval); hide(reg); hide(yeq); hide(neq); hide(on); hide(m_bound); hide(sum);
    let x = b + lead(yv(n));
    lemma_doc_gap(e, s, b, n);
    lemma_sum0(s.ind);
    let s2 = to(s, x);
    assert(has_ind(e, s2, 0));
    let s3 = GS { pos: x, eaten: x, ind: ind_widths(s.ind, 0), anc: Map::empty() };
    lemma_run_here(e.d, x);
    let p = b + doc_txt(n).len();
    lemma_root(e, s3, b, n);
    let r = g_scalar(e, s3, 0, false, false);
    let s4 = r->Ok_1;
    assert(fwd(blank_to(e, s3)) == s3);
    lemma_doc_end(e, s4, p);
}
#[verifier::spinoff_prover]
proof fn lemma_doc_end(e: GE, s: GS, p: int)
    requires s.pos == p, s.eaten == p, 0 <= p, at(e.d, p, 10), p + 1 == e.d.len() || lit_at(e.d, p + 1, seq![45u8, 45u8, 45u8])
    ensures g_doc_end(e, s) == s, gapped(e, s) == to(s, p + 1)
{
    let a = seq![45u8, 45u8, 45u8];
    let c = seq![46u8, 46u8, 46u8];
    if p + 1 < e.d.len() { assert(e.d[p + 1 + 0] == a[0]); if lit_at(e.d, p + 1, c) { assert(e.d[p + 1 + 0] == c[0]); } }
    assert(line(e.d, p + 1, 0));
    lemma_gap1(e.d, p, 0);
}
/// Every document is regular and without tag.
pub open spec fn reg_docs(ns: Seq<Node>) -> bool { forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() ==> ns[i].tag@.len() == 0 && reg(yv(ns[i])) }
pub open spec fn no_tables(a: Seq<Anchors>) -> bool { forall|i: int| #[trigger] ttable(a, i) == no_tab() }
/// The length of the first documents.
pub open spec fn dlen(ns: Seq<Node>, a: Seq<Anchors>, k: int) -> int { dstream(ns, a, k as nat).len() as int }
/// Where the text of a document starts.
pub open spec fn dbase(ns: Seq<Node>, a: Seq<Anchors>, i: int) -> int { dlen(ns, a, i) + if i == 0 { 0int } else if lead(yv(ns[i])) == 1 { 3 } else { 4 } }
#[verifier::spinoff_prover]
proof fn lemma_trim_here(t: Seq<char>)
    requires t.len() > 0, !ws_char(t[0])
    ensures trim_start(t) == t
{}
/// The first byte is no blank character.
#[verifier::spinoff_prover]
proof fn lemma_first_char(c: char)
    requires (c as u32) < 0x80, leaf_byte(c as u8) || c as u8 == 63
    ensures !ws_char(c)
{}
/// The text of a document in the stream.
#[verifier::spinoff_prover]
proof fn lemma_doc_txt(ns: Seq<Node>, a: Seq<Anchors>, i: int)
    requires reg_docs(ns), no_tables(a), 0 <= i < ns.len()
    ensures dstream(ns, a, (i + 1) as nat) == dstream(ns, a, i as nat) + ddoc(ns[i], no_tab(), i), ddoc(ns[i], no_tab(), i) == ddoc1(ns[i], i)
{
    hide(dval); hide(reg);
    assert((i + 1) as nat - 1 == i as nat);
    assert(ttable(a, i) == no_tab());
    assert(ns[i].tag@.len() == 0 && reg(yv(ns[i])));
    lemma_no_props(ns[i], doc_txt(ns[i]));
    assert(dnode(ns[i], Root::Scalar, 0, no_tab()) == doc_txt(ns[i]));
    let y = yv(ns[i]);
    let t = doc_txt(ns[i]);
    if i > 0 {
        lemma_asc(y, Root::Scalar, 0);
        lemma_nl_asc(t);
        let d = bytes(t + nl());
        lemma_on_all(t + nl());
        lemma_on_cat(d, 0, t, nl());
        lemma_on1(d, t.len() as int, '\n');
        lemma_root_first(d, 0, y);
        let u = t + nl();
        assert(u[0] == t[0] && d[0] == u[0] as u8 && (u[0] as u32) < 0x80) by { assert((t[0] as u32) < 0x80); }
        if lead(y) == 1 {
            assert(u[1] == t[1] && t[1] == '-');
            assert(!ws_char(u.drop_first()[0]));
            lemma_trim_here(u.drop_first());
            assert(ws_char(u[0]));
            assert(trim_start(u) == u.drop_first());
            assert(seq!['-', '-', '-', '\n'] + u.drop_first() =~= seq!['-', '-', '-'] + u);
        } else {
            lemma_first_char(u[0]);
            lemma_trim_here(u);
        }
    }
}
/// The text of a document, marker included.
pub open spec fn ddoc1(n: Node, i: int) -> Seq<char> {
    if i == 0 { doc_txt(n) + nl() } else if lead(yv(n)) == 1 { seq!['-', '-', '-'] + (doc_txt(n) + nl()) } else { seq!['-', '-', '-', '\n'] + (doc_txt(n) + nl()) }
}
// ---- the texts are ASCII

#[verifier::spinoff_prover]
proof fn lemma_asc_cat(a: Seq<char>, b: Seq<char>)
    requires asc(a), asc(b)
    ensures asc(a + b)
{ assert forall|k: int| 0 <= k < (a + b).len() implies (#[trigger] (a + b)[k] as u32) < 0x80 by { if k < a.len() { assert((a[k] as u32) < 0x80); } else { assert((b[k - a.len()] as u32) < 0x80); } } }
#[verifier::spinoff_prover]
proof fn lemma_nl_asc(t: Seq<char>)
    requires asc(t)
    ensures asc(t + nl()), asc(nl())
{ lemma_asc_cat(t, nl()); }
#[verifier::spinoff_prover]
proof fn lemma_dind_asc(lv: nat)
    ensures asc(dind(lv))
{ lemma_dind(lv); }
#[verifier::spinoff_prover]
proof fn lemma_leaf_asc(y: Yaml)
    requires leaf(y)
    ensures asc(leaf_txt(y))
{
    reveal_strlit("[]"); reveal_strlit("{}"); reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    let t = leaf_txt(y);
    match y {
        Yaml::Str(x) => { lemma_str(x, 0); }
        Yaml::Int(x) => { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k] as u32) < 0x80 by { if k >= minus(t) { assert(c_digit(t[k])); } } }
        Yaml::Float(x) => { let p = choose|p: int| flo_at(t, p); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k] as u32) < 0x80 by { if k >= minus(t) && k != p { assert(c_digit(t[k])); } } }
        _ => {}
    }
}
#[verifier::spinoff_prover]
proof fn lemma_cut_asc(t: Seq<char>)
    requires asc(t), t.len() > 0
    ensures asc(t.drop_last())
{ assert forall|k: int| 0 <= k < t.drop_last().len() implies (#[trigger] t.drop_last()[k] as u32) < 0x80 by { assert((t[k] as u32) < 0x80); } }
#[verifier::spinoff_prover]
proof fn lemma_ditem_asc(pre: Seq<char>, it: Seq<char>, ind: bool, lv: nat)
    requires asc(pre), asc(it)
    ensures asc(ditem(pre, it, ind, lv))
{
    hide(dind); hide(asc);
    lemma_dind_asc(lv);
    lemma_asc_cat(pre, dind(lv));
    let b = if ind { pre + dind(lv) } else { pre };
    assert(asc(seq!['-', ' '])) by { reveal(asc); }
    lemma_asc_cat(b, seq!['-', ' ']);
    lemma_asc_cat(b + seq!['-', ' '], it);
    lemma_nl_asc(b + seq!['-', ' '] + it);
}
#[verifier::spinoff_prover]
proof fn lemma_dpair_asc(pre: Seq<char>, key: Node, kt: Seq<char>, vt: Seq<char>, ind: bool, lv: nat)
    requires asc(pre), asc(kt), asc(vt)
    ensures asc(dpair(pre, key, kt, vt, ind, lv))
{
    hide(dind); hide(asc);
    lemma_dind_asc(lv); lemma_dind_asc(lv + 1);
    lemma_asc_cat(pre, dind(lv));
    let a = if ind { pre + dind(lv) } else { pre };
    assert(asc(seq!['?']) && asc(seq![':']) && asc(seq![' '])) by { reveal(asc); }
    lemma_asc_cat(a, seq!['?']);
    lemma_asc_cat(a + seq!['?'], dind(lv + 1));
    lemma_nl_asc(a + seq!['?'] + dind(lv + 1));
    lemma_asc_cat(a + seq!['?'] + dind(lv + 1) + nl(), kt);
    lemma_nl_asc(a + seq!['?'] + dind(lv + 1) + nl() + kt);
    lemma_asc_cat(a + seq!['?'] + dind(lv + 1) + nl() + kt + nl(), dind(lv));
    lemma_asc_cat(a, kt);
    let b = if dblock(key) { a + seq!['?'] + dind(lv + 1) + nl() + kt + nl() + dind(lv) } else { a + kt };
    lemma_asc_cat(b, seq![':']);
    let c = b + seq![':'];
    lemma_asc_cat(c, seq![' ']);
    let d = if nl().is_prefix_of(vt) { c } else { c + seq![' '] };
    lemma_asc_cat(d, vt);
    lemma_nl_asc(d + vt);
}
#[verifier::spinoff_prover]
proof fn lemma_asc(y: Yaml, root: Root, lv: int)
    requires reg(y), 0 <= lv
    ensures asc(dv(y, root, lv))
    decreases y, 0int
{
    hide(asc);
    lemma_reg_leaf(y);
    if leaf(y) { lemma_leaf_txt(y, root, lv as nat); lemma_leaf_asc(y); }
    else { match y {
        Yaml::Seq(v) => { lemma_items_asc(v, v@.len() as int, lv); lemma_ditems_nl(v, v@.len(), lv as nat, no_tab()); lemma_cut_asc(vdd(v, v@.len() as int, lv)); }
        Yaml::Map(m) => { lemma_pairs_asc(m, m.v@.len() as int, root, lv); lemma_dpairs_nl(m, m.v@.len(), root, lv as nat, no_tab()); lemma_cut_asc(mdd(m, m.v@.len() as int, root, lv)); }
        _ => {}
    } }
}
#[verifier::spinoff_prover]
proof fn lemma_items_asc(v: Vec<Node>, n: int, lv: int)
    requires reg(Yaml::Seq(v)), 0 <= n <= v@.len(), 0 <= lv
    ensures asc(vdd(v, n, lv))
    decreases v, n
{
    if n > 0 {
        lemma_items_step(v, n - 1, lv);
        lemma_items_asc(v, n - 1, lv);
        assert(v@[n - 1].tag@.len() == 0 && reg(yv(v@[n - 1])));
        lemma_asc(yv(v@[n - 1]), Root::Array, lv + 1);
        lemma_ditem_asc(vdd(v, n - 1, lv), itx(v, n - 1, lv), n - 1 > 0 || lv > 0, lv as nat);
    } else { assert(vdd(v, 0, lv) == nl()); }
}
#[verifier::spinoff_prover]
proof fn lemma_pairs_asc(m: LMap, n: int, root: Root, lv: int)
    requires reg(Yaml::Map(m)), 0 <= n <= m.v@.len(), 0 <= lv
    ensures asc(mdd(m, n, root, lv))
    decreases m, n
{
    if n > 0 {
        let j = n - 1;
        lemma_pairs_step(m, j, root, lv);
        lemma_pairs_asc(m, j, root, lv);
        assert(m.v@[j].0.tag@.len() == 0 && reg(yv(m.v@[j].0)) && reg(yv(m.v@[j].1)));
        lemma_asc(yv(m.v@[j].0), Root::Map, lv + 1);
        lemma_asc(yv(m.v@[j].1), Root::Map, vlv(m, j, root, lv));
        lemma_dpair_asc(mdd(m, j, root, lv), m.v@[j].0, ktx(m, j, lv), vtx(m, j, root, lv), j > 0 || root is Map, lv as nat);
    } else { lemma_mdd0(m, root, lv); }
}
#[verifier::spinoff_prover]
proof fn lemma_docs_asc(ns: Seq<Node>, a: Seq<Anchors>, k: int)
    requires reg_docs(ns), no_tables(a), 0 <= k <= ns.len()
    ensures asc(dstream(ns, a, k as nat))
    decreases k
{
    hide(dval); hide(reg); hide(asc);
    if k > 0 {
        let i = k - 1;
        lemma_docs_asc(ns, a, i);
        lemma_doc_txt(ns, a, i);
        assert(reg(yv(ns[i]))) by { assert(ns[i].tag@.len() == 0); }
        lemma_asc(yv(ns[i]), Root::Scalar, 0);
        let t = doc_txt(ns[i]);
        lemma_nl_asc(t);
        assert(asc(seq!['-', '-', '-']) && asc(seq!['-', '-', '-', '\n'])) by { reveal(asc); }
        lemma_asc_cat(seq!['-', '-', '-'], t + nl());
        lemma_asc_cat(seq!['-', '-', '-', '\n'], t + nl());
        lemma_asc_cat(dstream(ns, a, i as nat), ddoc1(ns[i], i));
    } else { reveal(asc); }
}
// ---- streams

/// The first documents stand at the start.
#[verifier::spinoff_prover]
proof fn lemma_docs_on(d: Seq<u8>, ns: Seq<Node>, a: Seq<Anchors>, n: int, k: int)
    requires reg_docs(ns), no_tables(a), 0 <= k <= n <= ns.len(), on(d, 0, dstream(ns, a, n as nat))
    ensures on(d, 0, dstream(ns, a, k as nat))
    decreases n - k
{
    hide(dval); hide(reg); hide(on);
    if k < n {
        lemma_doc_txt(ns, a, n - 1);
        lemma_on_cat(d, 0, dstream(ns, a, (n - 1) as nat), ddoc1(ns[n - 1], n - 1));
        lemma_docs_on(d, ns, a, n - 1, k);
    }
}
/// The place of a document in the stream.
#[verifier::spinoff_prover]
proof fn lemma_doc_place(d: Seq<u8>, ns: Seq<Node>, a: Seq<Anchors>, i: int)
    requires reg_docs(ns), no_tables(a), 0 <= i < ns.len(), on(d, 0, dstream(ns, a, ns.len()))
    ensures
        on(d, dbase(ns, a, i), doc_txt(ns[i])), at(d, dbase(ns, a, i) + doc_txt(ns[i]).len(), 10), dlen(ns, a, i + 1) == dbase(ns, a, i) + doc_txt(ns[i]).len() + 1,
        i > 0 ==> lit_at(d, dlen(ns, a, i), seq![45u8, 45u8, 45u8]) && (lead(yv(ns[i])) == 0 ==> at(d, dlen(ns, a, i) + 3, 10)),
        0 <= dlen(ns, a, i), dlen(ns, a, i + 1) <= d.len(), i == 0 ==> dlen(ns, a, i) == 0,
{
    hide(dval); hide(reg); hide(on); hide(lead);
    lemma_docs_on(d, ns, a, ns.len() as int, i + 1);
    lemma_doc_txt(ns, a, i);
    let t = doc_txt(ns[i]);
    let u = t + nl();
    let (m3, m4) = (seq!['-', '-', '-'], seq!['-', '-', '-', '\n']);
    let x = dlen(ns, a, i);
    lemma_on_in(d, 0, dstream(ns, a, (i + 1) as nat));
    lemma_on_cat(d, 0, dstream(ns, a, i as nat), ddoc1(ns[i], i));
    lemma_on_cat(d, x, m3, u);
    lemma_on_cat(d, x, m4, u);
    lemma_on_cat(d, dbase(ns, a, i), t, nl());
    lemma_on1(d, dbase(ns, a, i) + t.len(), '\n');
    if i > 0 {
        if lead(yv(ns[i])) == 1 { lemma_bytes_at(d, x, m3); assert(d[x] == 45 && d[x + 1] == 45 && d[x + 2] == 45); }
        else { lemma_bytes_at(d, x, m4); assert(d[x] == 45 && d[x + 1] == 45 && d[x + 2] == 45 && d[x + 3] == 10); }
        let m = seq![45u8, 45u8, 45u8];
        assert forall|k: int| 0 <= k < 3 implies #[trigger] d[x + k] == m[k] by {}
    }
}
/// The documents from `i` on.
#[verifier::spinoff_prover]
proof fn lemma_stream(e: GE, s: GS, ns: Seq<Node>, a: Seq<Anchors>, i: int, v: Seq<Node>, t: Seq<Map<Seq<char>, Node>>)
    requires
        reg_docs(ns), no_tables(a), 0 <= i < ns.len(), on(e.d, 0, dstream(ns, a, ns.len())), e.d.len() == dlen(ns, a, ns.len() as int), e.d.len() <= lim(),
        0 <= s.eaten <= s.pos, s.pos == dlen(ns, a, i) + (if i > 0 { 3int } else { 0 }), ind_widths(s.ind, 0) == seq![0usize], eq_items(ns, v, i),
    ensures g_docs(e, s, v, t) is Some, eq_items(ns, g_docs(e, s, v, t)->Some_0.0, ns.len() as int)
    decreases ns.len() - i
{
    hide(dval); hide(reg); hide(on); hide(dstream); hide(g_doc); hide(neq); hide(yeq); hide(lead); hide(ind_widths);
    let n = ns[i];
    let b = dbase(ns, a, i);
    let p = b + doc_txt(n).len();
    assert(reg(yv(n))) by { assert(n.tag@.len() == 0); }
    lemma_doc_place(e.d, ns, a, i);
    if i + 1 < ns.len() { lemma_doc_place(e.d, ns, a, i + 1); }
    lemma_lead(yv(n));
    assert(doc_at(e, s, b, n));
    lemma_doc(e, s, b, n);
    let r = g_doc(e, s);
    let s1 = GS { anc: Map::empty(), ..r->Ok_1 };
    let v2 = v.push(r->Ok_0);
    let t2 = t.push(r->Ok_1.anc);
    assert(eq_items(ns, v2, i + 1));
    lemma_doc_end(e, s1, p);
    assert(g_docs(e, s, v, t) == g_rest_docs(e, s1, v2, t2));
    if i + 1 < ns.len() {
        let s2 = to(gapped(e, s1), p + 4);
        assert(g_rest_docs(e, s1, v2, t2) == g_docs(e, s2, v2, t2));
        lemma_stream(e, s2, ns, a, i + 1, v2, t2);
    } else {
        assert(g_rest_docs(e, s1, v2, t2) == Some((v2, t2)));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_lead(y: Yaml)
    ensures lead(y) == 0 || lead(y) == 1
{}
/// Loading the dumped text of regular trees gives equal trees, in their order.
#[verifier::spinoff_prover]
pub proof fn law_round(ns: Seq<Node>, a: Seq<Anchors>, cyc: bool)
    requires reg_docs(ns), no_tables(a), ns.len() > 0, dstream(ns, a, ns.len()).len() <= lim()
    ensures g_text(utf8_enc(dstream(ns, a, ns.len())), cyc) is Some, eq_items(ns, g_text(utf8_enc(dstream(ns, a, ns.len())), cyc)->Some_0.0, ns.len() as int)
{
    hide(dval); hide(reg); hide(dstream); hide(g_docs); hide(neq); hide(yeq);
    let t = dstream(ns, a, ns.len());
    let d = bytes(t);
    lemma_docs_asc(ns, a, ns.len() as int);
    lemma_on_all(t);
    let e = GE { d, tags: default_tags(), cyc };
    let s = GS { pos: 0, eaten: 0, ind: seq![0usize], anc: Map::empty() };
    assert(ind_widths(s.ind, 0) =~= seq![0usize]);
    assert(reg(yv(ns[0]))) by { assert(ns[0].tag@.len() == 0); }
    lemma_doc_place(d, ns, a, 0);
    if 1 < ns.len() { lemma_doc_place(d, ns, a, 1); }
    assert(doc_at(e, s, 0, ns[0]));
    lemma_doc_gap(e, s, 0, ns[0]);
    lemma_stream(e, s, ns, a, 0, Seq::empty(), Seq::empty());
}
