// Locations: line, column and the text of the line.

/// Number of bytes in front of `i` with the property.
pub open spec fn cnt(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int) -> int
    decreases i
{
    if i <= 0 || i > d.len() { 0 } else { cnt(p, d, i - 1) + if p(d[i - 1]) { 1int } else { 0 } }
}
pub open spec fn p_lf() -> spec_fn(u8) -> bool { |c: u8| c == 10 }
pub open spec fn p_not(p: spec_fn(u8) -> bool) -> spec_fn(u8) -> bool { |c: u8| !p(c) }
/// Start of the `k`-th piece of a text which is split.
pub open spec fn piece_start(p: spec_fn(u8) -> bool, d: Seq<u8>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { run(p_not(p), d, piece_start(p, d, k - 1)) + 1 }
}
pub open spec fn piece_stop(p: spec_fn(u8) -> bool, d: Seq<u8>, k: int) -> int { run(p_not(p), d, piece_start(p, d, k)) }
/// Start of the line of an offset.
pub open spec fn line_start(d: Seq<u8>, i: int) -> int
    decreases i
{
    if i <= 0 || i > d.len() || d[i - 1] == 10 { i } else { line_start(d, i - 1) }
}
pub open spec fn nat_text(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![(48 + n) as char] } else { nat_text(n / 10).push((48 + n % 10) as char) }
}
pub open spec fn reps(s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else { reps(s, (n - 1) as nat) + s }
}
/// The location message of an offset.
pub open spec fn is_msg(m: Seq<char>, d: Seq<u8>, pos: int) -> bool {
    let s = line_start(d, pos);
    m == nat_text((cnt(p_lf(), d, pos) + 1) as nat) + seq![':'] + nat_text((pos - s + 1) as nat) + seq!['\n']
        + utf8(d.subrange(s, run(p_not(p_lf()), d, s))) + seq!['\n'] + reps(seq![' '], (pos - s) as nat) + seq!['^']
}
impl VFmt for usize { open spec fn ftext(&self) -> Seq<char> { nat_text(*self as nat) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
impl VFmt for u64 { open spec fn ftext(&self) -> Seq<char> { nat_text(*self as nat) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
impl Str {
    /// Panics when the size overflows.
    #[verifier::external_body]
    pub fn repeat(&self, n: usize) -> (r: Str)
        requires blen(self@) * n <= isize::MAX
        ensures r@ == reps(self@, n as nat)
    { unimplemented!() }
}
/// `slice::split`
#[verifier::external_body]
pub fn vs_split<F: Fn(&u8) -> bool>(d: &[u8], f: F) -> (r: Vec<&[u8]>)
    requires forall|c: &u8| call_requires(f, (c,))
    ensures forall|p: spec_fn(u8) -> bool| (forall|c: &u8, b: bool| #[trigger] call_ensures(f, (c,), b) ==> b == p(*c)) ==>
        r@.len() == #[trigger] cnt(p, d@, d@.len() as int) + 1
        && forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == d@.subrange(piece_start(p, d@, k), piece_stop(p, d@, k))
{ unimplemented!() }
pub proof fn lemma_cnt(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= d.len(), forall|k: int| i <= k < j ==> !p(#[trigger] d[k])
    ensures cnt(p, d, i) == cnt(p, d, j)
    decreases j - i
{
    if i < j { lemma_cnt(p, d, i, j - 1); }
}
pub proof fn lemma_piece_start(p: spec_fn(u8) -> bool, d: Seq<u8>, k: int)
    requires 0 <= k <= cnt(p, d, d.len() as int)
    ensures 0 <= piece_start(p, d, k) <= piece_stop(p, d, k) <= d.len(), cnt(p, d, piece_start(p, d, k)) == k,
        k > 0 ==> piece_start(p, d, k) > 0 && p(d[piece_start(p, d, k) - 1]),
        forall|j: int| piece_start(p, d, k) <= j < piece_stop(p, d, k) ==> !p(#[trigger] d[j]),
        cnt(p, d, piece_stop(p, d, k)) == k,
        piece_stop(p, d, k) < d.len() ==> p(d[piece_stop(p, d, k)]) && k < cnt(p, d, d.len() as int),
        piece_stop(p, d, k) == d.len() ==> k == cnt(p, d, d.len() as int),
    decreases k
{
    if k > 0 {
        lemma_piece_start(p, d, k - 1);
        let e = piece_stop(p, d, k - 1);
        assert(cnt(p, d, e + 1) == k);
    }
    let s = piece_start(p, d, k);
    lemma_run_bound(p_not(p), d, s);
    let e = piece_stop(p, d, k);
    assert forall|j: int| s <= j < e implies !p(#[trigger] d[j]) by { assert(p_not(p)(d[j])); }
    lemma_cnt(p, d, s, e);
    if e < d.len() {
        assert(!p_not(p)(d[e]));
        lemma_cnt_mono(p, d, e + 1, d.len() as int);
        assert(cnt(p, d, e + 1) == k + 1);
    }
}
pub proof fn lemma_cnt_mono(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= d.len()
    ensures cnt(p, d, i) <= cnt(p, d, j)
    decreases j - i
{
    if i < j { lemma_cnt_mono(p, d, i, j - 1); }
}
pub proof fn lemma_cnt_bound(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures 0 <= cnt(p, d, i) <= i
    decreases i
{
    if i > 0 { lemma_cnt_bound(p, d, i - 1); }
}
/// An offset in a piece: its line.
pub proof fn lemma_line(d: Seq<u8>, k: int, i: int)
    requires 0 <= k <= cnt(p_lf(), d, d.len() as int), piece_start(p_lf(), d, k) <= i <= piece_stop(p_lf(), d, k)
    ensures line_start(d, i) == piece_start(p_lf(), d, k), cnt(p_lf(), d, i) == k
    decreases i
{
    let p = p_lf();
    lemma_piece_start(p, d, k);
    lemma_cnt(p, d, piece_start(p, d, k), i);
    if i > piece_start(p, d, k) { assert(!p(d[i - 1])); lemma_line(d, k, i - 1); }
    else if i > 0 { assert(k > 0) by { if k == 0 { assert(piece_start(p, d, 0) == 0); } } assert(p(d[i - 1])); }
}
pub proof fn lemma_blank_len()
    ensures blen(seq![' ']) == 1
{
    reveal_with_fuel(blen, 2);
    assert(seq![' '].drop_last() =~= Seq::<char>::empty());
}
