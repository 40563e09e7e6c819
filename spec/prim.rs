// The grammar of the primitives, on the bytes of the document.

/// The byte at `i`, if any.
pub open spec fn at(d: Seq<u8>, i: int, c: u8) -> bool { 0 <= i < d.len() && d[i] == c }
/// The end of the longest run.
pub open spec fn run(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int) -> int
    decreases d.len() - i
{
    if 0 <= i < d.len() && p(d[i]) { run(p, d, i + 1) } else { i }
}
pub proof fn lemma_run(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= d.len(), forall|k: int| i <= k < e ==> p(#[trigger] d[k]), e == d.len() || !p(d[e])
    ensures run(p, d, i) == e
    decreases e - i
{
    if i < e { lemma_run(p, d, i + 1, e); }
}
pub proof fn lemma_run_bound(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures i <= run(p, d, i) <= d.len(), forall|k: int| i <= k < run(p, d, i) ==> p(#[trigger] d[k]),
        run(p, d, i) < d.len() ==> !p(d[run(p, d, i)])
    decreases d.len() - i
{
    if i < d.len() && p(d[i]) { lemma_run_bound(p, d, i + 1); }
}
pub open spec fn blank(c: u8) -> bool { c == 32 || c == 9 || c == 12 }
pub open spec fn p_blank() -> spec_fn(u8) -> bool { |c: u8| blank(c) }
pub open spec fn p_white() -> spec_fn(u8) -> bool { |c: u8| white(c) }
pub open spec fn p_digit() -> spec_fn(u8) -> bool { |c: u8| digit(c) }
pub open spec fn p_hex() -> spec_fn(u8) -> bool { |c: u8| hexdigit(c) }
pub open spec fn p_oct() -> spec_fn(u8) -> bool { |c: u8| 48 <= c <= 55 }
pub open spec fn p_id() -> spec_fn(u8) -> bool { |c: u8| alnum(c) || c == 45 }
pub open spec fn p_alnum() -> spec_fn(u8) -> bool { |c: u8| alnum(c) }
pub open spec fn p_line() -> spec_fn(u8) -> bool { |c: u8| c != 10 && c != 13 }
pub open spec fn p_space() -> spec_fn(u8) -> bool { |c: u8| c == 32 }

pub open spec fn mem(s: Seq<u8>, c: u8) -> bool {
    (0 < s.len() && s[0] == c) || (1 < s.len() && s[1] == c) || (2 < s.len() && s[2] == c) || (3 < s.len() && s[3] == c)
    || (4 < s.len() && s[4] == c) || (5 < s.len() && s[5] == c) || (6 < s.len() && s[6] == c) || (7 < s.len() && s[7] == c)
    || (8 < s.len() && s[8] == c) || (9 < s.len() && exists|i: int| 9 <= i < s.len() && #[trigger] s[i] == c)
}
pub proof fn lemma_mem(s: Seq<u8>, c: u8)
    ensures mem(s, c) == s.contains(c)
{}
pub open spec fn p_in(s: Seq<u8>) -> spec_fn(u8) -> bool { |c: u8| mem(s, c) }
pub open spec fn p_not_in(s: Seq<u8>) -> spec_fn(u8) -> bool { |c: u8| !mem(s, c) }

/// What `take_while` has to consume from `i`, `None` for a mismatch.
pub open spec fn m_take(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, opt: TakeOpt) -> Option<int> {
    let e = run(p, d, i);
    match opt {
        TakeOpt::One => if e > i { Some(i + 1) } else { None },
        TakeOpt::More(a) => if e - i >= a { Some(e) } else { None },
        TakeOpt::Range(a, b) => {
            let e = if e - i > b { i + b } else { e };
            if e - i >= a { Some(e) } else { None }
        },
    }
}
pub open spec fn all_p(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, n: int) -> bool {
    forall|k: int| i <= k < i + n ==> p(#[trigger] d[k])
}
/// `n` bytes taken, as many as possible.
pub open spec fn taken(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, n: int, opt: TakeOpt) -> bool {
    &&& 0 <= n && i + n <= d.len() && all_p(p, d, i, n)
    &&& opt is One ==> n <= 1
    &&& opt is Range ==> n <= opt->Range_1
    &&& i + n == d.len() || !p(d[i + n]) || (opt is One && n == 1) || (opt is Range && n == opt->Range_1)
}
pub open spec fn taken_res(i: int, n: int, opt: TakeOpt) -> Option<int> {
    let a = match opt { TakeOpt::One => 1, TakeOpt::More(a) => a as int, TakeOpt::Range(a, _) => a as int };
    if n >= a { Some(i + n) } else { None }
}
pub proof fn lemma_taken(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, n: int, opt: TakeOpt)
    requires 0 <= i <= d.len(), taken(p, d, i, n, opt)
    ensures m_take(p, d, i, opt) == taken_res(i, n, opt)
{
    lemma_run_bound(p, d, i);
    let e = run(p, d, i);
    lemma_run_split(p, d, i, i + n);
    if i + n == d.len() || !p(d[i + n]) { assert(e == i + n); }
    else { lemma_run_bound(p, d, i + n); }
}
pub proof fn lemma_run_split(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, m: int)
    requires 0 <= i <= m <= d.len(), all_p(p, d, i, m - i)
    ensures run(p, d, i) == run(p, d, m)
    decreases m - i
{
    if i < m { assert(p(d[i])); lemma_run_split(p, d, i + 1, m); }
}
pub open spec fn m_char(d: Seq<u8>, i: int, c: u8) -> Option<int> { if at(d, i, c) { Some(i + 1) } else { None } }
pub open spec fn m_set(d: Seq<u8>, i: int, s: Seq<u8>) -> Option<int> {
    if 0 <= i < d.len() && mem(s, d[i]) { Some(i + 1) } else { None }
}
pub open spec fn lit_at(d: Seq<u8>, i: int, s: Seq<u8>) -> bool {
    0 <= i && i + s.len() <= d.len() && forall|k: int| 0 <= k < s.len() ==> d[i + k] == #[trigger] s[k]
}
pub open spec fn m_seq(d: Seq<u8>, i: int, s: Seq<u8>) -> Option<int> {
    if lit_at(d, i, s) { Some(i + s.len()) } else { None }
}
/// A line break: CRLF, LFCR, LF or CR.
pub open spec fn m_nl(d: Seq<u8>, i: int) -> Option<int> {
    if at(d, i, 13) && at(d, i + 1, 10) { Some(i + 2) }
    else if at(d, i, 10) && at(d, i + 1, 13) { Some(i + 2) }
    else if at(d, i, 10) || at(d, i, 13) { Some(i + 1) }
    else { None }
}
/// Bytes at which a token can end.
pub open spec fn bound_byte(c: u8) -> bool {
    c == 58 || c == 123 || c == 125 || c == 91 || c == 93 || c == 32 || c == 44 || c == 10 || c == 13
}
pub open spec fn m_bound(d: Seq<u8>, i: int) -> Option<int> {
    if i >= d.len() { Some(i) } else if bound_byte(d[i]) { Some(run(p_blank(), d, i)) } else { None }
}
/// Blanks and `#` up to the end of the line.
pub open spec fn m_comment(d: Seq<u8>, i: int) -> Option<int> {
    let e = run(p_blank(), d, i);
    if at(d, e, 35) { Some(run(p_line(), d, e + 1)) } else { None }
}
pub open spec fn skip_comment(d: Seq<u8>, i: int) -> int {
    match m_comment(d, i) { Some(e) => e, None => i }
}
pub open spec fn m_complex(d: Seq<u8>, i: int) -> Option<int> {
    if at(d, i, 63) { m_bound(d, i + 1) } else { None }
}
/// The end of a number: a comment behind blanks, or a boundary.
pub open spec fn m_num_bound(d: Seq<u8>, i: int) -> Option<int> {
    let e = run(p_blank(), d, i);
    if e > i && at(d, e, 35) { Some(e) } else { m_bound(d, e) }
}
/// An anchor or an alias: the sign and the name.
pub open spec fn m_name(d: Seq<u8>, i: int, c: u8) -> Option<int> {
    if at(d, i, c) { m_ident(d, i + 1) } else { None }
}
/// More empty (or comment) lines; the last one can have no line break.
pub open spec fn m_lines(d: Seq<u8>, i: int, cmt: bool) -> (int, int)
    decreases d.len() - i when 0 <= i <= d.len() via lines_decreases
{
    let b = run(p_blank(), d, i);
    let c = if cmt { skip_comment(d, b) } else { b };
    match m_nl(d, c) {
        Some(e) => { let r = m_lines(d, e, cmt); (r.0, r.1 + 1) }
        None => (if c >= d.len() { c } else { i }, 0),
    }
}
#[via_fn]
proof fn lines_decreases(d: Seq<u8>, i: int, cmt: bool) {
    lemma_run_bound(p_blank(), d, i);
    let b = run(p_blank(), d, i);
    lemma_skip_comment(d, b);
}
pub proof fn lemma_skip_comment(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures i <= skip_comment(d, i) <= d.len(), i <= run(p_blank(), d, i) <= d.len(),
{
    lemma_run_bound(p_blank(), d, i);
    let e = run(p_blank(), d, i);
    if at(d, e, 35) { lemma_run_bound(p_line(), d, e + 1); }
}
pub proof fn lemma_lines(d: Seq<u8>, i: int, cmt: bool)
    requires 0 <= i <= d.len()
    ensures i <= m_lines(d, i, cmt).0 <= d.len(), 0 <= m_lines(d, i, cmt).1 <= d.len() - i,
    decreases d.len() - i
{
    lemma_run_bound(p_blank(), d, i);
    lemma_skip_comment(d, run(p_blank(), d, i));
    let b = run(p_blank(), d, i);
    let c = if cmt { skip_comment(d, b) } else { b };
    match m_nl(d, c) { Some(e) => lemma_lines(d, e, cmt), None => {} }
}
/// The gap between two lines: its end and its number of line breaks.
pub open spec fn m_gap(d: Seq<u8>, i: int, cmt: bool) -> Option<(int, int)> {
    let c = if cmt { skip_comment(d, run(p_blank(), d, i)) } else { i };
    match m_nl(d, c) {
        Some(e) => { let r = m_lines(d, e, cmt); Some((r.0, r.1 + 1)) }
        None => None,
    }
}
/// Where the cursor is after a missing gap: at the end of the document, the
/// last blanks and the last comment are consumed.
pub open spec fn gap_fail(d: Seq<u8>, i: int, cmt: bool) -> int {
    let c = if cmt { skip_comment(d, run(p_blank(), d, i)) } else { i };
    if c >= d.len() { c } else { i }
}
pub open spec fn m_ident(d: Seq<u8>, i: int) -> Option<int> {
    if 0 <= i < d.len() && alnum(d[i]) { Some(run(p_id(), d, i + 1)) } else { None }
}
/// Indentation widths after `ind(level)`.
pub open spec fn ind_widths(w: Seq<usize>, level: int) -> Seq<usize> {
    if level >= w.len() { w + Seq::new((level - w.len() + 1) as nat, |k: int| 2usize) } else { w.take(level + 1) }
}
pub open spec fn spaces(d: Seq<u8>, i: int, n: int) -> bool {
    0 <= i && i + n <= d.len() && forall|k: int| i <= k < i + n ==> #[trigger] d[k] == 32
}
pub open spec fn m_ind(d: Seq<u8>, i: int, w: Seq<usize>, level: int) -> Option<int> {
    let n = sum(ind_widths(w, level)) as int;
    if spaces(d, i, n) { Some(i + n) } else { None }
}
pub open spec fn m_ind_define(d: Seq<u8>, i: int, w: Seq<usize>, level: int) -> Option<int> {
    if level > 0 {
        match m_ind(d, i, w, level - 1) { Some(e) => Some(run(p_white(), d, e)), None => None }
    } else { Some(run(p_white(), d, i)) }
}
pub open spec fn ind_define_widths(d: Seq<u8>, i: int, w: Seq<usize>, level: int) -> Seq<usize> {
    if level > 0 {
        let v = ind_widths(w, level - 1);
        match m_ind(d, i, w, level - 1) { Some(e) => v.push((run(p_white(), d, e) - e) as usize), None => v }
    } else { w.update(0, (run(p_white(), d, i) - i) as usize) }
}
/// Limits which keep the arithmetic of the indentation in range.
pub open spec fn lim() -> int { 0x7fff_ffff }
pub open spec fn widths_ok(w: Seq<usize>) -> bool {
    1 <= w.len() <= 0x1_0000_0000 && forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] <= lim()
}
pub proof fn lemma_sum(w: Seq<usize>)
    requires forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] <= lim()
    ensures sum(w) <= w.len() * lim()
    decreases w.len()
{
    if w.len() > 0 {
        lemma_sum(w.drop_last());
        assert(w.last() <= lim());
        assert(w.drop_last().len() * lim() + lim() == w.len() * lim()) by (nonlinear_arith)
            requires w.drop_last().len() == w.len() - 1;
    }
}
/// The texts `!` and `!!` are always known.
pub open spec fn tags_ok(t: Map<Seq<char>, Seq<char>>) -> bool {
    t.dom().contains("!"@) && t.dom().contains("!!"@)
}

pub open spec fn default_tags() -> Map<Seq<char>, Seq<char>> {
    Map::<Seq<char>, Seq<char>>::empty().insert("!"@, Seq::empty()).insert("!!"@, "tag:yaml.org,2002:"@)
}

impl<'a> Parser<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.eaten <= self.pos <= self.doc@.len() <= lim()
        &&& widths_ok(self.indent@)
        &&& self.consumed == 0
        &&& tags_ok(self.tag@)
    }
    /// All but the cursor.
    pub open spec fn same(&self, o: &Self) -> bool {
        &&& self.doc@ == o.doc@ && self.eaten == o.eaten && self.indent@ == o.indent@ && self.consumed == o.consumed
        &&& self.version_checked == o.version_checked && self.tag@ == o.tag@
    }
    /// All but the cursor and the indentation.
    pub open spec fn same_ind(&self, o: &Self) -> bool {
        &&& self.doc@ == o.doc@ && self.eaten == o.eaten && self.consumed == o.consumed
        &&& self.version_checked == o.version_checked && self.tag@ == o.tag@
    }
    /// All but the cursor, the declared handles and the version.
    pub open spec fn same_but_tags(&self, o: &Self) -> bool {
        self.doc@ == o.doc@ && self.eaten == o.eaten && self.indent@ == o.indent@ && self.consumed == o.consumed
    }
    /// The outcome of a primitive: all of the match or back at the checkpoint.
    pub open spec fn step(&self, o: &Self, ok: bool, m: Option<int>) -> bool {
        &&& self.same(o) && self.wf()
        &&& ok == (m is Some)
        &&& self.pos == (match m { Some(e) => e, None => o.eaten as int })
    }
    /// As `step`, a mismatch leaves the cursor alone.
    pub open spec fn step_here(&self, o: &Self, ok: bool, m: Option<int>) -> bool {
        &&& self.same(o) && self.wf()
        &&& ok == (m is Some)
        &&& self.pos == (match m { Some(e) => e, None => o.pos as int })
    }
}
pub open spec fn mism<T>(r: PResult<T>) -> bool { r is Err ==> r->Err_0 is Mismatch }
/// A predicate given as an executable closure.
pub open spec fn is_pred<F: Fn(&u8) -> bool>(f: F, p: spec_fn(u8) -> bool) -> bool {
    forall|c: &u8, b: bool| #[trigger] f.ensures((c,), b) ==> b == p(*c)
}
/// A closure which always has one answer.
pub open spec fn det<F: Fn(&u8) -> bool>(f: F) -> bool {
    (forall|c: &u8| #[trigger] f.requires((c,)))
    && (forall|c: &u8, b1: bool, b2: bool| #[trigger] f.ensures((c,), b1) && #[trigger] f.ensures((c,), b2) ==> b1 == b2)
}
/// Marks the predicates of interest.
pub open spec fn cand(p: spec_fn(u8) -> bool) -> bool { true }
pub proof fn cands()
    ensures cand(p_blank()), cand(p_white()), cand(p_digit()), cand(p_hex()), cand(p_oct()), cand(p_id()), cand(p_alnum()), cand(p_line())
{}
