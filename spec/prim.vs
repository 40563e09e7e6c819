== Parser::food
ret r
requires
    self.pos <= self.doc@.len(),
ensures
    r@ == self.doc@.subrange(self.pos as int, self.doc@.len() as int),

== Parser::text
ret r
requires
    old(self).wf(),
ensures
    [C02] *final(self) == *old(self),
    [C02] r@ == utf8(old(self).doc@.subrange(old(self).eaten as int, old(self).pos as int)),
proof start
    broadcast use axiom_utf8_empty;
    proof { if self.eaten == self.pos { assert(self.doc@.subrange(self.eaten as int, self.pos as int) =~= Seq::<u8>::empty()); } }

== Parser::forward
ensures
    *final(self) == (Parser { eaten: old(self).pos, ..*old(self) }),

== Parser::backward
ensures
    *final(self) == (Parser { pos: old(self).eaten, ..*old(self) }),

== Parser::back
locals n
requires
    old(self).pos >= n,
ensures
    *final(self) == (Parser { pos: (old(self).pos - n) as usize, ..*old(self) }),

== Parser::take_while
locals f opt pos counter
requires
    old(self).wf(),
    det(f),
ensures
    [C02] forall|p: spec_fn(u8) -> bool| #[trigger] cand(p) && is_pred(f, p) ==> final(self).step(old(self), r.is_ok(), m_take(p, old(self).doc@, old(self).pos as int, opt)),
    mism(r),
loop 0 invariant
    old(self).wf(), self.same(old(self)), pos == old(self).pos,
    it__1@ == self.doc@.subrange(pos as int, self.doc@.len() as int),
    det(f),
    self.pos == pos + counter, i__1 <= it__1@.len(),
loop 0 invariant_except_break
    i__1 == counter,
    opt is One ==> counter == 0,
    opt is Range ==> counter <= opt->Range_1,
    forall|p: spec_fn(u8) -> bool| #[trigger] cand(p) && is_pred(f, p) ==> all_p(p, self.doc@, pos as int, counter as int),
loop 0 ensures
    forall|p: spec_fn(u8) -> bool| #[trigger] cand(p) && is_pred(f, p) ==> taken(p, self.doc@, pos as int, counter as int, opt),
    self.pos <= self.doc@.len(),
loop 0 decreases
    it__1@.len() - i__1,
proof after loop 0
    assert forall|p: spec_fn(u8) -> bool| #[trigger] cand(p) && is_pred(f, p) implies m_take(p, self.doc@, pos as int, opt) == taken_res(pos as int, counter as int, opt) by {
        lemma_taken(p, self.doc@, pos as int, counter as int, opt);
    }

== Parser::not_in
ret r
ensures
    [C02] det(r) && is_pred(r, p_not_in(s@)) && cand(p_not_in(s@)),
closure 0
    move |c: &u8| -> (r__: bool) ensures r__ == !mem(s@, *c)
loop 0 invariant
    it__1@ == s@, i__1 <= it__1@.len(),
    forall|k: int| 0 <= k < i__1 ==> s@[k] != *c,
loop 0 decreases
    it__1@.len() - i__1,

== Parser::is_in
ret r
ensures
    [C02] det(r) && is_pred(r, p_in(s@)) && cand(p_in(s@)),
closure 0
    move |c: &u8| -> (r__: bool) ensures r__ == mem(s@, *c)

== Parser::sym
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_char(old(self).doc@, old(self).pos as int, s)),
    mism(r),

== Parser::sym_set
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_set(old(self).doc@, old(self).pos as int, s@)),
    mism(r),
proof end
    proof { lemma_run_bound(p_in(s@), old(self).doc@, old(self).pos as int); }

== Parser::sym_seq
ret r
locals s
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_seq(old(self).doc@, old(self).pos as int, s@)),
    mism(r),
loop 0 invariant
    old(self).wf(), self.wf(), self.same(old(self)), it__1@ == s@, i__1 <= it__1@.len(),
    self.pos == old(self).pos + i__1,
    forall|k: int| 0 <= k < i__1 ==> old(self).doc@[old(self).pos + k] == #[trigger] s@[k],
loop 0 decreases
    it__1@.len() - i__1,

== Parser::ws
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_take(p_blank(), old(self).doc@, old(self).pos as int, opt)),
    mism(r),
proof start
    proof { cands(); }

== Parser::inv
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_take(p_white(), old(self).doc@, old(self).pos as int, opt)),
    mism(r),
proof start
    proof { cands(); }

== Parser::nl
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step_here(old(self), r.is_ok(), m_nl(old(self).doc@, old(self).pos as int)),
    mism(r),

== Parser::bound
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_bound(old(self).doc@, old(self).pos as int)),
    mism(r),
proof start
    proof { lemma_run_bound(p_blank(), self.doc@, self.pos as int); }

== Parser::complex_mapping
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_complex(old(self).doc@, old(self).pos as int)),
    mism(r),

== Parser::num_bound
ret r
requires
    old(self).wf(),
ensures
    [C02 C03] final(self).step(old(self), r.is_ok(), m_num_bound(old(self).doc@, old(self).pos as int)),
    mism(r),
proof start
    proof { lemma_run_bound(p_blank(), self.doc@, self.pos as int); }

== Parser::comment
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_comment(old(self).doc@, old(self).pos as int)),
    mism(r),
proof start
    proof {
        cands();
        lemma_run_bound(p_blank(), self.doc@, self.pos as int);
        let e = run(p_blank(), self.doc@, self.pos as int);
        if at(self.doc@, e, 35) { lemma_run_bound(p_line(), self.doc@, e + 1); }
    }

== Parser::gap
ret r
locals cmt t
requires
    old(self).wf(),
ensures
    r.is_ok() ==> 1 <= r->Ok_0 <= final(self).pos - old(self).pos,
    [C02] final(self).same(old(self)) && final(self).wf() && r.is_ok() == (m_gap(old(self).doc@, old(self).pos as int, cmt) is Some),
    [C02] match m_gap(old(self).doc@, old(self).pos as int, cmt) { Some(e) => r.is_ok() && final(self).pos == e.0 && r->Ok_0 == e.1, None => final(self).pos == gap_fail(old(self).doc@, old(self).pos as int, cmt) },
    mism(r),
proof start
    let ghost d = self.doc@;
    let ghost i0 = self.pos as int;
    let ghost e0 = self.eaten as int;
    proof {
        lemma_run_bound(p_blank(), d, i0);
        lemma_skip_comment(d, run(p_blank(), d, i0));
        let c = if cmt { skip_comment(d, run(p_blank(), d, i0)) } else { i0 };
        match m_nl(d, c) { Some(e) => lemma_lines(d, e, cmt), None => {} }
    }
loop 0 invariant
    self.wf(), self.doc@ == old(self).doc@, self.indent@ == old(self).indent@, self.consumed == old(self).consumed,
    self.version_checked == old(self).version_checked, self.tag@ == old(self).tag@,
    old(self).wf(), d == old(self).doc@, i0 == old(self).pos, i0 <= self.pos,
    m_gap(d, i0, cmt) is Some,
    m_gap(d, i0, cmt)->Some_0.0 == m_lines(d, self.pos as int, cmt).0,
    m_gap(d, i0, cmt)->Some_0.1 == m_lines(d, self.pos as int, cmt).1 + t,
    1 <= t <= self.pos - i0, eaten__1 == old(self).eaten,
loop 0 decreases
    self.doc@.len() - self.pos,
proof loop 0 start
    proof {
        lemma_run_bound(p_blank(), d, self.pos as int);
        lemma_skip_comment(d, run(p_blank(), d, self.pos as int));
        lemma_lines(d, self.pos as int, cmt);
    }

== Parser::identifier
ret r
requires
    old(self).wf(),
ensures
    [C02] final(self).step(old(self), r.is_ok(), m_ident(old(self).doc@, old(self).pos as int)),
    mism(r),
proof start
    proof {
        cands();
        let d = self.doc@;
        let i = self.pos as int;
        lemma_run_bound(p_alnum(), d, i);
        if i < d.len() { lemma_run_bound(p_id(), d, i + 1); }
    }

== Parser::anchor
ret r
requires
    old(self).wf(),
ensures
    [C02 C09] final(self).step(old(self), r.is_ok(), m_name(old(self).doc@, old(self).pos as int, 38)),
    [C09] r.is_ok() ==> r->Ok_0@ == utf8(old(self).doc@.subrange(old(self).pos + 1, final(self).pos as int)),
    r.is_ok() ==> r->Ok_0@.len() > 0,
    mism(r),
proof start
    broadcast use axiom_utf8_some;
    proof { if self.pos + 1 < self.doc@.len() { lemma_run_bound(p_id(), self.doc@, self.pos + 2); } }

== Parser::anchor_use
ret r
requires
    old(self).wf(),
ensures
    [C02 C09] final(self).step(old(self), r.is_ok(), m_name(old(self).doc@, old(self).pos as int, 42)),
    [C09] r.is_ok() ==> r->Ok_0@ == utf8(old(self).doc@.subrange(old(self).pos + 1, final(self).pos as int)),
    mism(r),
proof start
    proof { if self.pos + 1 < self.doc@.len() { lemma_run_bound(p_id(), self.doc@, self.pos + 2); } }

== Parser::ind
ret r
requires
    old(self).wf(),
    level < lim(),
ensures
    [C02 C15] final(self).same_ind(old(self)) && final(self).wf() && final(self).indent@ == ind_widths(old(self).indent@, level as int),
    [C02 C15] r.is_ok() == (m_ind(old(self).doc@, old(self).pos as int, old(self).indent@, level as int) is Some),
    [C02 C15] match m_ind(old(self).doc@, old(self).pos as int, old(self).indent@, level as int) { Some(e) => final(self).pos == e, None => final(self).pos == old(self).eaten },
    mism(r),
proof before vs_sum 0
    proof {
        lemma_sum(self.indent@);
        assert(self.indent@.len() * lim() <= 0x1_0000_0000 * 0x7fff_ffff) by (nonlinear_arith) requires self.indent@.len() <= 0x1_0000_0000;
        assert(self.indent@.subrange(0, level + 1) =~= self.indent@);
        assert(self.indent@ =~= ind_widths(old(self).indent@, level as int));
    }
loop 0 invariant
    old(self).wf(), self.wf(), self.same_ind(old(self)), self.indent@ == ind_widths(old(self).indent@, level as int),
    n__1 == sum(self.indent@), i__1 <= n__1, self.pos == old(self).pos + i__1,
    forall|k: int| old(self).pos <= k < self.pos ==> #[trigger] self.doc@[k] == 32,
loop 0 decreases
    n__1 - i__1,

== Parser::ind_define
ret r
requires
    old(self).wf(),
    level < lim(),
ensures
    [C02 C15] final(self).same_ind(old(self)) && final(self).wf(),
    [C02 C15] final(self).indent@ == ind_define_widths(old(self).doc@, old(self).pos as int, old(self).indent@, level as int),
    [C02 C15] r.is_ok() == (m_ind_define(old(self).doc@, old(self).pos as int, old(self).indent@, level as int) is Some),
    [C02 C15] match m_ind_define(old(self).doc@, old(self).pos as int, old(self).indent@, level as int) { Some(e) => final(self).pos == e, None => final(self).pos == old(self).eaten },
    mism(r),
proof start
    proof {
        cands();
        lemma_run_bound(p_white(), self.doc@, self.pos as int);
        match m_ind(self.doc@, self.pos as int, self.indent@, level - 1) { Some(e) => lemma_run_bound(p_white(), self.doc@, e), None => {} }
    }

== <Parser as Default>::default
ret r
ensures
    r.wf() && r.doc@.len() == 0 && r.pos == 0 && r.eaten == 0 && r.indent@ == seq![0usize] && !r.version_checked,
    [C10] r.tag@ == default_tags(),
proof start
    proof { reveal_strlit("!"); reveal_strlit("!!"); }

== Parser::new
ret r
requires
    doc@.len() <= lim(),
ensures
    r.wf() && r.doc@ == doc@ && r.pos == 0 && r.eaten == 0 && r.indent@ == seq![0usize] && !r.version_checked,
    [C10] r.tag@ == default_tags(),

== Parser::with_doc
ret r
ensures
    r == (Parser { doc, ..self }),
