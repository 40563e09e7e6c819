== Parser::string_plain
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(60)]
requires
    old(self).wf(),
    level < lim(),
ensures
    [C07] final(self).same_ind(old(self)) && final(self).wf() && final(self).pos >= old(self).pos,
    [C07] at(old(self).doc@, old(self).pos as int, 35) ==> r.is_err() && final(self).pos == old(self).pos && final(self).indent@ == old(self).indent@,
    [C07] !at(old(self).doc@, old(self).pos as int, 35) && !plain_cont(old(self).doc@, plain_end(old(self).doc@, old(self).pos as int, old(self).pos as int, inner), old(self).indent@, level as int) ==> {
        &&& final(self).pos == plain_end(old(self).doc@, old(self).pos as int, old(self).pos as int, inner)
        &&& r.is_ok() == (plain_text_of(old(self).doc@, old(self).pos as int, inner).len() > 0)
        &&& r.is_ok() ==> r->Ok_0@ == plain_text_of(old(self).doc@, old(self).pos as int, inner)
    },
    [C07] ({
        let x = plain_fn(old(self).doc@, old(self).pos as int, old(self).indent@, level as int, inner);
        (match r { Ok(s) => Some(s@), Err(_) => None }) == x.0 && final(self).pos == x.1 && final(self).indent@ == x.2
    }),
    mism(r),
proof start
    broadcast use axiom_utf8_empty;
    proof { reveal(plain_fn); }
    let ghost all = prun(self.doc@, self.pos as int, self.indent@, Seq::empty(), false, level as int, inner);
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    let ghost w0 = self.indent@;
    let ghost p = plain_end(d, i, i, inner);
    proof { lemma_starts(d, i, seq![35u8]); assert([35u8]@ =~= seq![35u8]); lemma_plain_end(d, i, i, i, inner); assert(d.subrange(i, i) =~= Seq::<u8>::empty()); }
loop 0 invariant
    patt@ =~= pset(inner),
    self.wf(), self.same_ind(&Parser { eaten: self.eaten, ..*old(self) }), d == old(self).doc@, level < lim(), w0 == old(self).indent@,
    i == old(self).pos, i <= self.pos, i <= p <= d.len(), p == plain_end(d, i, i, inner),
    forall|c: u8| #[trigger] mem(patt@, c) == (bracket(c) || c == 58 || c == 32 || c == 10 || c == 13 || (inner && c == 44)),
    eaten__1 == old(self).eaten, old(self).wf(),
loop 0 invariant_except_break
    self.pos <= p ==> !is_leading && v@ == utf8(d.subrange(i, self.pos as int)) && self.indent@ == w0 && plain_end(d, self.pos as int, i, inner) == p
        && (self.pos == i || d[self.pos - 1] < 0x80),
    self.pos > p ==> plain_cont(d, p, w0, level as int),
    [C07] prun(d, self.pos as int, self.indent@, v@, is_leading, level as int, inner) == all,
loop 0 ensures
    [C07] (v@, self.pos as int, self.indent@) == all,
    !plain_cont(d, p, w0, level as int) ==> self.pos == p && trim_end(v@) == trim_end(utf8(d.subrange(i, p))),
loop 0 decreases
    d.len() - self.pos,
proof loop 0 start
    broadcast use axiom_utf8_some;
    let ghost q = self.pos as int;
    let ghost pp = p_not_in(patt@);
    let ghost q1 = run(pp, d, q);
    let ghost v1 = v@ + utf8(d.subrange(q, q1));
    let ghost x = pround1(d, q1, self.indent@, v1, is_leading, level as int, inner);
    proof {
        lemma_run_bound(pp, d, q);
        assert forall|k: int| q <= k < q1 implies !pstop(d, k, i, inner) by { assert(pp(d[k])); assert(!mem(patt@, d[k])); }
        lemma_plain_end(d, q, q1, i, inner);
        lemma_plain_end(d, q1, q1, i, inner);
        if q <= p {
            lemma_grow(d, i, q, q1);
            if q1 < d.len() {
                lemma_grow(d, i, q1, q1 + 1);
                if !pstop(d, q1, i, inner) { lemma_plain_end(d, q1, q1 + 1, i, inner); }
            }
        }
        assert([58u8, 32u8]@ =~= seq![58u8, 32u8]);
        assert([32u8, 35u8]@ =~= seq![32u8, 35u8]);
        assert([123u8, 125u8, 91u8, 93u8]@ =~= seq![123u8, 125u8, 91u8, 93u8]);
        lemma_trim_ws(v1, ' ');
        lemma_trim_nls(v1);
        lemma_trim_nls(v1.push(' '));
        lemma_prun(d, q, self.indent@, v@, is_leading, level as int, inner);
        if q1 < d.len() { axiom_utf8_ascii(d[q1]); assert(d.subrange(q1, q1 + 1) =~= seq![d[q1]]); }
        reveal_strlit(" ");
        assert(" "@ =~= seq![' ']);
        assert(32u8 as char == ' ' && 58u8 as char == ':');
        assert(seq![':'][0] != seq![' '][0]);
        assert(q1 < d.len() && !blank(d[q1]) ==> run(p_blank(), d, q1) == q1);
    }
proof before truncate 0
    proof { lemma_truncate(v@); }
proof before truncate 1
    proof { lemma_truncate(v@); }

proof loop 0 end
    assert(x.go);
    assert(x.q == self.pos);
    assert(x.w == self.indent@);
    assert(d[q1] == 32 && is_leading ==> x.v == v@);
    assert(d[q1] == 32 && !is_leading ==> x.v == v@);
    assert(d[q1] == 58 ==> x.v == v@);
    assert(d[q1] != 58 && d[q1] != 32 && !inner && v1.len() > 0 && bracket(d[q1]) ==> x.v == v@);
    assert(d[q1] != 58 && d[q1] != 32 && !(!inner && v1.len() > 0 && bracket(d[q1])) ==> x.v == v@);
    assert(x.lead == is_leading);
