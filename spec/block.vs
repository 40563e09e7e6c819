== Parser::string_wrapped
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(60)]
requires
    old(self).wf(),
    level < lim(),
ensures
    [C08] final(self).same_ind(old(self)) && final(self).wf() && (final(self).indent@ == old(self).indent@ || final(self).indent@ == ind_widths(old(self).indent@, level as int)),
    [C08] match wrap(old(self).doc@, old(self).pos as int, Seq::empty(), ind_len(old(self).indent@, level as int), sep as char, leading, true) {
        Some(x) => r is Ok && r->Ok_0@ == x.0 + seq!['\n'] && final(self).pos == x.1,
        None => r is Err && final(self).pos == old(self).pos && final(self).indent@ == old(self).indent@,
    },
    [C08] final(self).indent@ == wrap_ind(old(self).doc@, old(self).pos as int, old(self).indent@, level as int),
    mism(r),
proof start
    broadcast use axiom_utf8_empty;
    let ghost d = self.doc@;
    let ghost q0 = self.pos as int;
    let ghost w0 = self.indent@;
    let ghost w1 = wrap_ind(d, q0, w0, level as int);
    let ghost n = ind_len(w0, level as int);
    let ghost g = wrap(d, q0, Seq::empty(), n, sep as char, leading, true);
    proof {
        cands(); lemma_ind_twice(w0, level as int);
        lemma_wrap_some(d, q0, Seq::empty(), n, sep as char, leading, true);
        reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
    }
loop 0 invariant
    self.wf(), self.same_ind(&Parser { eaten: self.eaten, ..*old(self) }), d == old(self).doc@, level < lim(), w0 == old(self).indent@,
    q0 == old(self).pos, old(self).wf(), eaten__1 == old(self).eaten, n == ind_len(w0, level as int),
    self.indent@ == w0 || self.indent@ == ind_widths(w0, level as int),
    ind_widths(ind_widths(w0, level as int), level as int) == ind_widths(w0, level as int),
    self.pos >= q0,
    g == wrap(d, q0, Seq::empty(), n, sep as char, leading, true), w1 == wrap_ind(d, q0, w0, level as int),
loop 0 invariant_except_break
    self.pos > q0 ==> m_nl(d, self.pos as int) is Some,
    self.pos == q0 ==> self.indent@ == w0,
    g == wrap(d, self.pos as int, v@, n, sep as char, leading, is_first),
    self.pos > q0 ==> self.indent@ == ind_widths(w0, level as int) && w1 == ind_widths(w0, level as int),
loop 0 ensures
    self.indent@ == w1,
    self.pos > q0,
    g == Some((v@, self.pos - 1)),
loop 0 decreases
    d.len() - self.pos,
proof loop 0 start
    let ghost q = self.pos as int;
    let ghost v0 = v@;
    proof {
        cands();
        reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
        assert(v0 =~= v0 + rep('\n', 0));
        match m_nl(d, q) {
            Some(q1) => {
                lemma_wrap_next(d, q, q1, n);
                let x = wrap_next(d, q1, n);
                lemma_run_bound(p_blank(), d, q1);
                lemma_gap(d, run(p_blank(), d, q1));
                lemma_starts(d, q1, seq![45u8, 45u8, 45u8]);
                lemma_starts(d, q1, seq![46u8, 46u8, 46u8]);
                if x.0 {
                    let pp = p_not_in([10u8, 13u8]@);
                    lemma_run_bound(p_line(), d, x.2);
                    let e = run(p_line(), d, x.2);
                    assert forall|k: int| x.2 <= k < e implies pp(#[trigger] d[k]) by { assert(p_line()(d[k])); }
                    lemma_run(pp, d, x.2, e);
                }
            }
            None => {}
        }
        assert([45u8, 45u8, 45u8]@ =~= seq![45u8, 45u8, 45u8]);
        assert([46u8, 46u8, 46u8]@ =~= seq![46u8, 46u8, 46u8]);
    }

== Parser::string_literal
ret r
requires
    old(self).wf(),
    level < lim(),
ensures
    [C08] final(self).same_ind(old(self)) && final(self).wf() && (final(self).indent@ == old(self).indent@ || final(self).indent@ == ind_widths(old(self).indent@, level as int)),
    [C08] match m_block(old(self).doc@, old(self).pos as int, '|', ind_len(old(self).indent@, level as int)) {
        Some(x) => r is Ok && r->Ok_0@ == x.0 && final(self).pos == x.1,
        None => r is Err && final(self).pos == old(self).eaten && final(self).indent@ == old(self).indent@,
    },
    [C08] r is Ok ==> final(self).indent@ == block_ind_fn(old(self).doc@, old(self).pos as int, old(self).indent@, level as int, '|'),
    mism(r),
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    proof {
        cands(); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
        if i + 1 <= d.len() { lemma_run_bound(p_blank(), d, i + 1); }
        if i + 2 <= d.len() { lemma_run_bound(p_blank(), d, i + 2); }
        reveal(block_ind_fn);
        assert('|' as u8 == 124 && 10u8 as char == '\n');
    }

== Parser::string_folded
ret r
requires
    old(self).wf(),
    level < lim(),
ensures
    [C08] final(self).same_ind(old(self)) && final(self).wf() && (final(self).indent@ == old(self).indent@ || final(self).indent@ == ind_widths(old(self).indent@, level as int)),
    [C08] match m_block(old(self).doc@, old(self).pos as int, '>', ind_len(old(self).indent@, level as int)) {
        Some(x) => r is Ok && r->Ok_0@ == x.0 && final(self).pos == x.1,
        None => r is Err && final(self).pos == old(self).eaten && final(self).indent@ == old(self).indent@,
    },
    [C08] r is Ok ==> final(self).indent@ == block_ind_fn(old(self).doc@, old(self).pos as int, old(self).indent@, level as int, '>'),
    mism(r),
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    proof {
        cands(); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
        if i + 1 <= d.len() { lemma_run_bound(p_blank(), d, i + 1); }
        if i + 2 <= d.len() { lemma_run_bound(p_blank(), d, i + 2); }
        reveal(block_ind_fn);
        assert('>' as u8 == 62 && 32u8 as char == ' ');
    }

