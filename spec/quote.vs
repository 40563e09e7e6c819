== Parser::escape
ret r
ensures
    [C06 C14] r@ == dec(doc@),
loop 0 invariant
    it__1@ == doc@, i__1 <= it__1@.len(), b ==> i__1 > 0,
    [C06 C14] dec(doc@) == s@ + (if b { if i__1 == doc@.len() { Seq::empty() } else { seq![esc_char(doc@[i__1 as int])] + dec(doc@.skip(i__1 + 1)) } } else { dec(doc@.skip(i__1 as int)) }),
loop 0 decreases
    it__1@.len() - i__1,
proof before loop 0
    proof { assert(doc@.skip(0) =~= doc@); assert(s@ + dec(doc@) =~= dec(doc@)); }
proof loop 0 start
    let ghost s0 = s@;
    let ghost b0 = b;
    let ghost i0 = i__1 as int;
    let ghost x = doc@.skip(i0);
    proof {
        assert(x[0] == doc@[i0]);
        if x.len() > 1 { assert(x[1] == doc@[i0 + 1]); }
        assert(x.skip(1) =~= doc@.skip(i0 + 1));
        if x.len() > 1 { assert(x.skip(2) =~= doc@.skip(i0 + 2)); }
        assert(doc@.skip(doc@.len() as int) =~= Seq::<char>::empty());
    }
proof loop 0 end
    proof {
        if b0 { assert(s@ =~= s0.push(esc_char(doc@[i0]))); assert(s@ + dec(doc@.skip(i0 + 1)) =~= s0 + (seq![esc_char(doc@[i0])] + dec(doc@.skip(i0 + 1)))); }
        else if !b { assert(s@ + dec(doc@.skip(i0 + 1)) =~= s0 + (seq![doc@[i0]] + dec(doc@.skip(i0 + 1)))); }
    }
proof end
    proof { assert(doc@.skip(doc@.len() as int) =~= Seq::<char>::empty()); }

== Parser::string_quoted
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(60)]
requires
    old(self).wf(),
    (sym == 39 && ignore@ == seq![39u8, 39u8]) || (sym == 34 && ignore@ == seq![92u8, 34u8]),
ensures
    [C06 C14] final(self).same(old(self)) && final(self).wf(),
    [C06 C14] !at(old(self).doc@, old(self).pos as int, sym) ==> r is Err && r->Err_0 is Mismatch && final(self).pos == old(self).pos,
    [C06 C14] at(old(self).doc@, old(self).pos as int, sym) ==> (match close(old(self).doc@, old(self).pos + 1, sym) {
        None => r is Err && r->Err_0 is Terminate,
        Some(e) => r is Ok && final(self).pos == e + 1
            && (one_line(old(self).doc@, old(self).pos + 1, e) ==> r->Ok_0@ == quoted(sym, utf8(old(self).doc@.subrange(old(self).pos + 1, e)))),
    }),
    [C06 C14] r is Ok ==> r->Ok_0@ == quoted_fn(old(self).doc@, old(self).pos as int, sym),
proof start
    broadcast use axiom_utf8_empty;
    let ghost d = self.doc@;
    let ghost i = self.pos + 1;
    proof { reveal(quoted_fn); }
    let ghost all = quoted_fn(d, i - 1, sym);
    let ghost c = close(d, i, sym);
    proof {
        cands();
        lemma_close_bound(d, i, sym);
        if i <= d.len() { lemma_run_bound(p_blank(), d, i); lemma_close_skip(d, i, run(p_blank(), d, i), sym); }
        if c is Some && i <= d.len() {
            let e = c->Some_0;
            let j = run(p_blank(), d, i);
            lemma_close_bound(d, j, sym);
            lemma_chunk(d, i, j, e, sym);
        }
    }
loop 0 invariant
    self.wf(), d == self.doc@, self.consumed == old(self).consumed, self.indent@ == old(self).indent@, self.tag@ == old(self).tag@, self.version_checked == old(self).version_checked,
    eaten__1 == old(self).eaten, old(self).wf(), i == old(self).pos + 1, at(d, old(self).pos as int, sym), d == old(self).doc@,
    (sym == 39 && ignore@ == seq![39u8, 39u8]) || (sym == 34 && ignore@ == seq![92u8, 34u8]),
    i <= self.pos,
    c == close(d, i, sym),
loop 0 invariant_except_break
    close(d, self.pos as int, sym) == c,
    [C06 C14] c is Some && one_line(d, i, c->Some_0) ==> v@ + quoted(sym, utf8(d.subrange(self.pos as int, c->Some_0))) == quoted(sym, utf8(d.subrange(i, c->Some_0))),
    [C06 C14] qrun(d, self.pos as int, v@, sym) == all,
loop 0 ensures
    c is Some && self.pos == c->Some_0 + 1,
    [C06 C14] v@ == all,
    [C06 C14] one_line(d, i, c->Some_0) ==> v@ == quoted(sym, utf8(d.subrange(i, c->Some_0))),
loop 0 decreases
    d.len() - self.pos,
proof loop 0 start
    broadcast use axiom_utf8_empty;
    let ghost q = self.pos as int;
    let ghost pp = p_not_in([10u8, 13u8, 92u8, sym]@);
    let ghost q1 = run(pp, d, q);
    proof {
        lemma_run_bound(pp, d, q);
        assert forall|k: int| q <= k < q1 implies plain_byte(#[trigger] d[k], sym) by { assert(pp(d[k])); assert([10u8, 13u8, 92u8, sym]@[2] == 92); assert([10u8, 13u8, 92u8, sym]@[3] == sym); }
        lemma_close_skip(d, q, q1, sym);
        lemma_close_bound(d, q1, sym);
        lemma_gap(d, q1);
        if c is Some {
            let e = c->Some_0;
            lemma_chunk(d, q, q1, e, sym);
            if q1 < e && one_line(d, i, e) && (d[q1] == 92 || d[q1] == sym) { lemma_piece(d, q1, e, sym); }
        }
    }
    let ghost v1 = v@ + utf8(d.subrange(q, q1));
    let ghost rest = if c is Some { quoted(sym, utf8(d.subrange(q1, c->Some_0))) } else { Seq::empty() };
    proof {
        if c is Some && q1 == c->Some_0 { assert(d.subrange(q1, q1) =~= Seq::<u8>::empty()); assert(rest =~= Seq::<char>::empty()); assert(v1 + rest =~= v1); }
        if c is Some { assert(v1 + rest =~= v@ + quoted(sym, utf8(d.subrange(q, c->Some_0)))); }
        assert([10u8, 13u8, 92u8, sym]@ =~= seq![10u8, 13u8, 92u8, sym]);
        assert([92u8, 92u8]@ =~= seq![92u8, 92u8]);
        assert(39u8 as char == '\'' && 34u8 as char == '"' && 92u8 as char == '\\');
        reveal_strlit("\\\\");
        reveal_strlit("\\n");
        lemma_gap_stop(d, q1);
        reveal(qrun);
        assert("\\n"@ =~= seq!['\\', 'n']);
        assert("\\\\"@ =~= seq!['\\', '\\']);
    }
proof before truncate 0
    proof { lemma_truncate(v@); }
proof loop 0 end
    proof {
        if m_gap(d, q1, false) is Some {
            lemma_close_skip(d, q1, self.pos as int, sym);
            if c is Some { assert(q1 < c->Some_0); assert(!p_line()(d[q1])); assert(!one_line(d, i, c->Some_0)); }
        } else {
            assert(d[q1] == 92 || d[q1] == sym);
            if c is Some && one_line(d, i, c->Some_0) {
                let e = c->Some_0;
                assert(self.pos == piece_end(d, q1, sym));
                assert(q1 < e);
                assert(rest == piece(d, q1, sym) + quoted(sym, utf8(d.subrange(self.pos as int, e))));
                assert(v1 + rest == quoted(sym, utf8(d.subrange(i, e))));
                assert(v@ =~= v1 + piece(d, q1, sym));
                assert(v@ + quoted(sym, utf8(d.subrange(self.pos as int, e))) =~= v1 + (piece(d, q1, sym) + quoted(sym, utf8(d.subrange(self.pos as int, e)))));
            }
        }
    }

