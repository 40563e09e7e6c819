== Parser::tag
ret r
requires
    old(self).wf(),
ensures
    [C10] final(self).same(old(self)) && final(self).wf(),
    [C10] match m_tag(old(self).doc@, old(self).pos as int, old(self).tag@) {
        TagRes::No => r is Err && r->Err_0 is Mismatch && final(self).pos == old(self).eaten,
        TagRes::Undef => r is Err && r->Err_0 is Terminate,
        TagRes::Tag(t, e) => r is Ok && r->Ok_0@ == t && final(self).pos == e,
    },
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    proof {
        cands();
        lemma_ident(d, i + 1);
        lemma_ident(d, i + 2);
        if i + 1 <= d.len() { axiom_utf8_nonempty(d.subrange(i + 1, i + 1)); }
        match m_ident(d, i + 1) { Some(e) => { lemma_ident(d, e + 1); assert(d.subrange(i + 1, e).len() > 0); axiom_utf8_nonempty(d.subrange(i + 1, e)); } None => {} }
        assert([32u8, 60u8, 62u8, 10u8, 13u8]@ =~= seq![32u8, 60u8, 62u8, 10u8, 13u8]);
        if i + 2 <= d.len() { lemma_run_bound(p_full(), d, i + 2); lemma_ident(d, run(p_full(), d, i + 2) + 1); }
        assert(forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) =~= s);
        assert(forall|s: Seq<char>| #[trigger] (s + Seq::<char>::empty()) =~= s);
    }

== Parser::directive
ret r
requires
    old(self).wf(),
ensures
    [C10] final(self).same_but_tags(old(self)) && final(self).wf(),
    [C10] !at(old(self).doc@, old(self).pos as int, 37) ==> r is Err && r->Err_0 is Mismatch && final(self).pos == old(self).eaten && final(self).same(old(self)),
    [C10] at(old(self).doc@, old(self).pos as int, 37) ==> match m_dir(old(self).doc@, old(self).pos + 1, old(self).version_checked) {
        DirRes::No => r is Err && r->Err_0 is Mismatch && final(self).same(old(self)),
        DirRes::Bad => r is Err && r->Err_0 is Terminate,
        DirRes::Dir(e, v, h) => {
            &&& final(self).version_checked == (old(self).version_checked || v)
            &&& final(self).tag@ == (match h { Some(x) => old(self).tag@.insert(x.0, x.1), None => old(self).tag@ })
            &&& match m_gap(old(self).doc@, e, true) { Some(g) => r is Ok && final(self).pos == g.0, None => r is Err && r->Err_0 is Mismatch }
        },
    },
    [C13] at(old(self).doc@, old(self).pos as int, 37) ==> match m_dir(old(self).doc@, old(self).pos + 1, old(self).version_checked) {
        DirRes::No => final(self).version_checked == old(self).version_checked && final(self).pos == dir_fail(old(self).doc@, old(self).pos + 1),
        DirRes::Bad => true,
        DirRes::Dir(e, _, _) => m_gap(old(self).doc@, e, true) is None ==> final(self).pos == gap_fail(old(self).doc@, e, true),
    },
    r is Ok ==> final(self).pos > old(self).pos,
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    proof {
        cands();
        if i < d.len() { lemma_run_bound(p_line(), d, i + 1); }
        assert([89u8, 65u8, 77u8, 76u8]@ =~= seq![89u8, 65u8, 77u8, 76u8]);
        assert([84u8, 65u8, 71u8]@ =~= seq![84u8, 65u8, 71u8]);
        let pp = p_not_in([10u8, 13u8]@);
        if i < d.len() {
            let e = run(p_line(), d, i + 1);
            assert forall|k: int| i + 1 <= k < e implies pp(#[trigger] d[k]) by { assert(p_line()(d[k])); }
            assert(e < d.len() ==> !p_line()(d[e]));
            lemma_run(pp, d, i + 1, e);
        }
    }

== Parser::directive_yaml
ret r
requires
    old(self).wf(),
ensures
    [C10] final(self).same_but_tags(old(self)) && final(self).wf() && final(self).tag@ == old(self).tag@,
    [C10] ({
        let d = old(self).doc@;
        let b = run(p_blank(), d, old(self).pos as int);
        if b == old(self).pos { r is Err && r->Err_0 is Mismatch && final(self).same(old(self)) && final(self).pos == old(self).eaten }
        else if old(self).version_checked || !version(d, b) { r is Err && r->Err_0 is Terminate }
        else { r is Ok && final(self).pos == b + 3 && final(self).version_checked }
    }),
proof start
    proof {
        cands();
        lemma_run_bound(p_blank(), self.doc@, self.pos as int);
        assert([49u8, 46u8, 49u8]@ =~= seq![49u8, 46u8, 49u8]);
        assert([49u8, 46u8, 50u8]@ =~= seq![49u8, 46u8, 50u8]);
    }

== Parser::directive_tag
ret r
requires
    old(self).wf(),
ensures
    [C10] final(self).same_but_tags(old(self)) && final(self).wf() && final(self).version_checked == old(self).version_checked,
    [C10] ({
        let d = old(self).doc@;
        let b = run(p_blank(), d, old(self).pos as int);
        let m = if b == old(self).pos { DirRes::No } else { m_handle(d, b) };
        final(self).tag@ == dir_tags(m, old(self).tag@) && match m {
            DirRes::Dir(e, _, _) => r is Ok && final(self).pos == e,
            _ => r is Err && r->Err_0 is Mismatch,
        }
    }),
    [C13] ({
        let d = old(self).doc@;
        let b = run(p_blank(), d, old(self).pos as int);
        (if b == old(self).pos { DirRes::No } else { m_handle(d, b) }) is Dir || final(self).pos == if b == old(self).pos { old(self).eaten as int } else { handle_fail(d, old(self).eaten as int, b) }
    }),
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    let ghost b = run(p_blank(), d, i);
    let ghost e1 = match m_ident(d, b + 1) { Some(e) => e + 1, None => if at(d, b + 1, 33) { b + 2 } else { b + 1 } };
    proof {
        cands();
        lemma_run_bound(p_blank(), d, i);
        lemma_ident(d, b + 1);
        if e1 <= d.len() { lemma_run_bound(p_blank(), d, e1); lemma_run_bound(p_prefix(), d, run(p_blank(), d, e1)); }
        assert([32u8, 10u8, 13u8]@ =~= seq![32u8, 10u8, 13u8]);
    }
