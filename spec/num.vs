== Parser::octal
ret r
requires
    old(self).wf(),
ensures
    [C03 C14] final(self).step(old(self), r.is_ok(), m_oct(old(self).doc@, old(self).pos as int)),
    mism(r),
proof start
    proof { cands(); }

== Parser::hexadecimal
ret r
requires
    old(self).wf(),
ensures
    [C03 C14] final(self).step(old(self), r.is_ok(), m_hexa(old(self).doc@, old(self).pos as int)),
    mism(r),
proof start
    proof { cands(); }

== Parser::int
ret r
requires
    old(self).wf(),
    old(self).pos == old(self).eaten,
ensures
    [C03 C14] final(self).step(old(self), r.is_ok(), m_end(m_int(old(self).doc@, old(self).pos as int))),
    [C03 C14] r.is_ok() ==> r->Ok_0@ == utf8(old(self).doc@.subrange(old(self).pos as int, m_int(old(self).doc@, old(self).pos as int)->Some_0.0)),
    mism(r),
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    proof {
        cands();
        lemma_prefix(d, i);
        if m_num_prefix(d, i) is Some {
            let e = m_num_prefix(d, i)->Some_0;
            axiom_utf8_bytes(d.subrange(i, e));
            assert(d.subrange(i, e).len() == 1 && d[i] == 48 ==> d.subrange(i, e) =~= seq![48u8]);
            assert(d.subrange(i, e) == seq![48u8] ==> d.subrange(i, e)[0] == 48u8);
        }
        assert([48u8]@ =~= seq![48u8]);
        axiom_utf8_ascii(48);
        reveal_strlit("0");
        assert("0"@ =~= seq!['0']);
        if m_num_prefix(d, i) is Some {
            let b = d.subrange(i, m_num_prefix(d, i)->Some_0);
            assert(48u8 as char == '0');
            if utf8(b) == "0"@ { assert(utf8(b)[0] == '0'); assert(b =~= seq![48u8]); }
            assert(utf8(b) == "0"@ <==> b == seq![48u8]);
        }
    }

== Parser::float
ret r
requires
    old(self).wf(),
    old(self).pos == old(self).eaten,
ensures
    [C03 C14] final(self).step(old(self), r.is_ok(), m_end(m_float(old(self).doc@, old(self).pos as int))),
    [C03 C14] r.is_ok() ==> r->Ok_0@ == utf8(float_text(old(self).doc@.subrange(old(self).pos as int, m_float(old(self).doc@, old(self).pos as int)->Some_0.0))),
    mism(r),
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    proof {
        cands();
        lemma_prefix(d, i);
        if m_num_prefix(d, i) is Some && m_num_prefix(d, i)->Some_0 < d.len() { lemma_run_bound(p_digit(), d, m_num_prefix(d, i)->Some_0 + 1); }
    }
proof end
    proof {
        let e = m_num_prefix(d, i)->Some_0;
        let f = run(p_digit(), d, e + 1);
        lemma_run_bound(p_digit(), d, e + 1);
        let b = d.subrange(i, f);
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] < 0x80 && (k != e - i ==> b[k] != 46) by {
            if i + k < e { assert(digit(d[i + k]) || d[i + k] == 45); }
            else if i + k > e { assert(p_digit()(d[i + k])); }
        }
        assert forall|p: &Str| #[trigger] p@ == ".0"@ implies trim_pat(p, utf8(b)) == utf8(float_text(b)) by { lemma_float_text(p, b, e - i); }
    }

== Parser::sci_float
ret r
requires
    old(self).wf(),
    old(self).pos == old(self).eaten,
ensures
    [C03 C14] final(self).step(old(self), r.is_ok(), m_end(m_sci(old(self).doc@, old(self).pos as int))),
    [C03 C14] r.is_ok() ==> r->Ok_0@ == utf8(old(self).doc@.subrange(old(self).pos as int, m_sci(old(self).doc@, old(self).pos as int)->Some_0.0)),
    mism(r),
proof start
    let ghost d = self.doc@;
    let ghost i = self.pos as int;
    proof {
        cands();
        lemma_prefix(d, i);
        let p = p_in([43u8, 45u8]@);
        if m_num_prefix(d, i) is Some && m_num_prefix(d, i)->Some_0 < d.len() {
            let e = m_num_prefix(d, i)->Some_0;
            lemma_run_bound(p, d, e + 1);
            if e + 1 < d.len() { lemma_run_bound(p, d, e + 2); }
        }
    }

