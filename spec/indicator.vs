== indicated_msg
ret r
attr #[verifier::loop_isolation(false)]
requires
    pos <= doc@.len(),
    doc@.len() < 0x8000_0000,
ensures
    [C12] is_msg(r@, doc@, pos as int),
loop 0 invariant
    d == doc@, p0 <= d.len() < 0x8000_0000, i__1 <= it__1@.len(), it__1@.len() == cnt(p, d, d.len() as int) + 1,
    forall|k: int| 0 <= k < it__1@.len() ==> (#[trigger] it__1@[k])@ == d.subrange(piece_start(p, d, k), piece_stop(p, d, k)),
    p == p_lf(),
    i__1 < it__1@.len() ==> pos + piece_start(p, d, i__1 as int) == p0,
    i__1 < it__1@.len(),
loop 0 decreases
    it__1@.len() - i__1,
proof start
    let ghost d = doc@;
    let ghost p0 = pos as int;
    let ghost p = p_lf();
    proof { lemma_cnt_bound(p, d, d.len() as int); }
proof loop 0 start
    let ghost k = i__1 as int;
    proof {
        lemma_cnt_bound(p, d, d.len() as int);
        lemma_piece_start(p, d, k);
        assert(it__1@[k]@ == d.subrange(piece_start(p, d, k), piece_stop(p, d, k)));
        assert(piece_start(p, d, k + 1) == piece_stop(p, d, k) + 1);
        if piece_stop(p, d, k) >= p0 { lemma_line(d, k, p0); }
        reveal_strlit(":"); reveal_strlit("\n"); reveal_strlit("^"); reveal_strlit(" ");
        assert(":"@ =~= seq![':']); assert("\n"@ =~= seq!['\n']); assert("^"@ =~= seq!['^']); assert(" "@ =~= seq![' ']);
        lemma_blank_len();
    }
proof after push_str 3
    proof {
        let s = line_start(d, p0);
        assert(pos == p0 - s);
        let a = nat_text((cnt(p_lf(), d, p0) + 1) as nat);
        assert(Seq::<char>::empty() + a =~= a);
        assert(str_line@ == d.subrange(s, run(p_not(p_lf()), d, s)));
        assert(":"@ =~= seq![':']); assert("\n"@ =~= seq!['\n']); assert("^"@ =~= seq!['^']); assert(" "@ =~= seq![' ']);
        assert(f__1@ == a + seq![':'] + nat_text((p0 - s + 1) as nat) + seq!['\n']
            + utf8(d.subrange(s, run(p_not(p_lf()), d, s))) + seq!['\n'] + reps(seq![' '], (p0 - s) as nat) + seq!['^']);
    }

== indicated_msg_file
ret r
requires
    pos <= doc@.len(),
    doc@.len() < 0x8000_0000,
ensures
    [C12] exists|m: Seq<char>| #[trigger] is_msg(m, doc@, pos as int) && r@ == path@ + seq![':'] + m,
proof start
    proof { reveal_strlit(":"); assert(":"@ =~= seq![':']); }
proof after vs_fmt 1
    proof { assert(f__1@ =~= path@ + seq![':'] + a__1_0@); }
