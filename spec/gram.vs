== Loader::doc_end
ret r
requires
    old(self).parser.wf(),
ensures
    final(self).parser.same(&old(self).parser) && final(self).parser.wf() && final(self).parser.pos == old(self).parser.pos,
    final(self).doc_ind == old(self).doc_ind && final(self).anchors == old(self).anchors && final(self).cyclic_mode == old(self).cyclic_mode,
    [C13 C15] r == at_doc_end(old(self).parser.doc@, old(self).parser.pos as int),
proof start
    broadcast use group_ge;

== Loader::map_splitter
ret r
requires
    old(self).parser.wf(),
ensures
    final(self).parser.same(&old(self).parser) && final(self).parser.wf(),
    final(self).doc_ind == old(self).doc_ind && final(self).anchors == old(self).anchors && final(self).cyclic_mode == old(self).cyclic_mode,
    [C15] match m_colon(old(self).parser.doc@, old(self).parser.pos as int) {
        Some(x) => r is Ok && final(self).parser.pos == x,
        None => r is Err && final(self).parser.pos == old(self).parser.pos,
    },
    r is Ok ==> final(self).parser.pos > old(self).parser.pos,
proof start
    broadcast use group_ge;

== Loader::scalar
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C14 C15] final(self).gives(r, g_scalar(old(self).env(), old(self).gs(), level as int, map, flow)),
    [C11] final(self).gives_pos(r, g_scalar(old(self).env(), old(self).gs(), level as int, map, flow)),
    [C10] final(self).gives_tag(r, g_scalar(old(self).env(), old(self).gs(), level as int, map, flow)),
    [C09] final(self).leaves(g_scalar(old(self).env(), old(self).gs(), level as int, map, flow)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 7int
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect);
    let ghost e = self.env();
    let ghost s0 = self.gs();
proof after new_repr 0
    proof { axiom_str_of(node__1.tag); axiom_rc_of(node__1.yaml); }
proof end
    proof { assert(self.past() =~= old(self).past()); }
proof exits
    proof { assert(self.past() =~= old(self).past()); }
proof before tag 0
    let ghost a1 = anchor__1@;
    let ghost sa = self.gs();
    assert(g_p1(e, s0) == GR::Ok(a1, sa));
proof before anchor 1
    let ghost sb = self.gs();
    assert(g_p2(e, sa) == GR::Ok(tag__1@, sb));
proof before indicator 0
    let ghost s1 = self.gs();
    assert(g_p3(e, sb, a1) == GR::Ok(anchor__1@, s1));
    let ghost ga = anchor__1@;
    let ghost gt = tag__1@;
    assert(g_props(e, s0) == GR::Ok((ga, gt), s1));

== Loader::scalar_value
lift Loader::scalar#0 PResult<Rc<Yaml>>
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    old(self).parser.pos == old(self).parser.eaten,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C14 C15] final(self).yields(r, g_value(old(self).env(), old(self).gs(), level as int, map, flow)),
    [C09] final(self).leaves(g_value(old(self).env(), old(self).gs(), level as int, map, flow)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 6int
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect);
    broadcast use axiom_str_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();

== Loader::scalar_flow
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C14 C15] final(self).gives(r, g_scalar_flow(old(self).env(), old(self).gs(), level as int, flow)),
    [C11] final(self).gives_pos(r, g_scalar_flow(old(self).env(), old(self).gs(), level as int, flow)),
    [C10] final(self).gives_tag(r, g_scalar_flow(old(self).env(), old(self).gs(), level as int, flow)),
    [C09] final(self).leaves(g_scalar_flow(old(self).env(), old(self).gs(), level as int, flow)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 2int
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect);
    let ghost e = self.env();
    let ghost s0 = self.gs();
proof after new_repr 0
    proof { axiom_str_of(node__1.tag); axiom_rc_of(node__1.yaml); }
proof end
    proof { assert(self.past() =~= old(self).past()); }
proof exits
    proof { assert(self.past() =~= old(self).past()); }
proof before tag 0
    let ghost a1 = anchor__1@;
    let ghost sa = self.gs();
    assert(g_p1(e, s0) == GR::Ok(a1, sa));
proof before anchor 1
    let ghost sb = self.gs();
    assert(g_p2(e, sa) == GR::Ok(tag__1@, sb));
proof before indicator 0
    let ghost s1 = self.gs();
    assert(g_p3(e, sb, a1) == GR::Ok(anchor__1@, s1));
    let ghost ga = anchor__1@;
    let ghost gt = tag__1@;
    assert(g_props(e, s0) == GR::Ok((ga, gt), s1));

== Loader::scalar_term
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
    old(self).parser.pos == old(self).parser.eaten,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C03] g_number(old(self).parser.doc@, old(self).parser.pos as int) is Some ==> final(self).yields(r, g_term(old(self).env(), old(self).gs(), level as int, flow)),
    [C09] old(self).starts(42) ==> final(self).yields(r, g_term(old(self).env(), old(self).gs(), level as int, flow)),
    [C06] old(self).starts(39) || old(self).starts(34) ==> final(self).yields(r, g_term(old(self).env(), old(self).gs(), level as int, flow)),
    [C07] plain_fn(old(self).parser.doc@, old(self).parser.pos as int, old(self).parser.indent@, level as int, flow).0 is Some ==> final(self).yields(r, g_term(old(self).env(), old(self).gs(), level as int, flow)),
    [C14] final(self).yields(r, g_term(old(self).env(), old(self).gs(), level as int, flow)),
    [C09] final(self).leaves(g_term(old(self).env(), old(self).gs(), level as int, flow)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 1int
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();

== Loader::seq_flow
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C14] final(self).yields(r, g_seq_flow(old(self).env(), old(self).gs(), level as int)),
    [C09] final(self).leaves(g_seq_flow(old(self).env(), old(self).gs(), level as int)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 0int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), self.framed(old(self)), self.env() == e, e == old(self).env(), s0 == old(self).gs(), level <= 2 * old(self).parser.eaten + 1,
    self.parser.pos > old(self).parser.eaten,
    self.kept(old(self)),
loop 0 invariant_except_break
    g_seq_flow(e, s0, level as int) == g_items(e, self.gs(), level as int, v@),
loop 0 ensures
    g_seq_flow(e, s0, level as int) == GR::Ok(y_seq(v@), fwd(self.gs())),
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof loop 0 start
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();

== Loader::map_flow
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C14] final(self).yields(r, g_map_flow(old(self).env(), old(self).gs(), level as int)),
    [C09] final(self).leaves(g_map_flow(old(self).env(), old(self).gs(), level as int)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 0int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), self.framed(old(self)), self.env() == e, e == old(self).env(), s0 == old(self).gs(), level <= 2 * old(self).parser.eaten + 1,
    self.parser.pos > old(self).parser.eaten,
loop 0 invariant_except_break
    g_map_flow(e, s0, level as int) == g_pairs(e, self.gs(), level as int, m@),
loop 0 ensures
    g_map_flow(e, s0, level as int) == GR::Ok(y_map(m@), fwd(self.gs())),
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof loop 0 start
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();
proof before complex_mapping 0
    let ghost gk = g_flow_key(e, self.gs(), level as int);

== Loader::seq
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C15] final(self).yields(r, g_seq(old(self).env(), old(self).gs(), level as int, map)),
    [C09] final(self).leaves(g_seq(old(self).env(), old(self).gs(), level as int, map)),
    r is Err && r->Err_0 is Mismatch && !map ==> final(self).parser.pos == final(self).parser.eaten,
    r is Err && r->Err_0 is Mismatch && map ==> gap_kept(final(self).parser.doc@, final(self).parser.pos as int),
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 5int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), self.framed(old(self)), self.env() == e, e == old(self).env(), s0 == old(self).gs(), level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
loop 0 invariant_except_break
    v@.len() == 0 ==> self.gs() == s0,
    v@.len() > 0 ==> g_seq(e, s0, level as int, map) == g_entries(e, self.gs(), level as int, v@),
loop 0 ensures
    g_seq(e, s0, level as int, map) == GR::Ok(y_seq(v@), back(self.gs())),
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof loop 0 start
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect); hide(at_doc_end); hide(lit_at); hide(m_colon);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();
proof before scalar 0
    proof { if v@.len() == 0 { assert(v@ =~= Seq::<Node>::empty()); } }
    let ghost gv = g_entry(e, self.gs(), level as int, v@);
    assert(g_seq(e, s0, level as int, map) == gv);

== Loader::map
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0 && gap_kept(old(self).parser.doc@, old(self).parser.pos as int),
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C15] final(self).yields(r, g_map(old(self).env(), old(self).gs(), level as int, map, flow)),
    [C09] final(self).leaves(g_map(old(self).env(), old(self).gs(), level as int, map, flow)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 5int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), self.framed(old(self)), self.env() == e, e == old(self).env(), s0 == old(self).gs(), level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    m@.len() == 0 ==> self.parser.pos == old(self).parser.pos && (map ==> gap_kept(old(self).parser.doc@, old(self).parser.pos as int)),
loop 0 invariant_except_break
    m@.len() == 0 ==> self.gs() == s0,
    m@.len() > 0 ==> g_map(e, s0, level as int, map, flow) == g_more(e, self.gs(), level as int, flow, m@),
loop 0 ensures
    g_map(e, s0, level as int, map, flow) == GR::Ok(y_map(m@), back(self.gs())),
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof loop 0 start
    let ghost sl = self.gs();
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect); hide(at_doc_end); hide(lit_at); hide(m_colon);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();
proof before map_key 0
    let ghost sf = self.gs();
    proof { if m@.len() == 0 { assert(m@ =~= Seq::<(Node, Node)>::empty()); } }
    assert(g_map(e, s0, level as int, map, flow) == g_rest(e, sf, level as int, map, flow, m@));
proof before scalar 0
    let ghost gv = g_pair(e, self.gs(), level as int, flow, m@, k);
    assert(g_map(e, s0, level as int, map, flow) == gv);

== Loader::map_key_next
outline Loader::map k 3 Node
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C15] final(self).keyed(r, must(g_key(old(self).env(), old(self).gs(), level as int, flow))),
    [C09] final(self).leaves(must(g_key(old(self).env(), old(self).gs(), level as int, flow))),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 3int
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect); hide(at_doc_end); hide(lit_at); hide(m_colon);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();

== Loader::map_key_first
outline Loader::map k 1 Node
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten,
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C15] final(self).keyed(r, g_key(old(self).env(), old(self).gs(), level as int, flow)),
    [C09] final(self).leaves(g_key(old(self).env(), old(self).gs(), level as int, flow)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 3int
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect); hide(at_doc_end); hide(lit_at); hide(m_colon);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();

== Loader::map_key
outline Loader::map k 0 Node; m: Vec<(Node, Node)>
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    map && m@.len() == 0 ==> gap_kept(old(self).parser.doc@, old(self).parser.pos as int),
ensures
    final(self).kept(old(self)) && final(self).framed(old(self)),
    [C15] ({
        let g = g_rest(old(self).env(), old(self).gs(), level as int, map, flow, m@);
        match r {
            Ok(Flow::Val(k)) => final(self).parser.pos > old(self).parser.pos && g == g_pair(final(self).env(), fwd(final(self).gs()), level as int, flow, m@, k),
            Ok(Flow::Ret(x)) => final(self).yields(Ok(x), g) && final(self).leaves(g),
            Err(x) => final(self).yields(Err(x), g) && final(self).leaves(g),
            Ok(Flow::Brk) => g == GR::Ok(y_map(m@), back(final(self).gs())),
        }
    }),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
    r is Ok && r->Ok_0 is Brk ==> m@.len() > 0,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 4int
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect); hide(at_doc_end); hide(lit_at); hide(m_colon);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs();
proof before map_key_first 0
    let ghost gm = g_first(e, self.gs(), level as int, flow);
    proof { assert(m@ =~= Seq::<(Node, Node)>::empty()); }
proof before map_key_next 0
    let ghost gm = g_next(e, self.gs(), level as int, flow, m@);

== Loader::doc
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).wf(),
    old(self).doc_ind == old(self).anchors@.len() && old(self).doc_ind <= lim(),
ensures
    final(self).wf() && final(self).env() == old(self).env(),
    [C13] r is Ok <==> g_doc(old(self).env(), old(self).gs0()) is Ok,
    [C13] r is Ok ==> final(self).gs0() == (GS { anc: Map::empty(), ..g_doc(old(self).env(), old(self).gs0())->Ok_1 }),
    [C13] r is Ok ==> r->Ok_0.yaml == g_doc(old(self).env(), old(self).gs0())->Ok_0.yaml,
    [C10] r is Ok ==> r->Ok_0.tag == g_doc(old(self).env(), old(self).gs0())->Ok_0.tag,
    [C11] r is Ok ==> r->Ok_0.pos == g_doc(old(self).env(), old(self).gs0())->Ok_0.pos,
    r is Ok ==> final(self).parser.pos >= old(self).parser.pos,
    [C13] r is Ok ==> final(self).doc_ind == old(self).doc_ind + 1 && final(self).anchors@.len() == final(self).doc_ind,
    [C09 C13] r is Ok ==> final(self).anchors@[old(self).doc_ind as int]@ == g_doc(old(self).env(), old(self).gs0())->Ok_1.anc,
    [C09 C13] r is Ok ==> final(self).anchors@.subrange(0, old(self).doc_ind as int) == old(self).anchors@,
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect); hide(at_doc_end); hide(lit_at); hide(m_colon);
    broadcast use group_gram;
    broadcast use group_ge;
    broadcast use group_of;
    let ghost e = self.env();
    let ghost s0 = self.gs0();
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }

== Loader::parse
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).wf(),
    old(self).doc_ind == 0 && old(self).anchors@.len() == 0,
ensures
    final(self).wf(),
    [C13] r is Ok <==> g_stream(old(self).env(), old(self).gs0(), old(self).parser.version_checked) is Some,
    [C13] r is Ok ==> r->Ok_0@ == g_stream(old(self).env(), old(self).gs0(), old(self).parser.version_checked)->Some_0.0,
    [C09 C13] r is Ok ==> final(self).tables() == g_stream(old(self).env(), old(self).gs0(), old(self).parser.version_checked)->Some_0.1,
loop 0 invariant
    self.wf(), self.doc_ind == 0 && self.anchors@.len() == 0,
    self.cyclic_mode == old(self).cyclic_mode, self.parser.doc@ == old(self).parser.doc@,
    self.gs0().ind == old(self).gs0().ind && self.parser.eaten == old(self).parser.eaten,
loop 0 invariant_except_break
    g_dirs(old(self).env(), old(self).gs0(), old(self).parser.version_checked) == g_dirs(self.env(), self.gs0(), self.parser.version_checked),
loop 0 ensures
    g_dirs(old(self).env(), old(self).gs0(), old(self).parser.version_checked) == Some((self.env(), self.gs0())),
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
loop 1 invariant
    self.wf(), self.doc_ind == self.anchors@.len() && self.doc_ind <= self.parser.pos + 1,
    self.env() == e,
loop 1 invariant_except_break
    g_stream(old(self).env(), old(self).gs0(), old(self).parser.version_checked) == g_rest_docs(e, self.gs0(), v@, self.tables()),
loop 1 ensures
    g_stream(old(self).env(), old(self).gs0(), old(self).parser.version_checked) == Some((v@, self.tables())),
loop 1 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    hide(m_block); hide(m_tag); hide(m_bound); hide(m_name); hide(m_gap); hide(gap_fail); hide(m_ind); hide(m_ind_define); hide(ind_widths); hide(ind_define_widths); hide(m_complex); hide(m_float); hide(m_sci); hide(m_int); hide(close); hide(widths_ok); hide(tags_ok); hide(run); hide(mcollect); hide(at_doc_end); hide(lit_at); hide(m_colon); hide(g_scalar); hide(m_dir); hide(dir_fail);
    broadcast use group_ge;
    broadcast use group_gram;
proof before gap 0
    let ghost e = self.env();
    let ghost s1 = self.gs0();
    assert(g_dirs(old(self).env(), old(self).gs0(), old(self).parser.version_checked) == Some((e, s1)));
proof before doc 0
    let ghost sd = self.gs0();
    let ghost a1 = self.anchors@;
proof after doc 0
    proof {
        let g = g_doc(e, sd);
        assert(self.tables() =~= Seq::empty().push(g->Ok_1.anc));
        assert(g_docs(e, sd, Seq::empty(), Seq::empty()) == g_rest_docs(e, self.gs0(), Seq::empty().push(g->Ok_0), self.tables()));
    }
proof before doc 1
    let ghost sd = self.gs0();
    let ghost t1 = self.tables();
    let ghost v1 = v@;
    let ghost a1 = self.anchors@;
proof after doc 1
    proof {
        let g = g_doc(e, sd);
        assert forall|k: int| 0 <= k < a1.len() implies #[trigger] self.anchors@[k] == a1[k] by { assert(self.anchors@.subrange(0, a1.len() as int)[k] == a1[k]); }
        assert(self.tables() =~= t1.push(g->Ok_1.anc));
        assert(g_docs(e, sd, v1, t1) == g_rest_docs(e, self.gs0(), v@, self.tables()));
    }
proof loop 0 start
    broadcast use group_ge;
    broadcast use group_gram;
proof loop 1 start
    broadcast use group_ge;
    broadcast use group_gram;

== Loader::new
ret r
requires
    doc@.len() <= lim(),
ensures
    r.parser.wf() && r.parser.doc@ == doc@ && r.doc_ind == 0 && r.anchors@.len() == 0 && !r.cyclic_mode && !r.parser.version_checked,
    r.gs0() == (GS { pos: 0, eaten: 0, ind: seq![0usize], anc: Map::empty() }),
    r.parser.tag@ == default_tags(),

== Loader::cyclic_mode
ret r
ensures
    r == (Loader { cyclic_mode, ..self }),

== Loader::get_anchors
ret r
ensures
    r == self.anchors,

== parse
ret r
requires
    blen(doc@) < 0x3fff_ffff,
ensures
    [C13] r is Ok <==> g_text(utf8_enc(doc@), false) is Some,
    [C13] r is Ok ==> r->Ok_0@ == g_text(utf8_enc(doc@), false)->Some_0.0,

== parse_cyclic
ret r
requires
    blen(doc@) < 0x3fff_ffff,
ensures
    [C13] r is Ok <==> g_text(utf8_enc(doc@), true) is Some,
    [C13] r is Ok ==> r->Ok_0.0@ == g_text(utf8_enc(doc@), true)->Some_0.0,
    [C13] r is Ok ==> r->Ok_0.1@.len() == g_text(utf8_enc(doc@), true)->Some_0.1.len(),
    [C09 C13] r is Ok ==> forall|i: int| 0 <= i < r->Ok_0.1@.len() ==> (#[trigger] r->Ok_0.1@[i])@ == g_text(utf8_enc(doc@), true)->Some_0.1[i],
