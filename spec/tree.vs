== Loader::new
ret r
requires
    doc@.len() <= lim(),
ensures
    r.parser.wf() && r.parser.doc@ == doc@ && r.parser.pos == 0 && r.parser.eaten == 0 && r.doc_ind == 0 && r.anchors@.len() == 0 && !r.cyclic_mode,

== Loader::cyclic_mode
ret r
ensures
    r == (Loader { cyclic_mode, ..self }),

== Loader::get_anchors
ret r
ensures
    r == self.anchors,

== Loader::doc_end
ret r
requires
    old(self).parser.wf(),
ensures
    final(self).parser.same(&old(self).parser) && final(self).parser.wf() && final(self).parser.pos == old(self).parser.pos,
    final(self).doc_ind == old(self).doc_ind && final(self).anchors == old(self).anchors && final(self).cyclic_mode == old(self).cyclic_mode,
    r == at_doc_end(old(self).parser.doc@, old(self).parser.pos as int),
proof start
    broadcast use group_ge;

== Loader::map_splitter
ret r
requires
    old(self).parser.wf(),
ensures
    final(self).parser.same(&old(self).parser) && final(self).parser.wf(),
    final(self).doc_ind == old(self).doc_ind && final(self).anchors == old(self).anchors && final(self).cyclic_mode == old(self).cyclic_mode,
    final(self).parser.pos >= old(self).parser.pos,
    r is Ok ==> final(self).parser.pos > old(self).parser.pos,
proof start
    broadcast use group_ge;

== Loader::scalar
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(yv(r->Ok_0)),
    r is Ok ==> final(self).at() == final(self).from(),
    [C11] r is Ok ==> old(self).from() <= r->Ok_0.pos <= final(self).at() && node_ok(r->Ok_0, old(self).len()) && within(yv(r->Ok_0), 0, final(self).at()) && pl(yv(r->Ok_0), old(self).len()) && io(yv(r->Ok_0), r->Ok_0.pos as int, final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 7int
proof start
    hide(m_tag);
    broadcast use group_ge;
    broadcast use group_tree;
proof end
    proof { assert(self.past() =~= old(self).past()); }
proof exits
    proof { assert(self.past() =~= old(self).past()); }

== Loader::scalar_value
lift Loader::scalar#0 PResult<Rc<Yaml>>
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    old(self).parser.pos == old(self).parser.eaten,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(*r->Ok_0),
    [C11] r is Ok ==> pl(*r->Ok_0, old(self).len()) && io(*r->Ok_0, old(self).from(), final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 6int
proof start
    hide(m_block);
    broadcast use group_ge;
    broadcast use group_tree;

== Loader::scalar_flow
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(yv(r->Ok_0)),
    r is Ok ==> final(self).at() == final(self).from(),
    [C11] r is Ok ==> old(self).from() <= r->Ok_0.pos <= final(self).at() && node_ok(r->Ok_0, old(self).len()) && within(yv(r->Ok_0), 0, final(self).at()) && pl(yv(r->Ok_0), old(self).len()) && io(yv(r->Ok_0), r->Ok_0.pos as int, final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 2int
proof start
    hide(m_tag);
    broadcast use group_ge;
    broadcast use group_tree;
proof end
    proof { assert(self.past() =~= old(self).past()); }
proof exits
    proof { assert(self.past() =~= old(self).past()); }

== Loader::scalar_term
ret r
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten + 1,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(*r->Ok_0),
    [C11] r is Ok ==> pl(*r->Ok_0, old(self).len()) && io(*r->Ok_0, old(self).from(), final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 1int
proof start
    broadcast use group_ge;
    broadcast use group_tree;

== Loader::seq_flow
ret r
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(*r->Ok_0),
    [C11] r is Ok ==> pl(*r->Ok_0, old(self).len()) && io(*r->Ok_0, old(self).from(), final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 0int
loop 0 invariant
    [C09] self.tab_na() && self.grown(old(self)),
    [C11] self.tab_pl(),
    [C11] spl(v@, old(self).from(), self.at() - 1, self.len()),
    [C09] !old(self).cyclic_mode ==> sna(v@),
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten + 1,
    self.parser.pos > old(self).parser.eaten,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
    broadcast use group_tree;
proof loop 0 start
    broadcast use group_ge;
    broadcast use group_tree;

== Loader::map_flow
ret r
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(*r->Ok_0),
    [C11] r is Ok ==> pl(*r->Ok_0, old(self).len()) && io(*r->Ok_0, old(self).from(), final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 0int
loop 0 invariant
    [C09] self.tab_na() && self.grown(old(self)),
    [C11] self.tab_pl(),
    [C11] mpl(m@, old(self).from(), self.at() - 1, self.len()),
    [C09] !old(self).cyclic_mode ==> mna(m@),
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten + 1,
    self.parser.pos > old(self).parser.eaten,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
    broadcast use group_tree;
proof loop 0 start
    broadcast use group_ge;
    broadcast use group_tree;
proof before forward 5
    let ghost gm = m@;
proof end
    proof { lemma_map_res(gm, end__, old(self).from(), self.at() - 1, self.len()); }

== Loader::seq
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(*r->Ok_0),
    [C11] r is Ok ==> pl(*r->Ok_0, old(self).len()) && io(*r->Ok_0, old(self).from(), final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch && !map ==> final(self).parser.pos == final(self).parser.eaten,
    r is Err && r->Err_0 is Mismatch && map ==> gap_kept(final(self).parser.doc@, final(self).parser.pos as int),
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 5int
loop 0 invariant
    [C09] self.tab_na() && self.grown(old(self)),
    [C11] self.tab_pl(),
    [C11] spl(v@, old(self).from(), self.from(), self.len()),
    [C09] !old(self).cyclic_mode ==> sna(v@),
    v@.len() == 0 ==> self.anchors == old(self).anchors,
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
    broadcast use group_tree;
proof loop 0 start
    broadcast use group_ge;
    broadcast use group_tree;

== Loader::map
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0 && gap_kept(old(self).parser.doc@, old(self).parser.pos as int),
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(*r->Ok_0),
    [C11] r is Ok ==> pl(*r->Ok_0, old(self).len()) && io(*r->Ok_0, old(self).from(), final(self).at(), old(self).tab()),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 5int
loop 0 invariant
    [C09] self.tab_na() && self.grown(old(self)),
    [C11] self.tab_pl(),
    [C11] mpl(m@, old(self).from(), self.from(), self.len()),
    [C09] !old(self).cyclic_mode ==> mna(m@),
    m@.len() == 0 ==> self.anchors == old(self).anchors,
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    m@.len() == 0 ==> self.parser.pos == old(self).parser.pos && (map ==> gap_kept(old(self).parser.doc@, old(self).parser.pos as int)),
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
    broadcast use group_tree;
proof loop 0 start
    let ghost h1 = self.from();
    broadcast use group_ge;
    broadcast use group_tree;
proof before push 0
    proof { lemma_mpl_push(m@, k, v, old(self).from(), h1, self.from(), self.len()); }
proof before backward 0
    let ghost gm = m@;
proof end
    proof { lemma_map_res(gm, end__, old(self).from(), self.at(), self.len()); }

== Loader::map_key_next
outline Loader::map k 3 Node
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
    r is Err ==> !(r->Err_0 is Mismatch),
    r is Ok ==> r->Ok_0 is Val,
    [C09] final(self).knas(r),
    [C11] final(self).kpls(old(self), r),
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 3int
proof start
    broadcast use group_ge;
    broadcast use group_tree;

== Loader::map_key_first
outline Loader::map k 1 Node
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten,
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
    r is Ok ==> r->Ok_0 is Val,
    [C09] final(self).knas(r),
    [C11] final(self).kpls(old(self), r),
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 3int
proof start
    broadcast use group_ge;
    broadcast use group_tree;

== Loader::map_key
outline Loader::map k 0 Node; m: Vec<(Node, Node)>
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    map && m@.len() == 0 ==> gap_kept(old(self).parser.doc@, old(self).parser.pos as int),
    [C09] old(self).tab_na(),
    [C11] old(self).tab_pl(),
ensures
    final(self).kept(old(self)),
    [C09] final(self).tab_na(),
    [C11] final(self).tab_pl(),
    [C09] r is Ok ==> final(self).grown(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).anchors == old(self).anchors,
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
    [C09] final(self).knas(r),
    [C11] final(self).kpls(old(self), r),
    [C11] final(self).next(old(self), r, m@.len() as int),
    r is Err && r->Err_0 is Mismatch ==> m@.len() == 0,
    r is Ok && r->Ok_0 is Ret ==> m@.len() == 0,
    r is Ok && r->Ok_0 is Brk ==> m@.len() > 0,
    r is Ok && r->Ok_0 is Val ==> final(self).at() > old(self).at(),
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 4int
proof start
    broadcast use group_ge;
    broadcast use group_tree;

== Loader::doc
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).wf(),
    old(self).doc_ind == old(self).anchors@.len() && old(self).doc_ind <= lim(),
ensures
    final(self).wf() && final(self).parser.doc@ == old(self).parser.doc@,
    final(self).cyclic_mode == old(self).cyclic_mode,
    r is Ok ==> final(self).parser.pos >= old(self).parser.pos && final(self).at() == final(self).from(),
    r is Ok ==> final(self).doc_ind == old(self).doc_ind + 1 && final(self).anchors@.len() == final(self).doc_ind,
    [C09] r is Ok ==> final(self).anchors@.subrange(0, old(self).doc_ind as int) == old(self).anchors@,
    [C09] r is Ok && !old(self).cyclic_mode ==> na(yv(r->Ok_0)) && tna(final(self).anchors@[old(self).doc_ind as int]@),
    [C11] r is Ok ==> old(self).at() <= r->Ok_0.pos <= final(self).at() && node_ok(r->Ok_0, old(self).len()) && within(yv(r->Ok_0), 0, final(self).at()),
    [C11] r is Ok ==> tpl(final(self).anchors@[old(self).doc_ind as int]@, final(self).at(), old(self).len()),
proof start
    broadcast use group_ge;
    broadcast use group_tree;
proof after push 0
    proof { assert(self.past() =~= old(self).anchors@); assert(self.tab() =~= Map::empty()); }

== Loader::parse
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).wf(),
    old(self).doc_ind == 0 && old(self).anchors@.len() == 0,
ensures
    final(self).wf() && final(self).cyclic_mode == old(self).cyclic_mode,
    r is Ok ==> final(self).anchors@.len() == r->Ok_0@.len(),
    [C09] r is Ok && !old(self).cyclic_mode ==> sna(r->Ok_0@) && atna(final(self).anchors@),
    [C11] r is Ok ==> spl(r->Ok_0@, 0, old(self).len(), old(self).len()) && atpl(final(self).anchors@, old(self).len()),
loop 0 invariant
    self.wf(), self.doc_ind == 0 && self.anchors@.len() == 0,
    self.cyclic_mode == old(self).cyclic_mode && self.parser.doc@ == old(self).parser.doc@,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
loop 1 invariant
    self.wf(), self.doc_ind == self.anchors@.len() && self.doc_ind <= self.parser.pos + 1,
    self.cyclic_mode == old(self).cyclic_mode && self.parser.doc@ == old(self).parser.doc@,
    self.anchors@.len() == v@.len(),
    [C09] !self.cyclic_mode ==> sna(v@) && atna(self.anchors@),
    [C11] spl(v@, 0, self.at(), self.len()) && atpl(self.anchors@, self.len()),
loop 1 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
    broadcast use group_tree;
proof before doc 0
    let ghost a0 = self.anchors@;
    proof { reveal(atna); reveal(atpl); }
proof after doc 0
    proof { lemma_tables(a0, self.anchors@, self.at(), self.len()); assert(spl(Seq::empty(), 0, 0, self.len())); }
proof before doc 1
    let ghost h1 = self.at();
    let ghost v1 = v@;
    let ghost a1 = self.anchors@;
proof after doc 1
    proof {
        lemma_tables(a1, self.anchors@, self.at(), self.len());
    }
proof loop 0 start
    broadcast use group_ge;
    broadcast use group_tree;
proof loop 1 start
    broadcast use group_ge;
    broadcast use group_tree;

== parse
ret r
requires
    blen(doc@) < 0x3fff_ffff,
ensures
    [C09] r is Ok ==> sna(r->Ok_0@),
    [C11] r is Ok ==> spl(r->Ok_0@, 0, blen(doc@) as int, blen(doc@) as int),

== parse_cyclic
ret r
requires
    blen(doc@) < 0x3fff_ffff,
ensures
    [C09] r is Ok ==> r->Ok_0.0@.len() == r->Ok_0.1@.len(),
    [C11] r is Ok ==> spl(r->Ok_0.0@, 0, blen(doc@) as int, blen(doc@) as int) && atpl(r->Ok_0.1@, blen(doc@) as int),
