== Loader::new
ret r
requires
    doc@.len() <= lim(),
ensures
    r.parser.wf() && r.parser.doc@ == doc@ && r.parser.pos == 0 && r.parser.eaten == 0 && r.doc_ind == 0 && r.anchors@.len() == 0 && !r.cyclic_mode,

== Loader::cyclic_mode
ret r
ensures
    r == (Loader { cyclic_mode, ..self }),

== Loader::get_anchors
ret r
ensures
    r == self.anchors,

== Loader::doc_end
ret r
requires
    old(self).parser.wf(),
ensures
    final(self).parser.same(&old(self).parser) && final(self).parser.wf() && final(self).parser.pos == old(self).parser.pos,
    final(self).doc_ind == old(self).doc_ind && final(self).anchors == old(self).anchors && final(self).cyclic_mode == old(self).cyclic_mode,
    r == at_doc_end(old(self).parser.doc@, old(self).parser.pos as int),
proof start
    broadcast use group_ge;

== Loader::map_splitter
ret r
requires
    old(self).parser.wf(),
ensures
    final(self).parser.same(&old(self).parser) && final(self).parser.wf(),
    final(self).doc_ind == old(self).doc_ind && final(self).anchors == old(self).anchors && final(self).cyclic_mode == old(self).cyclic_mode,
    final(self).parser.pos >= old(self).parser.pos,
    r is Ok ==> final(self).parser.pos > old(self).parser.pos,
proof start
    broadcast use group_ge;

== Loader::scalar
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
ensures
    final(self).kept(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 4int
proof start
    hide(m_block); hide(m_tag);
    broadcast use group_ge;

== Loader::scalar_flow
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
ensures
    final(self).kept(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 2int
proof start
    hide(m_tag);
    broadcast use group_ge;

== Loader::scalar_term
ret r
requires
    old(self).inside(),
    old(self).parser.pos == old(self).parser.eaten,
    level <= 2 * old(self).parser.eaten + 1,
ensures
    final(self).kept(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 1int
proof start
    broadcast use group_ge;

== Loader::seq_flow
ret r
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
ensures
    final(self).kept(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 0int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten + 1,
    self.parser.pos > old(self).parser.eaten,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
proof loop 0 start
    broadcast use group_ge;

== Loader::map_flow
ret r
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten + 1,
ensures
    final(self).kept(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 0int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten + 1,
    self.parser.pos > old(self).parser.eaten,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
proof loop 0 start
    broadcast use group_ge;

== Loader::seq
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
ensures
    final(self).kept(old(self)),
    r is Err && r->Err_0 is Mismatch && !map ==> final(self).parser.pos == final(self).parser.eaten,
    r is Err && r->Err_0 is Mismatch && map ==> gap_kept(final(self).parser.doc@, final(self).parser.pos as int),
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 3int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
proof loop 0 start
    broadcast use group_ge;

== Loader::map
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(100)]
requires
    old(self).inside(),
    level <= 2 * old(self).parser.eaten,
    map ==> level > 0 && gap_kept(old(self).parser.doc@, old(self).parser.pos as int),
ensures
    final(self).kept(old(self)),
    r is Err && r->Err_0 is Mismatch ==> final(self).parser.pos == final(self).parser.eaten,
decreases
    old(self).parser.doc@.len() - old(self).parser.eaten, 3int
loop 0 invariant
    old(self).inside(), self.kept(old(self)), level <= 2 * old(self).parser.eaten,
    map ==> level > 0,
    m@.len() == 0 ==> self.parser.pos == old(self).parser.pos && (map ==> gap_kept(old(self).parser.doc@, old(self).parser.pos as int)),
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
proof loop 0 start
    broadcast use group_ge;

== Loader::doc
ret r
requires
    old(self).wf(),
    old(self).doc_ind == old(self).anchors@.len() && old(self).doc_ind <= lim(),
ensures
    final(self).wf() && final(self).parser.doc@ == old(self).parser.doc@,
    r is Ok ==> final(self).parser.pos >= old(self).parser.pos,
    r is Ok ==> final(self).doc_ind == old(self).doc_ind + 1 && final(self).anchors@.len() == final(self).doc_ind,
proof start
    broadcast use group_ge;

== Loader::parse
ret r
requires
    old(self).wf(),
    old(self).doc_ind == 0 && old(self).anchors@.len() == 0,
ensures
    final(self).wf(),
loop 0 invariant
    self.wf(), self.doc_ind == 0 && self.anchors@.len() == 0,
loop 0 decreases
    self.parser.doc@.len() - self.parser.pos,
loop 1 invariant
    self.wf(), self.doc_ind == self.anchors@.len() && self.doc_ind <= self.parser.pos + 1,
loop 1 decreases
    self.parser.doc@.len() - self.parser.pos,
proof start
    broadcast use group_ge;
proof loop 0 start
    broadcast use group_ge;
proof loop 1 start
    broadcast use group_ge;

== parse
ret r
requires
    blen(doc@) < 0x3fff_ffff,

== parse_cyclic
ret r
requires
    blen(doc@) < 0x3fff_ffff,
