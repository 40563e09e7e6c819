== Dumper::new
ret r
ensures
    r.node == node && r.root is Scalar && r.level == 0 && r.anchors == anchors,

== Dumper::part
ret r
requires
    dfit(*node, level as int),
ensures
    r@ == dnode(*node, root, level as nat, aentries(*self.anchors)),
decreases *node, 1int

== Dumper::dump
ret r
attr #[verifier::spinoff_prover]
attr #[verifier::rlimit(60)]
requires
    dfit(*self.node, self.level as int),
ensures
    r@ == dnode(*self.node, self.root, self.level as nat, aentries(*self.anchors)),
decreases *self.node, 0int
proof start
    let ghost t = aentries(*self.anchors);
    let ghost lv = self.level as nat;
    proof { lemma_lits(); assert(2 * lv <= isize::MAX) by (nonlinear_arith) requires lv <= 0x800_0000_0000_0000; }
loop 0 invariant
    i__1 <= it__1@.len(), it__1@ == t, t == aentries(*self.anchors),
    oview(out__1) is None ==> afind(t, *self.node, 0) == afind(t, *self.node, i__1 as int),
    oview(out__1) is Some ==> afind(t, *self.node, 0) == oview(out__1),
loop 0 decreases
    it__1@.len() - i__1
proof before repeat 0
    proof { assert(doc@ =~= danchor(*self.node, t) + dtag(*self.node)); }
    let ghost pre = doc@;
loop 1 invariant
    i__2 <= it__2@.len(), views_own(out__2@).len() == i__2, ind@ == dind(lv), views(it__2@) == lines_of(s@),
    forall|k: int| 0 <= k < i__2 ==> #[trigger] views_own(out__2@)[k] == dline(views(it__2@)[k], lv),
loop 1 decreases
    it__2@.len() - i__2
proof loop 1 start
    let ghost o2 = views_own(out__2@);
proof loop 1 end
    proof { assert(it__2@[i__2 - 1]@.len() == 0 ==> it__2@[i__2 - 1]@ =~= Seq::empty()); assert(views_own(out__2@) =~= o2.push(dline(it__2@[i__2 - 1]@, lv))); }
proof after loop 1
    proof { assert(views_own(out__2@) =~= dlines(lines_of(s@), lv)); }
loop 2 invariant
    i__3 <= it__3@.len(), it__3@ == v@, yv(*self.node) == Yaml::Seq(*v), dfit(*self.node, self.level as int), ind@ == dind(lv), lv == self.level,
    t == aentries(*self.anchors), v@.len() > 0,
    buf@ == ditems(*v, i__3 as nat, lv, t),
loop 2 decreases
    it__3@.len() - i__3
proof loop 2 start
    proof { lemma_lits(); }
proof loop 2 end
    proof { assert(buf@ == ditems(*v, i__3 as nat, lv, t)); }
proof after loop 2
    proof { lemma_ditems_nl(*v, v@.len(), lv, t); lemma_cut(buf@); }
loop 3 invariant
    i__4 <= it__4@.len(), it__4@ == m.v@, yv(*self.node) == Yaml::Map(*m), dfit(*self.node, self.level as int), ind@ == dind(lv), lv == self.level,
    t == aentries(*self.anchors), m.v@.len() > 0,
    buf@ == dpairs(*m, i__4 as nat, self.root, lv, t),
loop 3 decreases
    it__4@.len() - i__4
proof loop 3 start
    proof {
        lemma_lits();
        assert(2 * (lv + 1) <= isize::MAX) by (nonlinear_arith) requires lv <= 0x800_0000_0000_0000;
        let y = *m.v@[i__4 as int].1.yaml;
        lemma_nfit_mono(y, (dmax() - lv - 1) as nat, (dmax() - lv) as nat);
    }
proof loop 3 end
    proof { assert(buf@ == dpairs(*m, i__4 as nat, self.root, lv, t)); }
proof after loop 3
    proof { lemma_dpairs_nl(*m, m.v@.len(), self.root, lv, t); lemma_cut(buf@); }
proof end
    proof { assert(end__@ =~= dnode(*self.node, self.root, lv, t)); }

== dump
ret r
requires
    forall|i: int| 0 <= i < nodes@.len() ==> dfit(#[trigger] nodes@[i], 0),
ensures
    r@ == dstream(nodes@, anchors@, nodes@.len()),
proof start
    proof { lemma_lits(); }
loop 0 invariant
    i__1 <= it__1@.len(), it__1@ == nodes@, anchors_empty@ == Map::<Seq<char>, Node>::empty(),
    forall|i: int| 0 <= i < nodes@.len() ==> dfit(#[trigger] nodes@[i], 0),
    out__1@ == dstream(nodes@, anchors@, i__1 as nat),
loop 0 decreases
    it__1@.len() - i__1
proof loop 0 start
    proof { lemma_lits(); lemma_no_entries(anchors_empty); assert(dfit(nodes@[i__1 as int], 0)); }
proof loop 0 end
    proof { assert(out__1@ =~= dstream(nodes@, anchors@, i__1 as nat)); }
