# Nodes as data of serde.
== <Node as Serialize>::serialize
bind S NodeSerializer
ret r
ensures
    as_norm(*self, r),
locals m map i__1 it__1 k v
loop 0 invariant
    i__1 <= it__1@.len(), it__1@ == m.v@, yv(*self) == Yaml::Map(*m), map.1 is None,
    normm(*m, i__1 as nat) is Some, map.0.v@ == mcollect(normm(*m, i__1 as nat)->Some_0),
    forall|n: nat| n < m.v@.len() && #[trigger] normm(*m, n) is Some && (norm(yv(m.v@[n as int].0)) is None || norm(yv(m.v@[n as int].1)) is None) ==> normm(*m, m.v@.len()) is None,
loop 0 decreases
    it__1@.len() - i__1
proof start
    broadcast use group_of;
    proof { if let Yaml::Map(m) = yv(*self) { lemma_stop_m(m); } }
proof loop 0 start
    broadcast use lemma_collect_push;

== <Node as Deserialize>::deserialize
bind D Node
ret r
ensures
    as_norm(deserializer, r),
proof start
    broadcast use group_of;

== <NodeVisitor as Visitor>::visit_seq
attr #[verifier::loop_isolation(false)]
bind A SeqVisitor
ret r
ensures
    self.gives(VEv::Seq(seq.0@), r),
locals a
loop 0 invariant
    v@.len() == n0, a@.len() <= n0, seq.0@ == v@.skip(a@.len() as int), norms(v, a@.len()) == Some(a@),
    forall|n: nat| n < v@.len() && #[trigger] norms(v, n) is Some && norm(yv(v@[n as int])) is None ==> norms(v, v@.len()) is None,
loop 0 decreases
    seq.0@.len()
proof start
    hide(norm); hide(norms); hide(normm); hide(mcollect); hide(minsert); hide(int_text); hide(dist);
    broadcast use {group_of, group_values};
    let ghost v = vec_of(seq.0@);
    let ghost n0 = seq.0@.len();
    proof { axiom_iter_len(seq.0); lemma_stop_s(v); assert(v@.skip(0) =~= v@); lemma_first_s(v); }
proof loop 0 start
    proof { lemma_step_s(v, a@, e); }

== <NodeVisitor as Visitor>::visit_map
attr #[verifier::loop_isolation(false)]
bind A MapVisitor
ret r
requires
    map.1 is None,
ensures
    self.gives(VEv::Map(map.0@), r),
locals m
loop 0 invariant
    w.v@.len() == n0, c <= n0, map.0@ == w.v@.skip(c as int), map.1 is None, normm(w, c) is Some, m.v@ == mcollect(normm(w, c)->Some_0),
    forall|n: nat| n < w.v@.len() && #[trigger] normm(w, n) is Some && (norm(yv(w.v@[n as int].0)) is None || norm(yv(w.v@[n as int].1)) is None) ==> normm(w, w.v@.len()) is None,
loop 0 decreases
    map.0@.len()
proof start
    hide(norm); hide(norms); hide(normm); hide(mcollect); hide(minsert); hide(int_text); hide(dist);
    broadcast use {group_of, group_values};
    let ghost w = map_of(map.0@);
    let ghost n0 = map.0@.len();
    let ghost mut c = 0nat;
    proof { axiom_iter_len(map.0); lemma_stop_m(w); assert(w.v@.skip(0) =~= w.v@); lemma_first(w); }
proof loop 0 start
    proof { lemma_step_m(w, c, k, v); c = c + 1; }

== <NodeVisitor as Visitor>::visit_unit
sig
    pub fn visit_unit(self) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::Unit, r),

== <NodeVisitor as Visitor>::visit_none
sig
    pub fn visit_none(self) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::None, r),

== <NodeVisitor as Visitor>::visit_bool
sig
    pub fn visit_bool(self, v: bool) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::Bool(v), r),

== <NodeVisitor as Visitor>::visit_i64
sig
    pub fn visit_i64(self, v: i64) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::I64(v), r),

== <NodeVisitor as Visitor>::visit_i128
sig
    pub fn visit_i128(self, v: i128) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::I128(v), r),

== <NodeVisitor as Visitor>::visit_u64
sig
    pub fn visit_u64(self, v: u64) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::U64(v), r),

== <NodeVisitor as Visitor>::visit_u128
sig
    pub fn visit_u128(self, v: u128) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::U128(v), r),

== <NodeVisitor as Visitor>::visit_f64
sig
    pub fn visit_f64(self, v: f64) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::F64(v), r),

== <NodeVisitor as Visitor>::visit_str
sig
    pub fn visit_str(self, v: &Str) -> (r: Result<Node, SerdeError>)
ret r
ensures
    self.gives(VEv::Str(v@), r),
