// The traits of serde for nodes themselves.

/// `Vec<T>: Serialize` of the library: each item in turn.
impl Serialize for Vec<Node> {
    open spec fn ser(&self, r: Result<Node, SerdeError>) -> bool {
        match norms(*self, self@.len()) { Some(s) => r == done(Yaml::Seq(vec_of(s))), None => r is Err }
    }
    fn serialize(&self, s: NodeSerializer) -> (r: Result<Node, SerdeError>) {
        broadcast use group_of;
        let mut seq = s.serialize_seq(Some(self.len()))?;
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), norms(*self, i as nat) == Some(seq.0@),
            decreases self@.len() - i
        {
            proof { lemma_norms_none(*self, (i + 1) as nat, self@.len()); }
            let x = seq.seq_element(&self[i])?;
            i += 1;
        }
        seq.seq_end()
    }
}
pub proof fn lemma_norms_none(v: Vec<Node>, n: nat, m: nat)
    requires n <= m <= v@.len()
    ensures norms(v, n) is None ==> norms(v, m) is None
    decreases m - n
{ if n < m { lemma_norms_none(v, n, (m - 1) as nat); } }
pub proof fn lemma_normm_none(v: LMap, n: nat, m: nat)
    requires n <= m <= v.v@.len()
    ensures normm(v, n) is None ==> normm(v, m) is None
    decreases m - n
{ if n < m { lemma_normm_none(v, n, (m - 1) as nat); } }
/// The contract which is proved for the function below.
impl Serialize for Node {
    open spec fn ser(&self, r: Result<Node, SerdeError>) -> bool { as_norm(*self, r) }
    #[verifier::external_body]
    fn serialize(&self, s: NodeSerializer) -> (r: Result<Node, SerdeError>) { unimplemented!() }
}
/// The contract which is proved for `Deserialize for Node` below.
impl Deserialize for Node {
    open spec fn made(n: Node, r: Result<Node, SerdeError>) -> bool { as_norm(n, r) }
    #[verifier::external_body]
    fn deserialize(n: Node) -> (r: Result<Node, SerdeError>) { unimplemented!() }
}
/// `PhantomData<Node>` as a seed.
pub struct NodeSeed;
impl DeserializeSeed for NodeSeed {
    type Value = Node;
    open spec fn makes(self, n: Node, r: Result<Node, SerdeError>) -> bool { as_norm(n, r) }
    fn deserialize(self, n: Node) -> (r: Result<Node, SerdeError>) { <Node as Deserialize>::deserialize(n) }
}
/// `SeqAccess::next_element` of the library.
impl SeqVisitor {
    pub fn next_element(&mut self) -> (r: Result<Option<Node>, SerdeError>)
        ensures
            old(self).0@.len() == 0 ==> r == Ok::<_, SerdeError>(None) && final(self).0@ == old(self).0@,
            old(self).0@.len() > 0 ==> final(self).0@ == old(self).0@.skip(1)
                && match norm(yv(old(self).0@[0])) { Some(x) => r == Ok::<_, SerdeError>(Some(x)), None => r is Err },
    { self.next_element_seed(NodeSeed) }
}
/// `MapAccess::next_entry` of the library.
impl MapVisitor {
    pub fn next_entry(&mut self) -> (r: Result<Option<(Node, Node)>, SerdeError>)
        requires old(self).1 is None
        ensures
            old(self).0@.len() == 0 ==> r == Ok::<_, SerdeError>(None) && final(self).0@ == old(self).0@ && final(self).1 is None,
            old(self).0@.len() > 0 ==> final(self).0@ == old(self).0@.skip(1)
                && match (norm(yv(old(self).0@[0].0)), norm(yv(old(self).0@[0].1))) { (Some(k), Some(x)) => r == Ok::<_, SerdeError>(Some((k, x))) && final(self).1 is None, _ => r is Err },
    {
        match self.next_key_seed(NodeSeed)? {
            Some(k) => { let v = self.next_value_seed(NodeSeed)?; Ok(Some((k, v))) }
            None => Ok(None),
        }
    }
}
pub open spec fn map_of(s: Seq<(Node, Node)>) -> LMap { LMap { v: vec_of(s) } }
/// What is made of an event.
pub open spec fn made_of(e: VEv, r: Result<Node, SerdeError>) -> bool {
    match e {
        VEv::Unit => r == done(Yaml::Null),
        VEv::None => r == done(Yaml::Null),
        VEv::Bool(b) => r == done(Yaml::Bool(b)),
        VEv::I64(x) => r == done(Yaml::Int(str_of(int_text(x as int)))),
        VEv::U64(x) => r == done(Yaml::Int(str_of(int_text(x as int)))),
        VEv::I128(x) => r == done(Yaml::Int(str_of(int_text(x as int)))),
        VEv::U128(x) => r == done(Yaml::Int(str_of(int_text(x as int)))),
        VEv::F64(x) => r == done(Yaml::Float(str_of(f64_text(x)))),
        VEv::Str(t) => r == done(Yaml::Str(str_of(t))),
        VEv::Seq(s) => match norms(vec_of(s), s.len()) { Some(w) => r == done(Yaml::Seq(vec_of(w))), None => r is Err },
        VEv::Map(s) => match normm(map_of(s), s.len()) { Some(w) => r == done(Yaml::Map(LMap { v: vec_of(mcollect(w)) })), None => r is Err },
        _ => true,
    }
}
/// The contracts which are proved for the functions below.
impl Visitor for NodeVisitor {
    type Value = Node;
    open spec fn gives(self, e: VEv, r: Result<Node, SerdeError>) -> bool { made_of(e, r) }
    #[verifier::external_body]
    fn visit_unit(self) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_none(self) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_bool(self, v: bool) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_i8(self, v: i8) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_i16(self, v: i16) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_i32(self, v: i32) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_i64(self, v: i64) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_i128(self, v: i128) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_u8(self, v: u8) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_u16(self, v: u16) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_u32(self, v: u32) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_u64(self, v: u64) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_u128(self, v: u128) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_f32(self, v: f32) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_f64(self, v: f64) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_char(self, v: char) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_some(self, n: Node) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_newtype_struct(self, n: Node) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_str(self, v: &Str) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_enum(self, a: EnumVisitor) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_seq<A: SeqAccess>(self, a: A) -> (r: Result<Node, SerdeError>) { unimplemented!() }
    #[verifier::external_body]
    fn visit_map<A: MapAccess>(self, a: A) -> (r: Result<Node, SerdeError>) { unimplemented!() }
}
pub broadcast proof fn lemma_collect_push(s: Seq<(Node, Node)>, k: Node, v: Node)
    ensures #[trigger] mcollect(s.push((k, v))) == minsert(mcollect(s), k, v)
{ assert(s.push((k, v)).drop_last() =~= s); }
pub proof fn lemma_stop_s(v: Vec<Node>)
    ensures forall|n: nat| n < v@.len() && #[trigger] norms(v, n) is Some && norm(yv(v@[n as int])) is None ==> norms(v, v@.len()) is None
{
    assert forall|n: nat| n < v@.len() && #[trigger] norms(v, n) is Some && norm(yv(v@[n as int])) is None implies norms(v, v@.len()) is None by { lemma_norms_none(v, n + 1, v@.len()); }
}
pub proof fn lemma_stop_m(m: LMap)
    ensures forall|n: nat| n < m.v@.len() && #[trigger] normm(m, n) is Some && (norm(yv(m.v@[n as int].0)) is None || norm(yv(m.v@[n as int].1)) is None) ==> normm(m, m.v@.len()) is None
{
    assert forall|n: nat| n < m.v@.len() && #[trigger] normm(m, n) is Some && (norm(yv(m.v@[n as int].0)) is None || norm(yv(m.v@[n as int].1)) is None)
        implies normm(m, m.v@.len()) is None by { lemma_normm_none(m, n + 1, m.v@.len()); }
}
pub proof fn lemma_step_s(v: Vec<Node>, s: Seq<Node>, x: Node)
    ensures s.len() < v@.len() && norms(v, s.len()) == Some(s) && norm(yv(v@[s.len() as int])) == Some(x) ==> norms(v, s.len() + 1) == Some(s.push(x)),
        s.len() < v@.len() ==> v@.skip(s.len() as int).skip(1) == v@.skip(s.len() + 1int),
{ if s.len() < v@.len() { assert(v@.skip(s.len() as int).skip(1) =~= v@.skip(s.len() + 1int)); } }
pub proof fn lemma_step_m(m: LMap, n: nat, k: Node, x: Node)
    requires n < m.v@.len()
    ensures normm(m, n) is Some && norm(yv(m.v@[n as int].0)) == Some(k) && norm(yv(m.v@[n as int].1)) == Some(x)
            ==> normm(m, n + 1) is Some && mcollect(normm(m, n + 1)->Some_0) == minsert(mcollect(normm(m, n)->Some_0), k, x),
        m.v@.skip(n as int).skip(1) == m.v@.skip(n + 1int),
{ assert(m.v@.skip(n as int).skip(1) =~= m.v@.skip(n + 1int)); if normm(m, n) is Some { lemma_collect_push(normm(m, n)->Some_0, k, x); } }
pub proof fn lemma_first(m: LMap)
    ensures normm(m, 0) == Some(Seq::<(Node, Node)>::empty()), mcollect(Seq::empty()) == Seq::<(Node, Node)>::empty(), forall|s: Seq<(Node, Node)>| #[trigger] mcollect(mcollect(s)) == mcollect(s)
{ assert forall|s: Seq<(Node, Node)>| #[trigger] mcollect(mcollect(s)) == mcollect(s) by { lemma_collect_twice(s); } }
pub proof fn lemma_first_s(v: Vec<Node>)
    ensures norms(v, 0) == Some(Seq::<Node>::empty())
{}
