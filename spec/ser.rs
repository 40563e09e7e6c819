// Serialization: what a value gives to the serializer of nodes, as a relation.

pub trait Serialize {
    spec fn ser(&self, r: Result<Node, SerdeError>) -> bool;
    fn serialize(&self, s: NodeSerializer) -> (r: Result<Node, SerdeError>) ensures self.ser(r);
}
/// Texts of the library are given to `serialize_str`.
impl Serialize for Str {
    open spec fn ser(&self, r: Result<Node, SerdeError>) -> bool { r == done(Yaml::Str(str_of(self@))) }
    fn serialize(&self, s: NodeSerializer) -> (r: Result<Node, SerdeError>) { s.serialize_str(self) }
}
pub open spec fn done(y: Yaml) -> Result<Node, SerdeError> { Ok(node0(y)) }
/// The name of a variant or a field.
pub open spec fn named(t: Seq<char>) -> Node { node0(Yaml::Str(str_of(t))) }
pub open spec fn one(t: Seq<char>, x: Node) -> Seq<(Node, Node)> { seq![(named(t), x)] }
/// A map of one pair, from the name of the variant.
pub open spec fn single(t: Seq<char>, x: Node) -> Node { node0(Yaml::Map(LMap { v: vec_of(one(t, x)) })) }
pub open spec fn byte_node(b: u8) -> Node { node0(Yaml::Int(str_of(int_text(b as int)))) }
pub broadcast proof fn lemma_collect_one(s: Seq<(Node, Node)>)
    requires s.len() == 1
    ensures #[trigger] mcollect(s) == s
{
    reveal_with_fuel(mcollect, 2);
    assert(s.drop_last() =~= Seq::empty());
    assert(minsert(s.drop_last(), s.last().0, s.last().1) =~= s);
}
