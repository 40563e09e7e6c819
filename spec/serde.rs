// serde: the traits of the library as relations.

/// An iterator: what is left.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: std::vec::IntoIter<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r as nat == self@.len() { unimplemented!() }
}
/// An iterator of a vector or a map: not more items than an `usize` counts.
#[verifier::external_body]
pub proof fn axiom_iter_len<T>(i: VIter<T>) ensures i@.len() <= usize::MAX {}
pub trait VIntoIter: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
    fn vs_into_iter(self) -> (r: VIter<Self::Item>) ensures r@ == self.items();
}
impl<T> VIntoIter for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vs_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl VIntoIter for LMap { type Item = (Node, Node); open spec fn items(self) -> Seq<(Node, Node)> { self.v@ }
    #[verifier::external_body]
    fn vs_into_iter(self) -> (r: VIter<(Node, Node)>) { unimplemented!() } }
impl<'a> VIntoIter for &'a LMap { type Item = (&'a Node, &'a Node);
    open spec fn items(self) -> Seq<(&'a Node, &'a Node)> { Seq::new(self.v@.len(), |i: int| (&self.v@[i].0, &self.v@[i].1)) }
    #[verifier::external_body]
    fn vs_into_iter(self) -> (r: VIter<(&'a Node, &'a Node)>) { unimplemented!() } }
/// The first character, and the number of them.
pub trait VChars: Sized { spec fn cs(self) -> Seq<char>;
    fn count(self) -> (r: usize) ensures r == self.cs().len();
    fn next(self) -> (r: Option<char>) ensures r is Some == (self.cs().len() > 0), r is Some ==> r->Some_0 == self.cs()[0]; }
impl VChars for Vec<char> { open spec fn cs(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn count(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn next(self) -> (r: Option<char>) { unimplemented!() } }

/// `as f32`
pub uninterp spec fn i2s(n: i64) -> f32;
pub uninterp spec fn d2s(n: f64) -> f32;
pub trait VF32: Sized { spec fn single(self) -> f32; }
impl VF32 for i64 { open spec fn single(self) -> f32 { i2s(self) } }
impl VF32 for f64 { open spec fn single(self) -> f32 { d2s(self) } }
#[verifier::external_body]
pub fn vs_f32<T: VF32>(x: T) -> (r: f32) ensures r == x.single() { unimplemented!() }

/// `serde::de::Unexpected`
pub enum Unexpected<'a> { Bool(bool), Unsigned(u64), Signed(i64), Float(f64), Char(char), Str(&'a Str), Unit, Option, NewtypeStruct, Seq, Map, Enum, UnitVariant, NewtypeVariant, TupleVariant, StructVariant, Other(&'a Str) }
pub trait Expected {}
impl Expected for &Str {}
impl<V: Visitor> Expected for V {}
/// Errors of the library are made of a message: no position.
pub trait Error: Sized {
    spec fn at(&self) -> u64;
    fn invalid_type<E: Expected>(u: Unexpected<'_>, e: &E) -> (r: Self) ensures r.at() == 0;
}
impl Error for SerdeError {
    open spec fn at(&self) -> u64 { self.pos }
    #[verifier::external_body]
    fn invalid_type<E: Expected>(u: Unexpected<'_>, e: &E) -> (r: SerdeError) { unimplemented!() }
}

/// What a visitor is given.
pub ghost enum VEv {
    Unit, None, Some(Node), Newtype(Node), Bool(bool),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64), Char(char), Str(Seq<char>), Seq(Seq<Node>), Map(Seq<(Node, Node)>), Enum(Node, Option<Node>),
}
/// Access to items, in their order.
pub trait SeqAccess { spec fn items(&self) -> Seq<Node>; }
impl SeqAccess for SeqVisitor { open spec fn items(&self) -> Seq<Node> { self.0@ } }
pub trait MapAccess { spec fn pairs(&self) -> Seq<(Node, Node)>; spec fn fresh(&self) -> bool; }
impl MapAccess for MapVisitor { open spec fn pairs(&self) -> Seq<(Node, Node)> { self.0@ } open spec fn fresh(&self) -> bool { self.1 is None } }
/// A visitor: what it answers to an event.
pub trait Visitor: Sized {
    type Value;
    spec fn gives(self, e: VEv, r: Result<Self::Value, SerdeError>) -> bool;
    fn visit_unit(self) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Unit, r);
    fn visit_none(self) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::None, r);
    fn visit_some(self, n: Node) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Some(n), r);
    fn visit_newtype_struct(self, n: Node) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Newtype(n), r);
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Bool(v), r);
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::I8(v), r);
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::I16(v), r);
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::I32(v), r);
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::I64(v), r);
    fn visit_i128(self, v: i128) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::I128(v), r);
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::U8(v), r);
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::U16(v), r);
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::U32(v), r);
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::U64(v), r);
    fn visit_u128(self, v: u128) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::U128(v), r);
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::F32(v), r);
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::F64(v), r);
    fn visit_char(self, v: char) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Char(v), r);
    fn visit_str(self, v: &Str) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Str(v@), r);
    fn visit_seq<A: SeqAccess>(self, a: A) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Seq(a.items()), r);
    fn visit_map<A: MapAccess>(self, a: A) -> (r: Result<Self::Value, SerdeError>) requires a.fresh() ensures self.gives(VEv::Map(a.pairs()), r);
    fn visit_enum(self, a: EnumVisitor) -> (r: Result<Self::Value, SerdeError>) ensures self.gives(VEv::Enum(a.0, a.1), r);
}
/// What is made of a node.
pub trait DeserializeSeed: Sized {
    type Value;
    spec fn makes(self, n: Node, r: Result<Self::Value, SerdeError>) -> bool;
    fn deserialize(self, n: Node) -> (r: Result<Self::Value, SerdeError>) ensures self.makes(n, r);
}
pub trait Deserialize: Sized {
    spec fn made(n: Node, r: Result<Self, SerdeError>) -> bool;
    fn deserialize(n: Node) -> (r: Result<Self, SerdeError>) ensures Self::made(n, r);
}
/// `()` asks for a unit.
impl Deserialize for () {
    open spec fn made(n: Node, r: Result<(), SerdeError>) -> bool { match yv(n) { Yaml::Null => r is Ok, _ => failed(r, n) } }
    #[verifier::external_body]
    fn deserialize(n: Node) -> (r: Result<(), SerdeError>) { unimplemented!() }
}

/// An error which carries the position of the node.
pub open spec fn failed<T>(r: Result<T, SerdeError>, n: Node) -> bool { r is Err && r->Err_0.pos == n.pos }
/// The integer of a text, in a type.
pub open spec fn int_as<N: VInt>(s: Seq<char>) -> Option<N> { match i64_of(s) { Some(x) => N::of(x), None => N::parsed(s) } }
/// The event of an integer of any size.
pub open spec fn int_event(s: Seq<char>) -> Option<VEv> {
    match i64_of(s) {
        Some(x) => Some(VEv::I64(x)),
        None => match u64::parsed(s) {
            Some(x) => Some(VEv::U64(x)),
            None => match i128::parsed(s) {
                Some(x) => Some(VEv::I128(x)),
                None => match u128::parsed(s) { Some(x) => Some(VEv::U128(x)), None => None },
            },
        },
    }
}
/// The text which a scalar stands for.
pub open spec fn scalar_text(y: Yaml) -> Option<Seq<char>> {
    match y {
        Yaml::Str(s) => Some(s@),
        Yaml::Int(s) => Some(s@),
        Yaml::Float(s) => Some(s@),
        Yaml::Bool(b) => Some(if b { "true"@ } else { "false"@ }),
        Yaml::Null => Some("null"@),
        _ => None,
    }
}
pub open spec fn given<V: Visitor>(v: V, e: Option<VEv>, r: Result<V::Value, SerdeError>, n: Node) -> bool {
    match e { Some(e) => v.gives(e, r), None => failed(r, n) }
}
/// The event of a node for those who take everything.
pub open spec fn any_event(y: Yaml) -> Option<VEv> {
    match y {
        Yaml::Null => Some(VEv::Unit),
        Yaml::Bool(b) => Some(VEv::Bool(b)),
        Yaml::Int(s) => int_event(s@),
        Yaml::Float(s) => match f64_of(s@) { Some(f) => Some(VEv::F64(f)), None => None },
        Yaml::Str(s) => Some(VEv::Str(s@)),
        Yaml::Seq(v) => Some(VEv::Seq(v@)),
        Yaml::Map(m) => Some(VEv::Map(m.v@)),
        Yaml::Alias(_) => None,
    }
}
pub proof fn lemma_one_byte(s: Seq<char>)
    ensures blen(s) == 1 ==> s.len() == 1, blen(s) >= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_one_byte(s.drop_last()); if s.len() > 1 { lemma_one_byte(s.drop_last().drop_last()); } } }
