# Serialization into a node.

== <NodeSerializer as Serializer>::serialize_bool
ret r
ensures
    r == done(Yaml::Bool(v)),

== <NodeSerializer as Serializer>::serialize_i8
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_i16
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_i32
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_i64
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_i128
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_u8
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_u16
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_u32
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_u64
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_u128
ret r
ensures
    r == done(Yaml::Int(str_of(int_text(v as int)))),

== <NodeSerializer as Serializer>::serialize_f32
ret r
ensures
    r == done(Yaml::Float(str_of(f32_text(v)))),

== <NodeSerializer as Serializer>::serialize_f64
ret r
ensures
    r == done(Yaml::Float(str_of(f64_text(v)))),

== <NodeSerializer as Serializer>::serialize_char
ret r
ensures
    r == done(Yaml::Str(str_of(seq![v]))),

== <NodeSerializer as Serializer>::serialize_str
ret r
ensures
    r == done(Yaml::Str(str_of(v@))),

== <NodeSerializer as Serializer>::serialize_none
ret r
ensures
    r == done(Yaml::Null),

== <NodeSerializer as Serializer>::serialize_unit
ret r
ensures
    r == done(Yaml::Null),

== <NodeSerializer as Serializer>::serialize_unit_struct
ret r
ensures
    r == done(Yaml::Null),

== <NodeSerializer as Serializer>::serialize_unit_variant
ret r
ensures
    r == done(Yaml::Str(str_of(variant@))),

== <NodeSerializer as Serializer>::serialize_some
ret r
ensures
    value.ser(r),

== <NodeSerializer as Serializer>::serialize_newtype_struct
ret r
ensures
    value.ser(r),

== <NodeSerializer as Serializer>::serialize_newtype_variant
ret r
ensures
    match r { Ok(n) => exists|x: Node| #[trigger] value.ser(Ok(x)) && n == single(variant@, x), Err(e) => value.ser(Err(e)) },
proof start
    broadcast use {group_of, lemma_collect_one};
proof end
    proof { if end__ is Ok { let m = yv(end__->Ok_0)->Map_0; assert(m.v@.len() == 1); assert(m.v@ =~= seq![(named(variant@), m.v@[0].1)]); assert(m.v@ == one(variant@, m.v@[0].1)); assert(vec_of(m.v@) == m.v); assert(value.ser(Ok(m.v@[0].1))); } }

== <NodeSerializer as Serializer>::serialize_seq
ret r
ensures
    r is Ok && r->Ok_0.0@ == Seq::<Node>::empty(),

== <NodeSerializer as Serializer>::serialize_tuple
ret r
ensures
    r is Ok && r->Ok_0.0@ == Seq::<Node>::empty(),

== <NodeSerializer as Serializer>::serialize_tuple_struct
ret r
ensures
    r is Ok && r->Ok_0.0@ == Seq::<Node>::empty(),

== <NodeSerializer as Serializer>::serialize_tuple_variant
ret r
ensures
    r is Ok && r->Ok_0.0@ == Seq::<Node>::empty() && r->Ok_0.1@ == variant@,

== <NodeSerializer as Serializer>::serialize_map
ret r
ensures
    r is Ok && r->Ok_0.0.v@ == Seq::<(Node, Node)>::empty() && r->Ok_0.1 is None,

== <NodeSerializer as Serializer>::serialize_struct
ret r
ensures
    r is Ok && r->Ok_0.0.v@ == Seq::<(Node, Node)>::empty(),

== <NodeSerializer as Serializer>::serialize_struct_variant
ret r
ensures
    r is Ok && r->Ok_0.0.v@ == Seq::<(Node, Node)>::empty() && r->Ok_0.1@ == variant@,

== <NodeSerializer as Serializer>::serialize_bytes
ret r
ensures
    match r { Ok(n) => n == node0(Yaml::Seq(vec_of(Seq::new(v@.len(), |i: int| byte_node(v@[i]))))), Err(_) => false },
locals out__1 it__1 i__1
loop 0 invariant
    i__1 <= it__1@.len(), it__1@ == v@,
    out__1@.len() == i__1, forall|i: int| 0 <= i < i__1 ==> #[trigger] out__1@[i] == byte_node(v@[i]),
loop 0 decreases
    it__1@.len() - i__1
proof start
    broadcast use group_of;
proof loop 0 start
    broadcast use {group_of, lemma_collect_one};
proof end
    proof { let w = yv(end__->Ok_0)->Seq_0; assert(w@ =~= Seq::new(v@.len(), |i: int| byte_node(v@[i]))); assert(vec_of(w@) == w); }

== <SeqSerializer as SerializeSeq>::serialize_element => seq_element
ret r
ensures
    match r { Ok(_) => exists|x: Node| #[trigger] value.ser(Ok(x)) && final(self).0@ == old(self).0@.push(x), Err(e) => value.ser(Err(e)) && final(self).0@ == old(self).0@ },

== <SeqSerializer as SerializeTuple>::serialize_element => tuple_element
ret r
ensures
    match r { Ok(_) => exists|x: Node| #[trigger] value.ser(Ok(x)) && final(self).0@ == old(self).0@.push(x), Err(e) => value.ser(Err(e)) && final(self).0@ == old(self).0@ },

== <SeqSerializer as SerializeTupleStruct>::serialize_field => tuple_struct_field
ret r
ensures
    match r { Ok(_) => exists|x: Node| #[trigger] value.ser(Ok(x)) && final(self).0@ == old(self).0@.push(x), Err(e) => value.ser(Err(e)) && final(self).0@ == old(self).0@ },

== <TupleVariant as SerializeTupleVariant>::serialize_field
ret r
ensures
    match r { Ok(_) => exists|x: Node| #[trigger] value.ser(Ok(x)) && final(self).0@ == old(self).0@.push(x), Err(e) => value.ser(Err(e)) && final(self).0@ == old(self).0@ },
    final(self).1 == old(self).1,

== <SeqSerializer as SerializeSeq>::end => seq_end
ret r
ensures
    r == done(Yaml::Seq(self.0)),

== <SeqSerializer as SerializeTuple>::end => tuple_end
ret r
ensures
    r == done(Yaml::Seq(self.0)),

== <SeqSerializer as SerializeTupleStruct>::end => tuple_struct_end
ret r
ensures
    r == done(Yaml::Seq(self.0)),

== <TupleVariant as SerializeTupleVariant>::end
ret r
ensures
    r is Ok && r->Ok_0 == single(self.1@, node0(Yaml::Seq(self.0))),
proof start
    broadcast use {group_of, lemma_collect_one};
proof end
    proof { let m = yv(end__->Ok_0)->Map_0; assert(m.v@.len() == 1); assert(m.v@ =~= one(self.1@, m.v@[0].1)); assert(vec_of(m.v@) == m.v); }

== <StructSerializer as SerializeStruct>::serialize_field
ret r
ensures
    match r { Ok(_) => exists|x: Node| #[trigger] value.ser(Ok(x)) && final(self).0.v@ == minsert(old(self).0.v@, named(key@), x), Err(e) => value.ser(Err(e)) && final(self).0 == old(self).0 },

== <StructSerializer as SerializeStruct>::end
ret r
ensures
    r == done(Yaml::Map(self.0)),

== <StructVariant as SerializeStructVariant>::serialize_field
ret r
ensures
    match r { Ok(_) => exists|x: Node| #[trigger] value.ser(Ok(x)) && final(self).0.v@ == minsert(old(self).0.v@, named(key@), x), Err(e) => value.ser(Err(e)) && final(self).0 == old(self).0 },
    final(self).1 == old(self).1,

== <StructVariant as SerializeStructVariant>::end
ret r
ensures
    r is Ok && r->Ok_0 == single(self.1@, node0(Yaml::Map(self.0))),
proof start
    broadcast use {group_of, lemma_collect_one};
proof end
    proof { let m = yv(end__->Ok_0)->Map_0; assert(m.v@.len() == 1); assert(m.v@ =~= one(self.1@, m.v@[0].1)); assert(vec_of(m.v@) == m.v); }

== <MapSerializer as SerializeMap>::serialize_key
ret r
ensures
    final(self).0 == old(self).0,
    match r { Ok(_) => final(self).1 is Some && key.ser(Ok(final(self).1->Some_0)), Err(e) => key.ser(Err(e)) },

== <MapSerializer as SerializeMap>::serialize_value
ret r
requires
    old(self).1 is Some,
ensures
    match r { Ok(_) => exists|x: Node| #[trigger] value.ser(Ok(x)) && final(self).0.v@ == minsert(old(self).0.v@, old(self).1->Some_0, x), Err(e) => value.ser(Err(e)) && final(self).0 == old(self).0 },
    final(self).1 is None,

== <MapSerializer as SerializeMap>::serialize_entry
ret r
ensures
    match r { Ok(_) => exists|k: Node, x: Node| #[trigger] key.ser(Ok(k)) && #[trigger] value.ser(Ok(x)) && final(self).0.v@ == minsert(old(self).0.v@, k, x),
        Err(e) => (key.ser(Err(e)) || (exists|k: Node| #[trigger] key.ser(Ok(k))) && value.ser(Err(e))) && final(self).0 == old(self).0 },
    final(self).1 == old(self).1,

== <MapSerializer as SerializeMap>::end
ret r
ensures
    r == done(Yaml::Map(self.0)),

== to_node
ret r
ensures
    any.ser(r),

== to_arc_node
ret r
ensures
    any.ser(r),
