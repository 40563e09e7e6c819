# Deserialization out of a node.
== SerdeError::pos
ret r
ensures
    r == (SerdeError { pos: pos, ..self }),

== <SerdeError as From<String>>::from
ret r
ensures
    r == (SerdeError { msg: msg, pos: 0 }),

== integer
ret r
ensures
    match int_as::<N>(n@) { Some(x) => r == Ok::<N, SerdeError>(x), None => failed(r, *node) },

== float
ret r
ensures
    match f64_of(n@) { Some(x) => r == Ok::<f64, SerdeError>(x), None => failed(r, *node) },

== unexpected
ret r
ensures
    r.pos == node.pos,

== <SeqVisitor as From<Seq<R>>>::from
ret r
ensures
    r.0@ == v@,

== <MapVisitor as From<Map<R>>>::from
ret r
ensures
    r.0@ == m.v@ && r.1 is None,

== <SeqVisitor as SeqAccess>::next_element_seed
ret r
ensures
    old(self).0@.len() == 0 ==> r == Ok::<_, SerdeError>(None) && final(self).0@ == old(self).0@,
    old(self).0@.len() > 0 ==> final(self).0@ == old(self).0@.skip(1)
        && match r { Ok(Some(x)) => seed.makes(old(self).0@[0], Ok(x)), Ok(None) => false, Err(e) => seed.makes(old(self).0@[0], Err(e)) },

== <MapVisitor as MapAccess>::next_key_seed
ret r
ensures
    old(self).0@.len() == 0 ==> r == Ok::<_, SerdeError>(None) && final(self).0@ == old(self).0@ && final(self).1 == old(self).1,
    old(self).0@.len() > 0 ==> final(self).0@ == old(self).0@.skip(1) && final(self).1 == Some(old(self).0@[0].1)
        && match r { Ok(Some(x)) => seed.makes(old(self).0@[0].0, Ok(x)), Ok(None) => false, Err(e) => seed.makes(old(self).0@[0].0, Err(e)) },

== <MapVisitor as MapAccess>::next_value_seed
ret r
requires
    old(self).1 is Some,
ensures
    final(self).0@ == old(self).0@ && final(self).1 is None,
    seed.makes(old(self).1->Some_0, r),

== <EnumVisitor as EnumAccess>::variant_seed
ret r
ensures
    match r { Ok((x, v)) => seed.makes(self.0, Ok(x)) && v.0 == self.0.pos && v.1 == self.1, Err(e) => seed.makes(self.0, Err(e)) },

== <VariantVisitor as VariantAccess>::unit_variant
ret r
ensures
    match self.1 { Some(n) => <() as Deserialize>::made(n, r), None => r is Ok },

== <VariantVisitor as VariantAccess>::newtype_variant_seed
ret r
ensures
    match self.1 { Some(n) => seed.makes(n, r), None => r is Err && r->Err_0.pos == self.0 },

== <VariantVisitor as VariantAccess>::tuple_variant
ret r
ensures
    match self.1 {
        Some(n) => match yv(n) { Yaml::Seq(v) => visitor.gives(VEv::Seq(v@), r), _ => failed(r, n) },
        None => r is Err && r->Err_0.pos == self.0,
    },

== <VariantVisitor as VariantAccess>::struct_variant
ret r
ensures
    match self.1 {
        Some(n) => match yv(n) { Yaml::Map(m) => visitor.gives(VEv::Map(m.v@), r), _ => failed(r, n) },
        None => r is Err && r->Err_0.pos == self.0,
    },

== <Node as Deserializer>::deserialize_i8
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<i8>(s@) { Some(x) => Some(VEv::I8(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_i16
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<i16>(s@) { Some(x) => Some(VEv::I16(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_i32
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<i32>(s@) { Some(x) => Some(VEv::I32(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_i64
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<i64>(s@) { Some(x) => Some(VEv::I64(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_i128
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<i128>(s@) { Some(x) => Some(VEv::I128(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_u8
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<u8>(s@) { Some(x) => Some(VEv::U8(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_u16
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<u16>(s@) { Some(x) => Some(VEv::U16(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_u32
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<u32>(s@) { Some(x) => Some(VEv::U32(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_u64
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<u64>(s@) { Some(x) => Some(VEv::U64(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_u128
ret r
ensures
    match yv(self) { Yaml::Int(s) => given(visitor, match int_as::<u128>(s@) { Some(x) => Some(VEv::U128(x)), None => None }, r, self), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_any
ret r
ensures
    given(visitor, any_event(yv(self)), r, self),

== <Node as Deserializer>::deserialize_bool
ret r
ensures
    match yv(self) { Yaml::Bool(b) => visitor.gives(VEv::Bool(b), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_seq
ret r
ensures
    match yv(self) { Yaml::Seq(v) => visitor.gives(VEv::Seq(v@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_tuple
ret r
ensures
    match yv(self) { Yaml::Seq(v) => visitor.gives(VEv::Seq(v@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_tuple_struct
ret r
ensures
    match yv(self) { Yaml::Seq(v) => visitor.gives(VEv::Seq(v@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_map
ret r
ensures
    match yv(self) { Yaml::Map(m) => visitor.gives(VEv::Map(m.v@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_struct
ret r
ensures
    match yv(self) { Yaml::Seq(v) => visitor.gives(VEv::Seq(v@), r), Yaml::Map(m) => visitor.gives(VEv::Map(m.v@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_identifier
ret r
ensures
    match yv(self) { Yaml::Str(s) => visitor.gives(VEv::Str(s@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_str
ret r
ensures
    given(visitor, match scalar_text(yv(self)) { Some(t) => Some(VEv::Str(t)), None => None }, r, self),

== <Node as Deserializer>::deserialize_string
ret r
ensures
    given(visitor, match scalar_text(yv(self)) { Some(t) => Some(VEv::Str(t)), None => None }, r, self),

== <Node as Deserializer>::deserialize_f32
ret r
ensures
    given(visitor, match yv(self) {
        Yaml::Float(s) => match f64_of(s@) { Some(f) => Some(VEv::F32(d2s(f))), None => None },
        Yaml::Int(s) => match i64_of(s@) { Some(n) => Some(VEv::F32(i2s(n))), None => match f64_of(s@) { Some(f) => Some(VEv::F32(d2s(f))), None => None } },
        _ => None,
    }, r, self),

== <Node as Deserializer>::deserialize_f64
ret r
ensures
    given(visitor, match yv(self) {
        Yaml::Float(s) => match f64_of(s@) { Some(f) => Some(VEv::F64(f)), None => None },
        Yaml::Int(s) => match i64_of(s@) { Some(n) => Some(VEv::F64(i2f(n))), None => match f64_of(s@) { Some(f) => Some(VEv::F64(f)), None => None } },
        _ => None,
    }, r, self),

== <Node as Deserializer>::deserialize_char
ret r
ensures
    match yv(self) {
        Yaml::Str(s) => if s@.len() == 1 { visitor.gives(VEv::Char(s@[0]), r) } else { failed(r, self) },
        Yaml::Int(s) => if blen(s@) == 1 { s@.len() == 1 && visitor.gives(VEv::Char(s@[0]), r) } else { failed(r, self) },
        _ => failed(r, self),
    },
proof start
    proof { if let Yaml::Int(s) = yv(self) { lemma_one_byte(s@); } }

== <Node as Deserializer>::deserialize_bytes
ret r
ensures
    match yv(self) { Yaml::Str(s) => visitor.gives(VEv::Str(s@), r), Yaml::Seq(v) => visitor.gives(VEv::Seq(v@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_byte_buf
ret r
ensures
    match yv(self) { Yaml::Str(s) => visitor.gives(VEv::Str(s@), r), Yaml::Seq(v) => visitor.gives(VEv::Seq(v@), r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_option
ret r
ensures
    match yv(self) { Yaml::Null => visitor.gives(VEv::None, r), _ => visitor.gives(VEv::Some(self), r) },

== <Node as Deserializer>::deserialize_unit
ret r
ensures
    match yv(self) { Yaml::Null => visitor.gives(VEv::Unit, r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_unit_struct
ret r
ensures
    match yv(self) { Yaml::Null => visitor.gives(VEv::Unit, r), _ => failed(r, self) },

== <Node as Deserializer>::deserialize_newtype_struct
ret r
ensures
    visitor.gives(VEv::Newtype(self), r),

== <Node as Deserializer>::deserialize_enum
ret r
ensures
    match yv(self) {
        Yaml::Map(m) => if m.v@.len() == 1 { visitor.gives(VEv::Enum(m.v@[0].0, Some(m.v@[0].1)), r) } else { failed(r, self) },
        Yaml::Str(_) => visitor.gives(VEv::Enum(self, None), r),
        _ => failed(r, self),
    },

== <Node as Deserializer>::deserialize_ignored_any
ret r
ensures
    visitor.gives(VEv::Unit, r),

