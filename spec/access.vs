== Node::is_null
ret r
ensures
    r == (yv(*self) is Null),

== Node::as_bool
ret r
ensures
    match yv(*self) { Yaml::Bool(b) => r == Ok::<bool, u64>(b), _ => r == Err::<bool, u64>(self.pos) },

== Node::as_int
ret r
ensures
    match yv(*self) { Yaml::Int(s) => match i64_of(s@) { Some(n) => r == Ok::<i64, u64>(n), None => r == Err::<i64, u64>(self.pos) }, _ => r == Err::<i64, u64>(self.pos) },

== Node::as_float
ret r
ensures
    match yv(*self) { Yaml::Float(s) => match f64_of(s@) { Some(n) => r == Ok::<f64, u64>(n), None => r == Err::<f64, u64>(self.pos) }, _ => r == Err::<f64, u64>(self.pos) },

== Node::as_number
ret r
ensures
    match yv(*self) {
        Yaml::Float(s) => match f64_of(s@) { Some(n) => r == Ok::<f64, u64>(n), None => r == Err::<f64, u64>(self.pos) },
        Yaml::Int(s) => match i64_of(s@) { Some(n) => r == Ok::<f64, u64>(i2f(n)), None => r == Err::<f64, u64>(self.pos) },
        _ => r == Err::<f64, u64>(self.pos),
    },

== Node::as_str
ret r
ensures
    match yv(*self) { Yaml::Str(s) => ok_text(r, s@), Yaml::Null => ok_text(r, Seq::empty()), _ => r is Err && r->Err_0 == self.pos },
proof start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }

== Node::as_value
ret r
ensures
    match yv(*self) {
        Yaml::Str(s) => ok_text(r, s@), Yaml::Int(s) => ok_text(r, s@), Yaml::Float(s) => ok_text(r, s@),
        Yaml::Bool(b) => ok_text(r, if b { "true"@ } else { "false"@ }),
        Yaml::Null => ok_text(r, Seq::empty()),
        _ => r is Err && r->Err_0 == self.pos,
    },
proof start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }

== Node::as_seq
ret r
ensures
    match yv(*self) { Yaml::Seq(s) => r is Ok && r->Ok_0@ =~= s@, _ => r is Err && r->Err_0 == self.pos },

== Node::as_map
ret r
ensures
    match yv(*self) { Yaml::Map(s) => r is Ok && r->Ok_0.v@ == s.v@, _ => r is Err && r->Err_0 == self.pos },

== Node::as_anchor
ret r
ensures
    match yv(*self) {
        Yaml::Alias(s) => if anchors@.dom().contains(s@) { r == Ok::<&Node, u64>(&anchors@[s@]) } else { r == Err::<&Node, u64>(self.pos) },
        _ => r == Ok::<&Node, u64>(self),
    },

== Node::get
ret r
ensures
    match yv(*self) {
        Yaml::Map(m) => match mfind(m.v@, yv(key.vinto()), 0) { Some(i) => r == Ok::<&Node, u64>(&m.v@[i].1), None => r == Err::<&Node, u64>(self.pos) },
        _ => r == Err::<&Node, u64>(self.pos),
    },

== Node::get_default
ret r
requires
    forall|n: &'a Node| #[trigger] call_requires(factory, (n,)),
ensures
    match yv(*self) {
        Yaml::Map(m) => match mfind(m.v@, yv(key.vinto()), 0) { Some(i) => call_ensures(factory, (&m.v@[i].1,), r), None => r == Ok::<Ret, u64>(default) },
        _ => r == Err::<Ret, u64>(self.pos),
    },

== Node::get_ind
ret r
ensures
    match yv(*self) {
        Yaml::Seq(v) => if ind.0 < v@.len() { r == Ok::<&Node, u64>(&v@[ind.0 as int]) } else { r == Err::<&Node, u64>(self.pos) },
        _ => r == Err::<&Node, u64>(self.pos),
    },
