# Conversions of values into nodes.
== <Yaml as From<i8>>::from => from_i8
ret r
ensures
    r == <i8 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<i16>>::from => from_i16
ret r
ensures
    r == <i16 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<i32>>::from => from_i32
ret r
ensures
    r == <i32 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<i64>>::from => from_i64
ret r
ensures
    r == <i64 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<i128>>::from => from_i128
ret r
ensures
    r == <i128 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<u8>>::from => from_u8
ret r
ensures
    r == <u8 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<u16>>::from => from_u16
ret r
ensures
    r == <u16 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<u32>>::from => from_u32
ret r
ensures
    r == <u32 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<u64>>::from => from_u64
ret r
ensures
    r == <u64 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<u128>>::from => from_u128
ret r
ensures
    r == <u128 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<isize>>::from => from_isize
ret r
ensures
    r == <isize as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<usize>>::from => from_usize
ret r
ensures
    r == <usize as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<f32>>::from => from_f32
ret r
ensures
    r == <f32 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<f64>>::from => from_f64
ret r
ensures
    r == <f64 as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<char>>::from => from_char
ret r
ensures
    r == <char as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<&str>>::from => from_str
ret r
ensures
    r == <&Str as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<String>>::from => from_string
ret r
ensures
    r == <Str as VInto<Yaml>>::vinto(s),
proof start
    broadcast use group_of;

== <Yaml as From<bool>>::from => from_bool
ret r
ensures
    r == <bool as VInto<Yaml>>::vinto(b),
proof start
    broadcast use group_of;

== <Yaml as From<Seq<R>>>::from => from_seq
ret r
ensures
    r == <NSeq as VInto<Yaml>>::vinto(a),
proof start
    broadcast use group_of;

== <Yaml as From<Map<R>>>::from => from_map
ret r
ensures
    r == <LMap as VInto<Yaml>>::vinto(m),
proof start
    broadcast use group_of;

== <Yaml as From<()>>::from => from_unit
ret r
ensures
    r == Yaml::Null,

== <Yaml as From<&String>>::from => from_string_ref
ret r
ensures
    r == Yaml::Str(str_of(s@)),
proof start
    broadcast use group_of;

== <Node as From<Y>>::from
sig
    pub fn from<Y: VInto<Yaml>>(yaml: Y) -> (r: Self)
ret r
ensures
    r == node0(yaml.vinto()),
proof start
    broadcast use group_of;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }

== <Yaml as FromIterator<Node<R>>>::from_iter => from_nodes
sig
    pub fn from_nodes(iter: Vec<Node>) -> (r: Yaml)
ret r
ensures
    r == Yaml::Seq(iter),
    <Vec<Node> as VCollect<Yaml>>::collected(iter, r),

== <Yaml as FromIterator<(Node<R>,Node<R>)>>::from_iter => from_pairs
sig
    pub fn from_pairs(iter: Vec<(Node, Node)>) -> (r: Yaml)
ret r
ensures
    r == Yaml::Map(LMap { v: vec_of(mcollect(iter@)) }),
    <Vec<(Node, Node)> as VCollect<Yaml>>::collected(iter, r),
proof start
    broadcast use group_of;

== <Node as FromIterator<Self>>::from_iter => node_from_nodes
sig
    pub fn node_from_nodes(iter: Vec<Node>) -> (r: Node)
ret r
ensures
    r == node0(Yaml::Seq(iter)),
proof start
    broadcast use group_of;
proof end
    assert(vec_of(iter@) == iter && vec_of(yv(end__)->Seq_0@) == yv(end__)->Seq_0);

== <Node as FromIterator<(Self,Self)>>::from_iter => node_from_pairs
sig
    pub fn node_from_pairs(iter: Vec<(Node, Node)>) -> (r: Node)
ret r
ensures
    r == node0(Yaml::Map(LMap { v: vec_of(mcollect(iter@)) })),
proof start
    broadcast use group_of;
