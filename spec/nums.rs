// Numbers, texts and nodes of the library types.

pub struct TryFromIntError;
pub type ParseError = ParseIntError;
/// Text of a natural number.
pub open spec fn digit_char(n: int) -> char { (48 + n) as char }
pub open spec fn nat_text(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit_char(n as int)] } else { nat_text(n / 10).push(digit_char((n % 10) as int)) }
}
/// `Display` of an integer.
pub open spec fn int_text(x: int) -> Seq<char> {
    if x < 0 { seq!['-'] + nat_text((-x) as nat) } else { nat_text(x as nat) }
}
/// `Display` of floats.
pub uninterp spec fn f64_text(f: f64) -> Seq<char>;
pub uninterp spec fn f32_text(f: f32) -> Seq<char>;
/// What the unsigned types read: a minus sign is refused.
pub open spec fn unsigned(s: Seq<char>) -> Option<int> { if s.len() > 0 && s[0] == '-' { None } else { signed(s, 10) } }
/// `str::parse` and `TryFrom<i64>`
pub trait VInt: VParse {
    spec fn of(n: i64) -> Option<Self>;
    fn try_from(n: i64) -> (r: Result<Self, TryFromIntError>)
        ensures match r { Ok(x) => Self::of(n) == Some(x), Err(_) => Self::of(n) is None };
}
/// The value of a node without tag and position.
pub open spec fn node0(y: Yaml) -> Node { Node { pos: 0, tag: str_of(Seq::empty()), yaml: rc_of(y) } }
pub open spec fn in_i8_(n: Option<int>) -> Option<i8> { match n { Some(x) if -128 <= x <= 127 => Some(x as i8), _ => None } }
impl VParse for i8 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<i8> { in_i8_(signed(s, 10)) } }
impl VInt for i8 { open spec fn of(n: i64) -> Option<i8> { in_i8_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<i8, TryFromIntError>) { unimplemented!() } }
impl VToStr for i8 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for i8 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_i16_(n: Option<int>) -> Option<i16> { match n { Some(x) if -32768 <= x <= 32767 => Some(x as i16), _ => None } }
impl VParse for i16 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<i16> { in_i16_(signed(s, 10)) } }
impl VInt for i16 { open spec fn of(n: i64) -> Option<i16> { in_i16_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<i16, TryFromIntError>) { unimplemented!() } }
impl VToStr for i16 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for i16 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_i32_(n: Option<int>) -> Option<i32> { match n { Some(x) if -2147483648 <= x <= 2147483647 => Some(x as i32), _ => None } }
impl VParse for i32 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<i32> { in_i32_(signed(s, 10)) } }
impl VInt for i32 { open spec fn of(n: i64) -> Option<i32> { in_i32_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<i32, TryFromIntError>) { unimplemented!() } }
impl VToStr for i32 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for i32 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_i64_(n: Option<int>) -> Option<i64> { match n { Some(x) if -9223372036854775808 <= x <= 9223372036854775807 => Some(x as i64), _ => None } }
impl VInt for i64 { open spec fn of(n: i64) -> Option<i64> { in_i64_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<i64, TryFromIntError>) { unimplemented!() } }
impl VToStr for i64 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for i64 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_i128_(n: Option<int>) -> Option<i128> { match n { Some(x) if -170141183460469231731687303715884105728 <= x <= 170141183460469231731687303715884105727 => Some(x as i128), _ => None } }
impl VParse for i128 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<i128> { in_i128_(signed(s, 10)) } }
impl VInt for i128 { open spec fn of(n: i64) -> Option<i128> { in_i128_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<i128, TryFromIntError>) { unimplemented!() } }
impl VToStr for i128 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for i128 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_u8_(n: Option<int>) -> Option<u8> { match n { Some(x) if 0 <= x <= 255 => Some(x as u8), _ => None } }
impl VParse for u8 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<u8> { in_u8_(unsigned(s)) } }
impl VInt for u8 { open spec fn of(n: i64) -> Option<u8> { in_u8_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<u8, TryFromIntError>) { unimplemented!() } }
impl VToStr for u8 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for u8 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_u16_(n: Option<int>) -> Option<u16> { match n { Some(x) if 0 <= x <= 65535 => Some(x as u16), _ => None } }
impl VParse for u16 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<u16> { in_u16_(unsigned(s)) } }
impl VInt for u16 { open spec fn of(n: i64) -> Option<u16> { in_u16_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<u16, TryFromIntError>) { unimplemented!() } }
impl VToStr for u16 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for u16 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_u32_(n: Option<int>) -> Option<u32> { match n { Some(x) if 0 <= x <= 4294967295 => Some(x as u32), _ => None } }
impl VParse for u32 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<u32> { in_u32_(unsigned(s)) } }
impl VInt for u32 { open spec fn of(n: i64) -> Option<u32> { in_u32_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<u32, TryFromIntError>) { unimplemented!() } }
impl VToStr for u32 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for u32 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_u64_(n: Option<int>) -> Option<u64> { match n { Some(x) if 0 <= x <= 18446744073709551615 => Some(x as u64), _ => None } }
impl VParse for u64 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<u64> { in_u64_(unsigned(s)) } }
impl VInt for u64 { open spec fn of(n: i64) -> Option<u64> { in_u64_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<u64, TryFromIntError>) { unimplemented!() } }
impl VToStr for u64 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for u64 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_u128_(n: Option<int>) -> Option<u128> { match n { Some(x) if 0 <= x <= 340282366920938463463374607431768211455 => Some(x as u128), _ => None } }
impl VParse for u128 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<u128> { in_u128_(unsigned(s)) } }
impl VInt for u128 { open spec fn of(n: i64) -> Option<u128> { in_u128_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<u128, TryFromIntError>) { unimplemented!() } }
impl VToStr for u128 { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for u128 { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_isize_(n: Option<int>) -> Option<isize> { match n { Some(x) if -9223372036854775808 <= x <= 9223372036854775807 => Some(x as isize), _ => None } }
impl VParse for isize { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<isize> { in_isize_(signed(s, 10)) } }
impl VInt for isize { open spec fn of(n: i64) -> Option<isize> { in_isize_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<isize, TryFromIntError>) { unimplemented!() } }
impl VToStr for isize { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for isize { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub open spec fn in_usize_(n: Option<int>) -> Option<usize> { match n { Some(x) if 0 <= x <= 18446744073709551615 => Some(x as usize), _ => None } }
impl VParse for usize { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<usize> { in_usize_(unsigned(s)) } }
impl VInt for usize { open spec fn of(n: i64) -> Option<usize> { in_usize_(Some(n as int)) }
    #[verifier::external_body]
    fn try_from(n: i64) -> (r: Result<usize, TryFromIntError>) { unimplemented!() } }
impl VToStr for usize { open spec fn vtext(self) -> Seq<char> { int_text(self as int) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for usize { open spec fn ftext(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
impl VToStr for f32 { open spec fn vtext(self) -> Seq<char> { f32_text(self) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for f32 { open spec fn ftext(&self) -> Seq<char> { f32_text(*self) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
impl VToStr for f64 { open spec fn vtext(self) -> Seq<char> { f64_text(self) }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VFmt for f64 { open spec fn ftext(&self) -> Seq<char> { f64_text(*self) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
impl VToStr for char { open spec fn vtext(self) -> Seq<char> { seq![self] }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() } }
impl VInto<Yaml> for i8 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_i8(self) } }
impl VInto<Node> for i8 { open spec fn vinto(self) -> Node { node0(<i8 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for i16 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_i16(self) } }
impl VInto<Node> for i16 { open spec fn vinto(self) -> Node { node0(<i16 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for i32 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_i32(self) } }
impl VInto<Node> for i32 { open spec fn vinto(self) -> Node { node0(<i32 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for i64 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_i64(self) } }
impl VInto<Node> for i64 { open spec fn vinto(self) -> Node { node0(<i64 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for i128 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_i128(self) } }
impl VInto<Node> for i128 { open spec fn vinto(self) -> Node { node0(<i128 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for u8 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_u8(self) } }
impl VInto<Node> for u8 { open spec fn vinto(self) -> Node { node0(<u8 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for u16 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_u16(self) } }
impl VInto<Node> for u16 { open spec fn vinto(self) -> Node { node0(<u16 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for u32 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_u32(self) } }
impl VInto<Node> for u32 { open spec fn vinto(self) -> Node { node0(<u32 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for u64 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_u64(self) } }
impl VInto<Node> for u64 { open spec fn vinto(self) -> Node { node0(<u64 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for u128 { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_u128(self) } }
impl VInto<Node> for u128 { open spec fn vinto(self) -> Node { node0(<u128 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for isize { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_isize(self) } }
impl VInto<Node> for isize { open spec fn vinto(self) -> Node { node0(<isize as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for usize { open spec fn vinto(self) -> Yaml { Yaml::Int(str_of(int_text(self as int))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_usize(self) } }
impl VInto<Node> for usize { open spec fn vinto(self) -> Node { node0(<usize as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for f32 { open spec fn vinto(self) -> Yaml { Yaml::Float(str_of(f32_text(self))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_f32(self) } }
impl VInto<Node> for f32 { open spec fn vinto(self) -> Node { node0(<f32 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for f64 { open spec fn vinto(self) -> Yaml { Yaml::Float(str_of(f64_text(self))) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_f64(self) } }
impl VInto<Node> for f64 { open spec fn vinto(self) -> Node { node0(<f64 as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for char { open spec fn vinto(self) -> Yaml { Yaml::Str(str_of(seq![self])) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_char(self) } }
impl VInto<Node> for char { open spec fn vinto(self) -> Node { node0(<char as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for &Str { open spec fn vinto(self) -> Yaml { Yaml::Str(str_of(self@)) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_str(self) } }
impl VInto<Node> for &Str { open spec fn vinto(self) -> Node { node0(<&Str as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for Str { open spec fn vinto(self) -> Yaml { Yaml::Str(str_of(self@)) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_string(self) } }
impl VInto<Node> for Str { open spec fn vinto(self) -> Node { node0(<Str as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for bool { open spec fn vinto(self) -> Yaml { Yaml::Bool(self) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_bool(self) } }
impl VInto<Node> for bool { open spec fn vinto(self) -> Node { node0(<bool as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for () { open spec fn vinto(self) -> Yaml { Yaml::Null }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_unit(self) } }
impl VInto<Node> for () { open spec fn vinto(self) -> Node { node0(<() as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for NSeq { open spec fn vinto(self) -> Yaml { Yaml::Seq(self) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_seq(self) } }
impl VInto<Node> for NSeq { open spec fn vinto(self) -> Node { node0(<NSeq as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Yaml> for LMap { open spec fn vinto(self) -> Yaml { Yaml::Map(self) }
    fn vs_into(self) -> (r: Yaml) { Yaml::from_map(self) } }
impl VInto<Node> for LMap { open spec fn vinto(self) -> Node { node0(<LMap as VInto<Yaml>>::vinto(self)) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }
impl VInto<Node> for Yaml { open spec fn vinto(self) -> Node { node0(self) }
    fn vs_into(self) -> (r: Node) { Node::from(self) } }

impl VCollect<Vec<Node>> for Vec<Node> {
    open spec fn collected(self, r: Vec<Node>) -> bool { r == self }
    fn vs_collect(self) -> (r: Vec<Node>) { self }
}
impl VCollect<LMap> for Vec<(Node, Node)> {
    open spec fn collected(self, r: LMap) -> bool { r.v@ == mcollect(self@) }
    #[verifier::external_body]
    fn vs_collect(self) -> (r: LMap) { unimplemented!() }
}
/// `Map::into_iter().collect()`: its entries, one by one.
impl VCollect<Node> for LMap {
    open spec fn collected(self, r: Node) -> bool { r == node0(Yaml::Map(LMap { v: vec_of(mcollect(self.v@)) })) }
    fn vs_collect(self) -> (r: Node) { Node::node_from_pairs(self.v) }
}
impl VCollect<Node> for Vec<Node> {
    open spec fn collected(self, r: Node) -> bool { r == node0(Yaml::Seq(self)) }
    fn vs_collect(self) -> (r: Node) { Node::node_from_nodes(self) }
}
impl VCollect<Node> for Vec<(Node, Node)> {
    open spec fn collected(self, r: Node) -> bool { r == node0(Yaml::Map(LMap { v: vec_of(mcollect(self@)) })) }
    fn vs_collect(self) -> (r: Node) { Node::node_from_pairs(self) }
}
