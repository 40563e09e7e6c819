// Nodes: library types and their meaning.

pub type NSeq = Vec<Node>;
/// `ritelinked::LinkedHashMap`: its entries in their order.
pub struct LMap { pub v: Vec<(Node, Node)> }
pub struct ParseIntError;
pub struct ParseFloatError;

pub trait VInto<T>: Sized {
    spec fn vinto(self) -> T;
    fn vs_into(self) -> (r: T) ensures r == self.vinto();
}
impl VInto<Yaml> for Yaml {
    open spec fn vinto(self) -> Yaml { self }
    fn vs_into(self) -> (r: Yaml) { self }
}
impl VInto<Node> for Node {
    open spec fn vinto(self) -> Node { self }
    fn vs_into(self) -> (r: Node) { self }
}
pub trait VToStr: Sized {
    spec fn vtext(self) -> Seq<char>;
    fn vs_to_string(&self) -> (r: Str) ensures r@ == self.vtext();
}
impl VToStr for Str {
    open spec fn vtext(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() }
}
impl VToStr for &Str {
    open spec fn vtext(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vs_to_string(&self) -> (r: Str) { unimplemented!() }
}
/// `Repr::new_rc`
pub fn new_rc(y: Yaml) -> (r: Rc<Yaml>)
    ensures *r == y
{ Rc::new(y) }

// ---- numbers

/// `replace`, for a pattern which is not empty.
pub open spec fn replaced(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || p.len() == 0 { s }
    else if p.is_prefix_of(s) { q + replaced(s.skip(p.len() as int), p, q) }
    else { seq![s[0]] + replaced(s.skip(1), p, q) }
}
/// Value of a digit.
pub open spec fn dig(c: char, radix: int) -> Option<int> {
    let n = c as u32 as int;
    let v = if 48 <= n <= 57 { n - 48 } else if 97 <= n <= 122 { n - 87 } else if 65 <= n <= 90 { n - 55 } else { 99 };
    if v < radix { Some(v) } else { None }
}
/// Value of a row of digits.
pub open spec fn mag(s: Seq<char>, radix: int) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s.len() == 1 { dig(s[0], radix) }
    else { match (mag(s.drop_last(), radix), dig(s.last(), radix)) { (Some(a), Some(b)) => Some(a * radix + b), _ => None } }
}
/// Value of an optional sign and digits.
pub open spec fn signed(s: Seq<char>, radix: int) -> Option<int> {
    if s.len() > 0 && s[0] == '-' { match mag(s.skip(1), radix) { Some(n) => Some(-n), None => None } }
    else if s.len() > 0 && s[0] == '+' { mag(s.skip(1), radix) }
    else { mag(s, radix) }
}
pub open spec fn in_i64(n: Option<int>) -> Option<i64> {
    match n { Some(x) if -0x8000_0000_0000_0000 <= x <= 0x7fff_ffff_ffff_ffff => Some(x as i64), _ => None }
}
/// `i64::from_str_radix`
#[verifier::external_body]
pub fn vs_i64_radix(s: &Str, radix: u32) -> (r: Result<i64, ParseIntError>)
    requires 2 <= radix <= 36
    ensures match r { Ok(n) => in_i64(signed(s@, radix as int)) == Some(n), Err(_) => in_i64(signed(s@, radix as int)) is None }
{ unimplemented!() }
/// `u64::from_str_radix`: no minus.
#[verifier::external_body]
pub fn vs_u64_radix(s: &Str, radix: u32) -> (r: Result<u64, ParseIntError>)
    requires 2 <= radix <= 36
    ensures match r {
        Ok(n) => !(s@.len() > 0 && s@[0] == '-') && signed(s@, radix as int) == Some(n as int),
        Err(_) => s@.len() > 0 && s@[0] == '-' || match signed(s@, radix as int) { Some(n) => n > u64::MAX, None => true },
    }
{ unimplemented!() }
/// `str::parse`
pub trait VParse: Sized {
    type Err;
    spec fn parsed(s: Seq<char>) -> Option<Self>;
}
impl VParse for i64 { type Err = ParseIntError; open spec fn parsed(s: Seq<char>) -> Option<i64> { in_i64(signed(s, 10)) } }
/// `f64::from_str`
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
impl VParse for f64 { type Err = ParseFloatError; open spec fn parsed(s: Seq<char>) -> Option<f64> { f64_of(s) } }
impl Str {
    #[verifier::external_body]
    pub fn parse<T: VParse>(&self) -> (r: Result<T, T::Err>)
        ensures match r { Ok(n) => T::parsed(self@) == Some(n), Err(_) => T::parsed(self@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, p: &Str, q: &Str) -> (r: Str) ensures p@.len() > 0 ==> r@ == replaced(self@, p@, q@) { unimplemented!() }
}
/// What `to_i64` reads.
pub open spec fn i64_of(s: Seq<char>) -> Option<i64> {
    if contains(s, seq!['0', 'x']) { in_i64(signed(replaced(s, seq!['0', 'x'], Seq::empty()), 16)) }
    else if contains(s, seq!['0', 'o']) { in_i64(signed(replaced(s, seq!['0', 'o'], Seq::empty()), 8)) }
    else { in_i64(signed(s, 10)) }
}

pub uninterp spec fn f_nan(f: f64) -> bool;
pub uninterp spec fn f_zero(f: f64) -> bool;
pub uninterp spec fn f_bits(f: f64) -> u64;
/// Bits of `f64::NAN`.
pub uninterp spec fn nan_bits() -> u64;
/// `as f64`
pub uninterp spec fn i2f(n: i64) -> f64;
#[verifier::external_body]
pub fn vs_i2f(n: i64) -> (r: f64) ensures r == i2f(n) { unimplemented!() }
#[verifier::external_body]
pub fn vs_nan() -> (r: f64) ensures f_nan(r), f_bits(r) == nan_bits() { unimplemented!() }
/// Comparison with the literal zero.
#[verifier::external_body]
pub fn vs_f64_eq(a: f64, b: f64) -> (r: bool) ensures f_zero(b) ==> r == f_zero(a) && (r ==> !f_nan(a)) { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn axiom_zero() ensures #[trigger] f_zero(0.0f64) {}
pub assume_specification[ f64::is_nan ](f: f64) -> (r: bool) ensures r == f_nan(f);
pub assume_specification[ f64::to_bits ](f: f64) -> (r: u64) ensures r == f_bits(f);
/// The key of a float: one for all NaN, one for both zeros.
pub open spec fn fkey(f: f64) -> u64 { if f_nan(f) { nan_bits() } else if f_zero(f) { 0 } else { f_bits(f) } }

// ---- equality

/// The value of a node.
pub open spec fn yv(n: Node) -> Yaml { *n.yaml }

pub open spec fn same_int(a: Seq<char>, b: Seq<char>) -> bool {
    match (i64_of(a), i64_of(b)) { (Some(x), Some(y)) => x == y, (None, None) => a == b, _ => false }
}
pub open spec fn same_float(a: Seq<char>, b: Seq<char>) -> bool {
    match (f64_of(a), f64_of(b)) { (Some(x), Some(y)) => fkey(x) == fkey(y), (None, None) => a == b, _ => false }
}
pub open spec fn yeq(a: Yaml, b: Yaml) -> bool
    decreases a
{
    match (a, b) {
        (Yaml::Null, Yaml::Null) => true,
        (Yaml::Bool(x), Yaml::Bool(y)) => x == y,
        (Yaml::Int(x), Yaml::Int(y)) => same_int(x@, y@),
        (Yaml::Float(x), Yaml::Float(y)) => same_float(x@, y@),
        (Yaml::Str(x), Yaml::Str(y)) => x@ == y@,
        (Yaml::Seq(x), Yaml::Seq(y)) => x@.len() == y@.len() && forall|i: int| #![trigger x@[i]] 0 <= i < x@.len() ==> neq(x@[i], y@[i]),
        (Yaml::Map(x), Yaml::Map(y)) => x.v@.len() == y.v@.len()
            && forall|i: int| #![trigger x.v@[i]] 0 <= i < x.v@.len() ==> neq(x.v@[i].0, y.v@[i].0) && neq(x.v@[i].1, y.v@[i].1),
        (Yaml::Alias(x), Yaml::Alias(y)) => x@ == y@,
        _ => false,
    }
}
pub open spec fn neq(a: Node, b: Node) -> bool
    decreases a
{ yeq(*a.yaml, *b.yaml) }

impl vstd::std_specs::cmp::PartialEqSpecImpl for Node {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Node) -> bool { neq(*self, *o) }
}
/// The comparison of the elements of a collection (the same contract is proved for `Node::eq`).
impl PartialEq for Node {
    #[verifier::external_body]
    fn eq(&self, o: &Node) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Yaml {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Yaml) -> bool { yeq(*self, *o) }
}
impl PartialEq for Yaml {
    #[verifier::external_body]
    fn eq(&self, o: &Yaml) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LMap {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LMap) -> bool { yeq(Yaml::Map(*self), Yaml::Map(*o)) }
}
/// `LinkedHashMap::eq`: the same number of entries, equal one by one.
impl PartialEq for LMap {
    #[verifier::external_body]
    fn eq(&self, o: &LMap) -> (r: bool) { unimplemented!() }
}
impl Clone for Node {
    #[verifier::external_body]
    fn clone(&self) -> (r: Node) ensures r == *self { unimplemented!() }
}
impl Clone for LMap {
    #[verifier::external_body]
    fn clone(&self) -> (r: LMap) ensures r == *self { unimplemented!() }
}

/// `Rc` and `Arc` compare what they hold.
pub assume_specification<T: PartialEq + ?Sized, A: core::alloc::Allocator>[ <Rc<T, A> as PartialEq<Rc<T, A>>>::eq ](a: &Rc<T, A>, b: &Rc<T, A>) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec<T>>::obeys_eq_spec() ==> r == <T as vstd::std_specs::cmp::PartialEqSpec<T>>::eq_spec(&**a, &**b);

// ---- hash

/// What is written to a hasher.
pub enum HEv { U8(u8), Bool(bool), I64(i64), U64(u64), Text(Seq<char>), Len(nat) }
pub trait VHasher: Sized {
    spec fn hs(&self) -> Seq<HEv>;
    fn write_u8(&mut self, n: u8) ensures final(self).hs() == old(self).hs().push(HEv::U8(n));
}
pub trait VHash {
    spec fn hv(&self) -> Seq<HEv>;
    fn hash<H: VHasher>(&self, state: &mut H) ensures final(state).hs() == old(state).hs() + self.hv();
}
impl VHash for bool { open spec fn hv(&self) -> Seq<HEv> { seq![HEv::Bool(*self)] }
    #[verifier::external_body]
    fn hash<H: VHasher>(&self, state: &mut H) { unimplemented!() } }
impl VHash for i64 { open spec fn hv(&self) -> Seq<HEv> { seq![HEv::I64(*self)] }
    #[verifier::external_body]
    fn hash<H: VHasher>(&self, state: &mut H) { unimplemented!() } }
impl VHash for u64 { open spec fn hv(&self) -> Seq<HEv> { seq![HEv::U64(*self)] }
    #[verifier::external_body]
    fn hash<H: VHasher>(&self, state: &mut H) { unimplemented!() } }
impl VHash for Str { open spec fn hv(&self) -> Seq<HEv> { seq![HEv::Text(self@)] }
    #[verifier::external_body]
    fn hash<H: VHasher>(&self, state: &mut H) { unimplemented!() } }
/// The length, then the elements.
impl VHash for Vec<Node> { open spec fn hv(&self) -> Seq<HEv> { seq![HEv::Len(self@.len())] + shash(*self, self@.len()) }
    #[verifier::external_body]
    fn hash<H: VHasher>(&self, state: &mut H) { unimplemented!() } }
/// The entries in their order.
impl VHash for LMap { open spec fn hv(&self) -> Seq<HEv> { mhash(*self, self.v@.len()) }
    #[verifier::external_body]
    fn hash<H: VHasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn yhash(y: Yaml) -> Seq<HEv>
    decreases y, 0nat
{
    match y {
        Yaml::Null => seq![HEv::U8(1)],
        Yaml::Bool(b) => seq![HEv::U8(2), HEv::Bool(b)],
        Yaml::Int(s) => seq![HEv::U8(3), match i64_of(s@) { Some(n) => HEv::I64(n), None => HEv::Text(s@) }],
        Yaml::Float(s) => seq![HEv::U8(4), match f64_of(s@) { Some(n) => HEv::U64(fkey(n)), None => HEv::Text(s@) }],
        Yaml::Str(s) => seq![HEv::U8(5), HEv::Text(s@)],
        Yaml::Seq(s) => seq![HEv::U8(6), HEv::Len(s@.len())] + shash(s, s@.len()),
        Yaml::Map(m) => seq![HEv::U8(7)] + mhash(m, m.v@.len()),
        Yaml::Alias(s) => seq![HEv::U8(8), HEv::Text(s@)],
    }
}
pub open spec fn shash(s: Vec<Node>, n: nat) -> Seq<HEv>
    decreases s, n
{
    if n == 0 || n > s@.len() { Seq::empty() } else { shash(s, (n - 1) as nat) + yhash(*s@[n - 1].yaml) }
}
pub open spec fn mhash(s: LMap, n: nat) -> Seq<HEv>
    decreases s, n
{
    if n == 0 || n > s.v@.len() { Seq::empty() } else { mhash(s, (n - 1) as nat) + yhash(*s.v@[n - 1].0.yaml) + yhash(*s.v@[n - 1].1.yaml) }
}

// ---- maps

/// `BTreeMap<String, Node>`
#[verifier::external_body]
pub struct AMap { m: std::collections::BTreeMap<std::string::String, u8> }
impl View for AMap { type V = Map<Seq<char>, Node>; uninterp spec fn view(&self) -> Map<Seq<char>, Node>; }
impl AMap {
    #[verifier::external_body]
    pub fn new() -> (r: AMap) ensures r@ == Map::<Seq<char>, Node>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Str, v: Node) -> (r: Option<Node>)
        ensures final(self)@ == old(self)@.insert(k@, v), r is Some == old(self)@.dom().contains(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Str) -> (r: Option<&Node>)
        ensures r is Some == self@.dom().contains(k@), r is Some ==> *r->Some_0 == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Str) -> (r: Option<Node>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.dom().contains(k@), r is Some ==> r->Some_0 == old(self)@[k@]
    { unimplemented!() }
}
/// Index of the first entry from `i` on whose key equals `k`.
pub open spec fn mfind(m: Seq<(Node, Node)>, k: Yaml, i: int) -> Option<int>
    decreases m.len() - i
{
    if i < 0 || i >= m.len() { None } else if yeq(yv(m[i].0), k) { Some(i) } else { mfind(m, k, i + 1) }
}
/// A later pair takes the place of one with an equal key, at the end.
pub open spec fn minsert(m: Seq<(Node, Node)>, k: Node, v: Node) -> Seq<(Node, Node)> {
    match mfind(m, yv(k), 0) { Some(i) => m.remove(i).push((m[i].0, v)), None => m.push((k, v)) }
}
pub open spec fn mcollect(m: Seq<(Node, Node)>) -> Seq<(Node, Node)>
    decreases m.len()
{
    if m.len() == 0 { m } else { minsert(mcollect(m.drop_last()), m.last().0, m.last().1) }
}
/// The entries in their order.
impl VSeq for LMap { type Item = (Node, Node); open spec fn vseq(&self) -> Seq<(Node, Node)> { self.v@ }
    #[verifier::external_body]
    fn vs_seq(&self) -> (r: &[(Node, Node)]) { unimplemented!() } }
impl LMap {
    #[verifier::external_body]
    pub fn new() -> (r: LMap) ensures r.v@ == Seq::<(Node, Node)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: LMap) ensures r.v@ == Seq::<(Node, Node)>::empty() { unimplemented!() }
    /// Found by hash and equality: both are the value of the key (C04).
    #[verifier::external_body]
    pub fn get(&self, k: &Node) -> (r: Option<&Node>)
        ensures match mfind(self.v@, yv(*k), 0) { Some(i) => r == Some(&self.v@[i].1), None => r is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Node) -> (r: bool) ensures r == (mfind(self.v@, yv(*k), 0) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Node) -> (r: Option<Node>)
        ensures match mfind(old(self).v@, yv(*k), 0) {
            Some(i) => r == Some(old(self).v@[i].1) && final(self).v@ == old(self).v@.remove(i),
            None => r is None && final(self).v@ == old(self).v@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Node, v: Node) -> (r: Option<Node>)
        ensures final(self).v@ == minsert(old(self).v@, k, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { unimplemented!() }
}
/// `core::ops::Index` of a vector and the like are native.
pub open spec fn ok_text(r: Result<&Str, u64>, s: Seq<char>) -> bool { r is Ok && r->Ok_0@ == s }
/// The tag which a node reports.
pub open spec fn node_tag(n: Node) -> Seq<char> {
    if n.tag@.len() > 0 { n.tag@ } else {
        match yv(n) {
            Yaml::Null => "tag:yaml.org,2002:null"@,
            Yaml::Bool(_) => "tag:yaml.org,2002:bool"@,
            Yaml::Int(_) => "tag:yaml.org,2002:int"@,
            Yaml::Float(_) => "tag:yaml.org,2002:float"@,
            Yaml::Str(_) => "tag:yaml.org,2002:str"@,
            Yaml::Seq(_) => "tag:yaml.org,2002:seq"@,
            Yaml::Map(_) => "tag:yaml.org,2002:map"@,
            Yaml::Alias(_) => Seq::empty(),
        }
    }
}
/// `into_iter().collect()`
pub trait VCollect<T>: Sized {
    spec fn collected(self, r: T) -> bool;
    fn vs_collect(self) -> (r: T) ensures self.collected(r);
}
impl VCollect<Yaml> for Vec<Node> {
    open spec fn collected(self, r: Yaml) -> bool { r is Seq && r->Seq_0@ == self@ }
    #[verifier::external_body]
    fn vs_collect(self) -> (r: Yaml) { unimplemented!() }
}
impl VCollect<Yaml> for Vec<(Node, Node)> {
    open spec fn collected(self, r: Yaml) -> bool { r is Map && r->Map_0.v@ == mcollect(self@) }
    #[verifier::external_body]
    fn vs_collect(self) -> (r: Yaml) { unimplemented!() }
}
