// Helper types of serde.

/// `slice::Iter`: the items which are left.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VRefs<'a, T> { v: std::slice::Iter<'a, T> }
impl<'a, T> View for VRefs<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub trait VRef { type Item; spec fn ritems(&self) -> Seq<Self::Item>;
    fn vs_refs(&self) -> (r: VRefs<'_, Self::Item>) ensures r@ == self.ritems(); }
impl<T> VRef for [T] { type Item = T; open spec fn ritems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vs_refs(&self) -> (r: VRefs<'_, T>) { unimplemented!() } }
impl<T> VRef for Vec<T> { type Item = T; open spec fn ritems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vs_refs(&self) -> (r: VRefs<'_, T>) { unimplemented!() } }
/// `slice::from_ref`
#[verifier::external_body]
pub fn from_ref<T>(t: &T) -> (r: &[T]) ensures r@ == seq![*t] { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: std::vec::IntoIter<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub trait VIntoIter: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
    fn vs_into_iter(self) -> (r: VIter<Self::Item>) ensures r@ == self.items();
}
impl<T> VIntoIter for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vs_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
/// `Default`
pub trait Default: Sized { spec fn dflt() -> Self; fn default() -> (r: Self) ensures r == Self::dflt(); }
/// A function of the user: what it was called with, and what it answered.
pub trait VAct<T, R>: Sized {
    spec fn log(&self) -> Seq<(T, R)>;
    fn vs_call(&mut self, a: (&T,)) -> (r: R) ensures final(self).log() == old(self).log().push((*a.0, r));
}
pub trait VAct0<R>: Sized {
    spec fn log(&self) -> Seq<R>;
    fn vs_call(&mut self, a: ()) -> (r: R) ensures final(self).log() == old(self).log().push(r);
}
/// `Display for f32`
pub uninterp spec fn f32_text(f: f32) -> Seq<char>;
impl VFmt for f32 { open spec fn ftext(&self) -> Seq<char> { f32_text(*self) }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();
/// `Debug for f32`
pub uninterp spec fn f32_debug(f: f32) -> Seq<char>;
pub trait VDbg { spec fn dtext(&self) -> Seq<char>; fn vs_fmt_debug(&self, f: &mut Str) ensures final(f)@ == old(f)@ + self.dtext(); }
impl VDbg for f32 { open spec fn dtext(&self) -> Seq<char> { f32_debug(*self) }
    #[verifier::external_body]
    fn vs_fmt_debug(&self, f: &mut Str) { unimplemented!() } }
/// Text of a natural number.
pub open spec fn nat_text(n: nat) -> Seq<char>
    decreases n
{
    let d = ((48 + n % 10) as char);
    if n < 10 { seq![d] } else { nat_text(n / 10).push(d) }
}
/// `Display for i32`
impl VFmt for i32 { open spec fn ftext(&self) -> Seq<char> { if *self < 0 { seq!['-'] + nat_text((-*self) as nat) } else { nat_text(*self as nat) } }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }
pub struct FmtError;

/// The items.
pub open spec fn listed<T>(l: InlineList<T>) -> Seq<T> { match l { InlineList::List(v) => v@, InlineList::Inline(e) => seq![e] } }
/// The value which is in effect.
pub open spec fn in_effect<T>(o: Optional<T>, d: T) -> Option<T> {
    match o { Optional::Bool(false) => None, Optional::Bool(true) => Some(d), Optional::Some(t) => Some(t) }
}
pub open spec fn called<T, R, A: VAct<T, R>>(a: A, b: A, x: Option<T>, r: R) -> bool {
    match x { Some(t) => b.log() == a.log().push((t, r)), None => b.log() == a.log() }
}
pub open spec fn called0<R, A: VAct0<R>>(a: A, b: A, x: bool, r: R) -> bool { b.log() == (if x { a.log().push(r) } else { a.log() }) }
pub open spec fn stringified(s: Stringify) -> Seq<char> {
    match s {
        Stringify::Bool(true) => seq!['t', 'r', 'u', 'e'],
        Stringify::Bool(false) => seq!['f', 'a', 'l', 's', 'e'],
        Stringify::Int(n) => n.ftext(),
        Stringify::Float(n) => f32_text(n),
        Stringify::Str(t) => t@,
    }
}
