// Contracted stubs of the standard library (trusted).
use core::cmp::Ordering;
global size_of usize == 8;

/// Stands for `String` and `str`: a text is its sequence of characters.
#[verifier::external_body]
pub struct Str { s: std::string::String }
impl View for Str { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

/// A string literal.
#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: &'static Str)
    ensures r@ == s@
{ unimplemented!() }

impl vstd::std_specs::cmp::PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Str) -> bool { self@ == o@ }
}
impl PartialEq for Str {
    #[verifier::external_body]
    fn eq(&self, o: &Str) -> (r: bool) { unimplemented!() }
}
impl Clone for Str {
    #[verifier::external_body]
    fn clone(&self) -> (r: Str) ensures r@ == self@, r == *self { unimplemented!() }
}

/// Number of bytes of a character in UTF-8.
pub open spec fn clen(c: char) -> nat {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}
/// Number of bytes of a text in UTF-8.
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}

/// `char::is_whitespace`
pub open spec fn ws_char(c: char) -> bool {
    let n = c as u32;
    n == 9 || n == 10 || n == 11 || n == 12 || n == 13 || n == 32 || n == 0x85 || n == 0xA0 || n == 0x1680
    || (0x2000 <= n && n <= 0x200a) || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && ws_char(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && ws_char(s[0]) { trim_start(s.drop_first()) } else { s }
}

/// Patterns of `starts_with`, `ends_with` and the like.
pub trait VPat: Sized {
    spec fn pre(self, s: Seq<char>) -> bool;
    spec fn suf(self, s: Seq<char>) -> bool;
    /// Length of the pattern when it matches.
    spec fn plen(self) -> nat;
}
impl VPat for char {
    open spec fn pre(self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == self }
    open spec fn suf(self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == self }
    open spec fn plen(self) -> nat { 1 }
}
impl VPat for &Str {
    open spec fn pre(self, s: Seq<char>) -> bool { self@.is_prefix_of(s) }
    open spec fn suf(self, s: Seq<char>) -> bool { self@.is_suffix_of(s) }
    open spec fn plen(self) -> nat { self@.len() }
}
pub struct IsWs;
impl VPat for IsWs {
    open spec fn pre(self, s: Seq<char>) -> bool { s.len() > 0 && ws_char(s[0]) }
    open spec fn suf(self, s: Seq<char>) -> bool { s.len() > 0 && ws_char(s.last()) }
    open spec fn plen(self) -> nat { 1 }
}
impl<const N: usize> VPat for [char; N] {
    open spec fn pre(self, s: Seq<char>) -> bool { s.len() > 0 && self@.contains(s[0]) }
    open spec fn suf(self, s: Seq<char>) -> bool { s.len() > 0 && self@.contains(s.last()) }
    open spec fn plen(self) -> nat { 1 }
}
impl VPat for &[char] {
    open spec fn pre(self, s: Seq<char>) -> bool { s.len() > 0 && self@.contains(s[0]) }
    open spec fn suf(self, s: Seq<char>) -> bool { s.len() > 0 && self@.contains(s.last()) }
    open spec fn plen(self) -> nat { 1 }
}
/// `contains` of texts and rows.
pub trait VHas<P> { spec fn has(&self, p: P) -> bool; fn vs_contains(&self, p: P) -> (r: bool) ensures r == self.has(p); }
pub open spec fn contains(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p
}
impl<'b> VHas<&'b Str> for Str {
    open spec fn has(&self, p: &'b Str) -> bool { contains(self@, p@) }
    #[verifier::external_body]
    fn vs_contains(&self, p: &'b Str) -> (r: bool) { unimplemented!() }
}
impl VHas<char> for Str {
    open spec fn has(&self, p: char) -> bool { self@.contains(p) }
    #[verifier::external_body]
    fn vs_contains(&self, p: char) -> (r: bool) { unimplemented!() }
}
impl<'b> VHas<&'b u8> for [u8] {
    open spec fn has(&self, p: &'b u8) -> bool { self@.contains(*p) }
    #[verifier::external_body]
    fn vs_contains(&self, p: &'b u8) -> (r: bool) { unimplemented!() }
}
/// The same thing `n` times.
pub open spec fn rep_of<T>(x: T, n: int) -> Seq<T> { Seq::new(if n > 0 { n as nat } else { 0 }, |k: int| x) }
/// `for _ in lo..hi { v.push(x) }` and `push_str` of a repeated character.
pub trait VPushN: Sized {
    type E: Copy;
    spec fn row(&self) -> Seq<Self::E>;
    fn vs_push_n(&mut self, lo: usize, hi: usize, x: Self::E)
        ensures final(self).row() == old(self).row() + rep_of(x, hi - lo);
}
impl VPushN for Str {
    type E = char;
    open spec fn row(&self) -> Seq<char> { self@ }
    fn vs_push_n(&mut self, lo: usize, hi: usize, x: char) {
        let mut i = lo;
        assert(self@ =~= old(self)@ + rep_of(x, 0));
        while i < hi
            invariant
                lo <= i <= hi || i == lo && hi < lo,
                self@ == old(self)@ + rep_of(x, i - lo),
            decreases hi - i
        {
            self.push(x);
            i += 1;
            assert(self@ =~= old(self)@ + rep_of(x, i - lo));
        }
        assert(rep_of(x, hi - lo) =~= rep_of(x, i - lo));
    }
}
impl<T: Copy> VPushN for Vec<T> {
    type E = T;
    open spec fn row(&self) -> Seq<T> { self@ }
    fn vs_push_n(&mut self, lo: usize, hi: usize, x: T) {
        let mut i = lo;
        assert(self@ =~= old(self)@ + rep_of(x, 0));
        while i < hi
            invariant
                lo <= i <= hi || i == lo && hi < lo,
                self@ == old(self)@ + rep_of(x, i - lo),
            decreases hi - i
        {
            self.push(x);
            i += 1;
            assert(self@ =~= old(self)@ + rep_of(x, i - lo));
        }
        assert(rep_of(x, hi - lo) =~= rep_of(x, i - lo));
    }
}
/// `trim_start_matches`
pub open spec fn trim_pat_start<P: VPat>(p: P, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.plen() > 0 && p.plen() <= s.len() && p.pre(s) { trim_pat_start(p, s.skip(p.plen() as int)) } else { s }
}
/// `trim_end_matches`
pub open spec fn trim_pat<P: VPat>(p: P, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.plen() > 0 && p.plen() <= s.len() && p.suf(s) { trim_pat(p, s.take(s.len() - p.plen())) } else { s }
}

impl Str {
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &Str) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == blen(self@), blen(self@) <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    /// Panics inside of a character.
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        requires n >= blen(old(self)@) || exists|k: int| 0 <= k <= old(self)@.len() && blen(#[trigger] old(self)@.take(k)) == n
        ensures
            n >= blen(old(self)@) ==> final(self)@ == old(self)@,
            forall|k: int| 0 <= k <= old(self)@.len() && blen(#[trigger] old(self)@.take(k)) == n ==> final(self)@ == old(self)@.take(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vs_to_string(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_str(&self, o: &Str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_end(&self) -> (r: &Str) ensures r@ == trim_end(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_start(&self) -> (r: &Str) ensures r@ == trim_start(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &Str) ensures r@ == trim_start(trim_end(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pre(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.suf(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_end_matches<P: VPat>(&self, p: P) -> (r: &Str) ensures r@ == trim_pat(p, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_start_matches<P: VPat>(&self, p: P) -> (r: &Str) ensures r@ == trim_pat_start(p, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&Str>)
        ensures match r { Some(t) => p.pre(self@) && t@ == self@.skip(p.plen() as int), None => !p.pre(self@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&Str>)
        ensures match r { Some(t) => p.suf(self@) && t@ == self@.take(self@.len() - p.plen()), None => !p.suf(self@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vs_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8_enc(self@), r@.len() == blen(self@), r@.len() <= isize::MAX { unimplemented!() }
}

/// `Display`
pub trait VFmt {
    spec fn ftext(&self) -> Seq<char>;
    fn vs_fmt(&self, f: &mut Str) ensures final(f)@ == old(f)@ + self.ftext();
}
impl VFmt for Str { open spec fn ftext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }

#[verifier::external_body]
pub fn vs_concat(a: Str, b: &Str) -> (r: Str) ensures r@ == a@ + b@ { unimplemented!() }

/// UTF-8 encoding of a text.
pub uninterp spec fn utf8_enc(s: Seq<char>) -> Seq<u8>;
/// `String::from_utf8_lossy`
pub uninterp spec fn utf8(b: Seq<u8>) -> Seq<char>;

/// An ASCII byte stands for itself and is never a part of another character.
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_empty()
    ensures #[trigger] utf8(Seq::<u8>::empty()) == Seq::<char>::empty(), #[trigger] utf8_enc(Seq::<char>::empty()) == Seq::<u8>::empty()
{}
#[verifier::external_body]
pub proof fn axiom_utf8_ascii(b: u8)
    requires b < 0x80
    ensures utf8(seq![b]) == seq![b as char]
{}
/// A text can be cut before or after an ASCII byte.
#[verifier::external_body]
pub proof fn axiom_utf8_cut(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 0 || b.len() == 0 || a.last() < 0x80 || b[0] < 0x80
    ensures utf8(a + b) == utf8(a) + utf8(b)
{}
/// Something is always read out of something.
#[verifier::external_body]
pub broadcast proof fn axiom_utf8_some(a: Seq<u8>)
    ensures (#[trigger] utf8(a)).len() == 0 <==> a.len() == 0
{}
pub proof fn axiom_utf8_nonempty(a: Seq<u8>)
    ensures utf8(a).len() == 0 <==> a.len() == 0
{ broadcast use axiom_utf8_some; }

#[verifier::external_body]
pub fn vs_utf8_lossy(b: &[u8]) -> (r: Str) ensures r@ == utf8(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vs_char_from(b: u8) -> (r: char) ensures r == b as char { unimplemented!() }
#[verifier::external_body]
pub fn vs_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vs_starts_with(a: &[u8], b: &[u8]) -> (r: bool) ensures r == b@.is_prefix_of(a@) { unimplemented!() }
#[verifier::external_body]
pub fn vs_ends_with(a: &[u8], b: &[u8]) -> (r: bool) ensures r == b@.is_suffix_of(a@) { unimplemented!() }
#[verifier::external_body]
pub fn vs_strip_prefix<'a, const N: usize>(a: &'a [u8], b: &[u8; N]) -> (r: Option<&'a [u8]>)
    ensures match r { Some(t) => b@.is_prefix_of(a@) && t@ == a@.skip(N as int), None => !b@.is_prefix_of(a@) } { unimplemented!() }
#[verifier::external_body]
pub fn vs_strip_suffix<'a, const N: usize>(a: &'a [u8], b: &[u8; N]) -> (r: Option<&'a [u8]>)
    ensures match r { Some(t) => b@.is_suffix_of(a@) && t@ == a@.take(a@.len() - N), None => !b@.is_suffix_of(a@) } { unimplemented!() }
#[verifier::external_body]
pub fn vs_to_vec(a: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }
/// `v.drain(n..)`: panics when out of range.
#[verifier::external_body]
pub fn vs_drain_from<T>(v: &mut Vec<T>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(n as int)
{ unimplemented!() }
pub open spec fn sum(s: Seq<usize>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat }
}
/// `v.iter().sum()`: overflow is an obligation.
#[verifier::external_body]
pub fn vs_sum(v: &[usize]) -> (r: usize)
    requires sum(v@) <= usize::MAX
    ensures r == sum(v@)
{ unimplemented!() }
/// A panic has to be unreachable.
#[verifier::external_body]
pub fn vs_panic() -> !
    requires false
{ unimplemented!() }

pub trait VSeq { type Item; spec fn vseq(&self) -> Seq<Self::Item>;
    fn vs_seq(&self) -> (r: &[Self::Item]) ensures r@ == self.vseq(); }
impl<T> VSeq for [T] { type Item = T; open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vs_seq(&self) -> (r: &[T]) { unimplemented!() } }
impl<T> VSeq for Vec<T> { type Item = T; open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vs_seq(&self) -> (r: &[T]) { unimplemented!() } }

/// `Result::unwrap_or_default`, for the types in use.
pub trait VDefault: Sized { spec fn is_def(self) -> bool; }
impl VDefault for () { open spec fn is_def(self) -> bool { true } }
impl VDefault for usize { open spec fn is_def(self) -> bool { self == 0 } }
impl VDefault for bool { open spec fn is_def(self) -> bool { !self } }
impl VDefault for Str { open spec fn is_def(self) -> bool { self@ == Seq::<char>::empty() } }
pub trait VWrap: Sized { type T; spec fn unwrapped(self, v: Self::T) -> bool; }
impl<T: VDefault, E> VWrap for Result<T, E> { type T = T; open spec fn unwrapped(self, v: T) -> bool { match self { Ok(x) => v == x, Err(_) => v.is_def() } } }
impl<T: VDefault> VWrap for Option<T> { type T = T; open spec fn unwrapped(self, v: T) -> bool { match self { Some(x) => v == x, None => v.is_def() } } }
#[verifier::external_body]
pub fn vs_unwrap_or_default<W: VWrap>(r: W) -> (v: W::T)
    ensures r.unwrapped(v)
{ unimplemented!() }

// classes of bytes
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn hexdigit(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn alnum(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 }
pub open spec fn white(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
#[verifier::when_used_as_spec(vs_digit)]
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool) ensures r == digit(*c);
#[verifier::when_used_as_spec(vs_hexdigit)]
pub assume_specification[ u8::is_ascii_hexdigit ](c: &u8) -> (r: bool) ensures r == hexdigit(*c);
#[verifier::when_used_as_spec(vs_alnum)]
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool) ensures r == alnum(*c);
#[verifier::when_used_as_spec(vs_white)]
pub assume_specification[ u8::is_ascii_whitespace ](c: &u8) -> (r: bool) ensures r == white(*c);
pub open spec fn vs_digit(c: &u8) -> bool { digit(*c) }
pub open spec fn vs_hexdigit(c: &u8) -> bool { hexdigit(*c) }
pub open spec fn vs_alnum(c: &u8) -> bool { alnum(*c) }
pub open spec fn vs_white(c: &u8) -> bool { white(*c) }

/// `BTreeMap<String, String>`
#[verifier::external_body]
pub struct SMap { m: std::collections::BTreeMap<std::string::String, std::string::String> }
impl View for SMap { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl SMap {
    #[verifier::external_body]
    pub fn new() -> (r: SMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Str, v: Str) -> (r: Option<Str>)
        ensures final(self)@ == old(self)@.insert(k@, v@), r is Some == old(self)@.dom().contains(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Str) -> (r: Option<&Str>)
        ensures r is Some == self@.dom().contains(k@), r is Some ==> r->Some_0@ == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Str) -> (r: Option<Str>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.dom().contains(k@), r is Some ==> r->Some_0@ == old(self)@[k@]
    { unimplemented!() }
    /// `m[k]`: panics without the key.
    #[verifier::external_body]
    pub fn vs_index(&self, k: &Str) -> (r: &Str)
        requires self@.dom().contains(k@)
        ensures r@ == self@[k@]
    { unimplemented!() }
}
/// ASCII bytes are the characters.
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] < 0x80 }
#[verifier::external_body]
pub proof fn axiom_utf8_bytes(b: Seq<u8>)
    requires ascii(b)
    ensures utf8(b).len() == b.len(), forall|k: int| 0 <= k < b.len() ==> #[trigger] utf8(b)[k] == b[k] as char, utf8_enc(utf8(b)) == b
{}
/// An ASCII character is read out of its own byte only.
#[verifier::external_body]
pub proof fn axiom_utf8_char(b: Seq<u8>, c: u8)
    requires c < 0x80, forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] != c
    ensures forall|k: int| 0 <= k < utf8(b).len() ==> #[trigger] utf8(b)[k] != c as char
{}
