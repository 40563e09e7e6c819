# Helper types of serde.
== InlineList::iter
ret r
ensures
    r@ == listed(*self),

== InlineList::len
ret r
ensures
    r == listed(*self).len(),

== InlineList::is_empty
ret r
ensures
    r == (listed(*self).len() == 0),

== InlineList::is_single
ret r
ensures
    r == (listed(*self).len() == 1),

== <InlineList as IntoIterator>::into_iter
sig
    pub fn into_iter(self) -> (r: VIter<T>)
ret r
ensures
    r@ == listed(self),

== <InlineList as Default>::default
ret r
ensures
    listed(r) == Seq::<T>::empty(),

== <Optional as Default>::default
ret r
ensures
    r == Optional::<T>::Bool(true),

== Optional::ok
sig
    pub fn ok<A: VAct<T, ()>>(&self, ok: &mut A) where T: Default
ensures
    called::<T, (), A>(*old(ok), *final(ok), in_effect(*self, T::dflt()), ()),

== Optional::ok_instead
sig
    pub fn ok_instead<A: VAct<T, ()>>(&self, ok: &mut A, default: &T)
ensures
    called::<T, (), A>(*old(ok), *final(ok), in_effect(*self, *default), ()),

== Optional::ok_or
sig
    pub fn ok_or<A: VAct<T, R>, B: VAct0<R>, R>(&self, ok: &mut A, or: &mut B) -> (r: R) where T: Default
ret r
ensures
    called::<T, R, A>(*old(ok), *final(ok), in_effect(*self, T::dflt()), r),
    called0::<R, B>(*old(or), *final(or), in_effect(*self, T::dflt()) is None, r),

== Optional::ok_or_instead
sig
    pub fn ok_or_instead<A: VAct<T, R>, B: VAct0<R>, R>(&self, ok: &mut A, default: &T, or: &mut B) -> (r: R)
ret r
ensures
    called::<T, R, A>(*old(ok), *final(ok), in_effect(*self, *default), r),
    called0::<R, B>(*old(or), *final(or), in_effect(*self, *default) is None, r),

== <Stringify as Display>::fmt
sig
    pub fn fmt(&self, f: &mut Str) -> (r: Result<(), FmtError>)
ret r
ensures
    r is Ok && final(f)@ == old(f)@ + stringified(*self),
proof start
    proof { reveal_strlit("true"); reveal_strlit("false"); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']); }

== <Stringify as Default>::default
ret r
ensures
    stringified(r) == Seq::<char>::empty(),
