// The value of the text of an integer.

pub open spec fn dec_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn oct_digit(c: char) -> bool { '0' <= c && c <= '7' }
pub open spec fn hex_digit(c: char) -> bool { dec_digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
/// Decimal digits with an optional minus sign denote that number, if it fits.
pub proof fn law_decimal(t: Seq<char>)
    requires t.len() > 0, forall|k: int| 0 <= k < t.len() ==> dec_digit(#[trigger] t[k]) || (k == 0 && t[k] == '-')
    ensures i64_of(t) == in_i64(if t[0] == '-' { match mag(t.skip(1), 10) { Some(n) => Some(-n), None => None } } else { mag(t, 10) }),
        t[0] == '-' && t.len() == 1 ==> i64_of(t) is None,
        mag(if t[0] == '-' { t.skip(1) } else { t }, 10) is Some == (t[0] != '-' || t.len() > 1),
{
    assert forall|i: int, p: Seq<char>| #![trigger t.subrange(i, i + p.len())] 0 <= i <= t.len() - p.len() && p.len() == 2 && (p[1] == 'x' || p[1] == 'o')
        implies t.subrange(i, i + p.len()) != p by { assert(t.subrange(i, i + p.len())[1] == t[i + 1]); }
    let u = if t[0] == '-' { t.skip(1) } else { t };
    assert forall|k: int| 0 <= k < u.len() implies dec_digit(#[trigger] u[k]) by { if t[0] == '-' { assert(u[k] == t[k + 1]); } else { assert(u[k] == t[k]); } }
    if u.len() > 0 { lemma_mag(u, 10); }
}
/// A row of digits has a value.
pub proof fn lemma_mag(u: Seq<char>, radix: int)
    requires u.len() > 0, radix == 8 || radix == 10 || radix == 16,
        forall|k: int| 0 <= k < u.len() ==> (if radix == 8 { oct_digit(#[trigger] u[k]) } else if radix == 10 { dec_digit(u[k]) } else { hex_digit(u[k]) })
    ensures mag(u, radix) is Some, mag(u, radix)->Some_0 >= 0
    decreases u.len()
{
    if u.len() > 1 { lemma_mag(u.drop_last(), radix); assert(u.last() == u[u.len() - 1]); let a = mag(u.drop_last(), radix)->Some_0; assert(a * radix >= 0) by (nonlinear_arith) requires a >= 0, radix > 0; }
    else { assert(oct_digit(u[0]) || hex_digit(u[0])); }
}
pub proof fn lemma_replaced(u: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires p.len() == 2, forall|k: int| 0 <= k < u.len() ==> #[trigger] u[k] != p[1]
    ensures replaced(u, p, q) == u
    decreases u.len()
{
    if u.len() > 0 {
        if p.is_prefix_of(u) { assert(u.subrange(0, 2)[1] == u[1]); assert(p =~= u.subrange(0, 2)); assert(false); }
        lemma_replaced(u.skip(1), p, q);
        assert(seq![u[0]] + u.skip(1) =~= u);
    }
}
pub proof fn lemma_pre(x: char, u: Seq<char>)
    requires forall|k: int| 0 <= k < u.len() ==> #[trigger] u[k] != x
    ensures contains(seq!['0', x] + u, seq!['0', x]), replaced(seq!['0', x] + u, seq!['0', x], Seq::empty()) == u
{
    let t = seq!['0', x] + u;
    let p = seq!['0', x];
    let e = Seq::<char>::empty();
    assert(t.subrange(0, 0 + p.len() as int) =~= p);
    assert(p.is_prefix_of(t));
    assert(t.skip(p.len() as int) =~= u);
    lemma_replaced(u, p, e);
    assert(e + u =~= u);
}
pub proof fn lemma_no_pre(u: Seq<char>)
    requires forall|k: int| 0 <= k < u.len() ==> #[trigger] u[k] != 'x'
    ensures !contains(seq!['0', 'o'] + u, seq!['0', 'x'])
{
    let t = seq!['0', 'o'] + u;
    let q = seq!['0', 'x'];
    assert forall|i: int| 0 <= i <= t.len() - q.len() implies #[trigger] t.subrange(i, i + q.len()) != q by {
        assert(t.subrange(i, i + q.len())[1] == t[i + 1]);
        if i > 0 { assert(t[i + 1] == u[i - 1]); }
    }
}
/// `0x` and hexadecimal digits denote that number, if it fits.
pub proof fn law_hex(u: Seq<char>)
    requires u.len() > 0, forall|k: int| 0 <= k < u.len() ==> hex_digit(#[trigger] u[k])
    ensures mag(u, 16) is Some, i64_of(seq!['0', 'x'] + u) == in_i64(mag(u, 16))
{
    lemma_mag(u, 16);
    lemma_pre('x', u);
    assert(hex_digit(u[0]));
    assert(signed(u, 16) == mag(u, 16));
}
/// `0o` and octal digits denote that number, if it fits.
pub proof fn law_oct(u: Seq<char>)
    requires u.len() > 0, forall|k: int| 0 <= k < u.len() ==> oct_digit(#[trigger] u[k])
    ensures mag(u, 8) is Some, i64_of(seq!['0', 'o'] + u) == in_i64(mag(u, 8))
{
    lemma_mag(u, 8);
    lemma_pre('o', u);
    lemma_no_pre(u);
    assert(oct_digit(u[0]));
    assert(signed(u, 8) == mag(u, 8));
}
