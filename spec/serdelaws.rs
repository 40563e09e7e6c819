// Integers across the boundary.

pub proof fn lemma_nat_text(n: nat)
    ensures nat_text(n).len() > 0, forall|k: int| 0 <= k < nat_text(n).len() ==> dec_digit(#[trigger] nat_text(n)[k]),
        mag(nat_text(n), 10) == Some(n as int)
    decreases n
{
    let d = digit_char((n % 10) as int);
    assert(d as u32 as int == 48 + n % 10);
    if n < 10 {
        assert(nat_text(n) =~= seq![d]);
    } else {
        let a = nat_text(n / 10);
        lemma_nat_text(n / 10);
        assert(nat_text(n) == a.push(d));
        assert(a.push(d).drop_last() =~= a);
        assert(a.push(d).last() == d);
        assert forall|k: int| 0 <= k < nat_text(n).len() implies dec_digit(#[trigger] nat_text(n)[k]) by { if k < a.len() { assert(nat_text(n)[k] == a[k]); } }
        assert((n / 10) * 10 + n % 10 == n);
    }
}
/// The text of a number has its value.
pub proof fn law_int_text(x: int)
    ensures int_text(x).len() > 0, forall|k: int| 0 <= k < int_text(x).len() ==> dec_digit(#[trigger] int_text(x)[k]) || (k == 0 && int_text(x)[k] == '-'),
        (int_text(x)[0] == '-') == (x < 0),
        signed(int_text(x), 10) == Some(x), i64_of(int_text(x)) == in_i64(Some(x)),
{
    let t = int_text(x);
    let n = if x < 0 { (-x) as nat } else { x as nat };
    lemma_nat_text(n);
    let m = nat_text(n);
    assert(dec_digit(m[0]));
    if x < 0 { assert(t.skip(1) =~= m); assert forall|k: int| 1 <= k < t.len() implies dec_digit(#[trigger] t[k]) by { assert(t[k] == m[k - 1]); } }
    law_decimal(t);
}
/// A text of decimal digits with an optional minus sign: its number.
pub open spec fn decimal(t: Seq<char>) -> bool {
    t.len() > (if t.len() > 0 && t[0] == '-' { 1int } else { 0 })
        && forall|k: int| 0 <= k < t.len() ==> dec_digit(#[trigger] t[k]) || (k == 0 && t[k] == '-')
}
pub proof fn lemma_decimal(t: Seq<char>)
    requires decimal(t)
    ensures signed(t, 10) is Some, i64_of(t) == in_i64(signed(t, 10)), t[0] == '-' ==> signed(t, 10)->Some_0 <= 0, t[0] != '-' ==> signed(t, 10)->Some_0 >= 0,
{
    law_decimal(t);
    let u = if t[0] == '-' { t.skip(1) } else { t };
    assert forall|k: int| 0 <= k < u.len() implies dec_digit(#[trigger] u[k]) by { if t[0] == '-' { assert(u[k] == t[k + 1]); } else { assert(u[k] == t[k]); } }
    lemma_mag(u, 10);
    assert(t[0] != '+') by { assert(dec_digit(t[0]) || t[0] == '-'); }
}
/// `i8` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_i8(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<i8>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(-128 <= signed(t, 10)->Some_0 <= 127) }
{ lemma_decimal(t); }
/// `i8` reads back as itself.
pub proof fn law_back_i8(x: i8)
    ensures int_as::<i8>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_i8(int_text(x as int)); }
/// `i8` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_i8(t: Seq<char>)
    ensures match int_as::<i8>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(-128 <= v <= 127), None => true },
    }
{ }
/// `i16` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_i16(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<i16>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(-32768 <= signed(t, 10)->Some_0 <= 32767) }
{ lemma_decimal(t); }
/// `i16` reads back as itself.
pub proof fn law_back_i16(x: i16)
    ensures int_as::<i16>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_i16(int_text(x as int)); }
/// `i16` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_i16(t: Seq<char>)
    ensures match int_as::<i16>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(-32768 <= v <= 32767), None => true },
    }
{ }
/// `i32` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_i32(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<i32>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(-2147483648 <= signed(t, 10)->Some_0 <= 2147483647) }
{ lemma_decimal(t); }
/// `i32` reads back as itself.
pub proof fn law_back_i32(x: i32)
    ensures int_as::<i32>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_i32(int_text(x as int)); }
/// `i32` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_i32(t: Seq<char>)
    ensures match int_as::<i32>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(-2147483648 <= v <= 2147483647), None => true },
    }
{ }
/// `i64` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_i64(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<i64>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(-9223372036854775808 <= signed(t, 10)->Some_0 <= 9223372036854775807) }
{ lemma_decimal(t); }
/// `i64` reads back as itself.
pub proof fn law_back_i64(x: i64)
    ensures int_as::<i64>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_i64(int_text(x as int)); }
/// `i64` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_i64(t: Seq<char>)
    ensures match int_as::<i64>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(-9223372036854775808 <= v <= 9223372036854775807), None => true },
    }
{ }
/// `i128` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_i128(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<i128>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(-170141183460469231731687303715884105728 <= signed(t, 10)->Some_0 <= 170141183460469231731687303715884105727) }
{ lemma_decimal(t); }
/// `i128` reads back as itself.
pub proof fn law_back_i128(x: i128)
    ensures int_as::<i128>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_i128(int_text(x as int)); }
/// `i128` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_i128(t: Seq<char>)
    ensures match int_as::<i128>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(-170141183460469231731687303715884105728 <= v <= 170141183460469231731687303715884105727), None => true },
    }
{ }
/// `u8` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_u8(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<u8>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(0 <= signed(t, 10)->Some_0 <= 255) }
{ lemma_decimal(t); }
/// `u8` reads back as itself.
pub proof fn law_back_u8(x: u8)
    ensures int_as::<u8>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_u8(int_text(x as int)); }
/// `u8` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_u8(t: Seq<char>)
    ensures match int_as::<u8>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(0 <= v <= 255), None => true },
    }
{ }
/// `u16` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_u16(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<u16>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(0 <= signed(t, 10)->Some_0 <= 65535) }
{ lemma_decimal(t); }
/// `u16` reads back as itself.
pub proof fn law_back_u16(x: u16)
    ensures int_as::<u16>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_u16(int_text(x as int)); }
/// `u16` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_u16(t: Seq<char>)
    ensures match int_as::<u16>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(0 <= v <= 65535), None => true },
    }
{ }
/// `u32` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_u32(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<u32>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(0 <= signed(t, 10)->Some_0 <= 4294967295) }
{ lemma_decimal(t); }
/// `u32` reads back as itself.
pub proof fn law_back_u32(x: u32)
    ensures int_as::<u32>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_u32(int_text(x as int)); }
/// `u32` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_u32(t: Seq<char>)
    ensures match int_as::<u32>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(0 <= v <= 4294967295), None => true },
    }
{ }
/// `u64` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_u64(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<u64>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(0 <= signed(t, 10)->Some_0 <= 18446744073709551615) }
{ lemma_decimal(t); }
/// `u64` reads back as itself.
pub proof fn law_back_u64(x: u64)
    ensures int_as::<u64>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_u64(int_text(x as int)); }
/// `u64` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_u64(t: Seq<char>)
    ensures match int_as::<u64>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(0 <= v <= 18446744073709551615), None => true },
    }
{ }
/// `u128` out of a decimal text: exactly its number, or refused.
pub proof fn law_decimal_u128(t: Seq<char>)
    requires decimal(t)
    ensures match int_as::<u128>(t) { Some(x) => signed(t, 10) == Some(x as int), None => !(0 <= signed(t, 10)->Some_0 <= 340282366920938463463374607431768211455) }
{ lemma_decimal(t); }
/// `u128` reads back as itself.
pub proof fn law_back_u128(x: u128)
    ensures int_as::<u128>(int_text(x as int)) == Some(x)
{ law_int_text(x as int); law_decimal_u128(int_text(x as int)); }
/// `u128` out of any text: exactly the number which the text stands for.
pub proof fn law_exact_u128(t: Seq<char>)
    ensures match int_as::<u128>(t) {
        Some(x) => match i64_of(t) { Some(v) => x as int == v as int, None => signed(t, 10) == Some(x as int) },
        None => match i64_of(t) { Some(v) => !(0 <= v <= 340282366920938463463374607431768211455), None => true },
    }
{ }
/// The number which is passed on.
pub open spec fn ev_int(e: VEv) -> Option<int> {
    match e {
        VEv::I8(x) => Some(x as int), VEv::I16(x) => Some(x as int), VEv::I32(x) => Some(x as int), VEv::I64(x) => Some(x as int), VEv::I128(x) => Some(x as int),
        VEv::U8(x) => Some(x as int), VEv::U16(x) => Some(x as int), VEv::U32(x) => Some(x as int), VEv::U64(x) => Some(x as int), VEv::U128(x) => Some(x as int),
        _ => None,
    }
}
/// Self-describing formats are given the exact number of a decimal text, up to 128 bits.
pub proof fn law_event_decimal(t: Seq<char>)
    requires decimal(t)
    ensures match int_event(t) {
        Some(e) => ev_int(e) == Some(signed(t, 10)->Some_0),
        None => !(-170141183460469231731687303715884105728 <= signed(t, 10)->Some_0 <= 340282366920938463463374607431768211455),
    }
{ lemma_decimal(t); }
pub proof fn lemma_event(t: Seq<char>)
    requires signed(t, 10) is None
    ensures int_event(t) == (match i64_of(t) { Some(x) => Some(VEv::I64(x)), None => None })
{ }
/// Hexadecimal digits: exactly their number, or refused.
pub proof fn law_event_hex(u: Seq<char>)
    requires u.len() > 0, forall|k: int| 0 <= k < u.len() ==> hex_digit(#[trigger] u[k])
    ensures match int_event(seq!['0', 'x'] + u) {
        Some(e) => ev_int(e) == mag(u, 16),
        None => !(mag(u, 16)->Some_0 <= 0x7fff_ffff_ffff_ffff),
    }
{
    hide(i64_of); hide(int_event); hide(signed); hide(mag); hide(contains); hide(replaced);
    let t = seq!['0', 'x'] + u;
    law_hex(u); lemma_mag(u, 16); lemma_letter(t, 1); lemma_event(t);
}
/// Octal digits: exactly their number, or refused.
pub proof fn law_event_oct(u: Seq<char>)
    requires u.len() > 0, forall|k: int| 0 <= k < u.len() ==> oct_digit(#[trigger] u[k])
    ensures match int_event(seq!['0', 'o'] + u) {
        Some(e) => ev_int(e) == mag(u, 8),
        None => !(mag(u, 8)->Some_0 <= 0x7fff_ffff_ffff_ffff),
    }
{
    hide(i64_of); hide(int_event); hide(signed); hide(mag); hide(contains); hide(replaced);
    let t = seq!['0', 'o'] + u;
    law_oct(u); lemma_mag(u, 8); lemma_letter(t, 1); lemma_event(t);
}
/// A letter is no decimal digit.
pub proof fn lemma_letter(t: Seq<char>, i: int)
    requires 0 < i < t.len(), t[i] == 'x' || t[i] == 'o', t[0] == '0'
    ensures mag(t, 10) is None, signed(t, 10) is None
    decreases t.len()
{
    if t.len() > i + 1 { assert(t.drop_last()[i] == t[i]); lemma_letter(t.drop_last(), i); }
    else { assert(t.last() == t[i]); }
}
