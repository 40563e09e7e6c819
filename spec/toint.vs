== to_i64
ret r
ensures
    match r { Ok(n) => i64_of(s@) == Some(n), Err(_) => i64_of(s@) is None },
proof start
    proof {
        reveal_strlit("0x"); reveal_strlit("0o"); reveal_strlit("");
        assert("0x"@ =~= seq!['0', 'x']); assert("0o"@ =~= seq!['0', 'o']); assert(""@ =~= Seq::<char>::empty());
    }

== to_f64
ret r
ensures
    match r { Ok(n) => f64_of(s@) == Some(n), Err(_) => f64_of(s@) is None },
