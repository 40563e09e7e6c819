== float_key
ret r
ensures
    [C04] r == fkey(n),
proof start
    broadcast use axiom_zero;

== <Yaml as PartialEq>::eq
ret r
ensures
    [C04] r == yeq(*self, *other),

== <Node as PartialEq>::eq
ret r
ensures
    [C04] r == neq(*self, *rhs),

== <Yaml as Hash>::hash
ensures
    [C04] final(state).hs() == old(state).hs() + yhash(*self),
proof start
    let ghost h0 = state.hs();
proof end
    assert(state.hs() =~= h0 + yhash(*self));

== <Node as Hash>::hash
ensures
    [C04] final(state).hs() == old(state).hs() + yhash(*self.yaml),
