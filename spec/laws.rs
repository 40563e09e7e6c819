// The laws of equality and hash, over the contracts of `eq` and `hash`.

/// Reflexive.
pub proof fn law_refl(a: Yaml)
    ensures yeq(a, a)
    decreases a
{
    match a {
        Yaml::Seq(x) => { assert forall|i: int| #![trigger x@[i]] 0 <= i < x@.len() implies neq(x@[i], x@[i]) by { law_refl(yv(x@[i])); } }
        Yaml::Map(x) => {
            assert forall|i: int| #![trigger x.v@[i]] 0 <= i < x.v@.len() implies neq(x.v@[i].0, x.v@[i].0) && neq(x.v@[i].1, x.v@[i].1) by {
                law_refl(yv(x.v@[i].0)); law_refl(yv(x.v@[i].1));
            }
        }
        _ => {}
    }
}
/// Symmetric.
pub proof fn law_sym(a: Yaml, b: Yaml)
    requires yeq(a, b)
    ensures yeq(b, a)
    decreases a
{
    match (a, b) {
        (Yaml::Seq(x), Yaml::Seq(y)) => { assert forall|i: int| #![trigger y@[i]] 0 <= i < y@.len() implies neq(y@[i], x@[i]) by { assert(neq(x@[i], y@[i])); law_sym(yv(x@[i]), yv(y@[i])); } }
        (Yaml::Map(x), Yaml::Map(y)) => {
            assert forall|i: int| #![trigger y.v@[i]] 0 <= i < y.v@.len() implies neq(y.v@[i].0, x.v@[i].0) && neq(y.v@[i].1, x.v@[i].1) by {
                assert(neq(x.v@[i].0, y.v@[i].0) && neq(x.v@[i].1, y.v@[i].1));
                law_sym(yv(x.v@[i].0), yv(y.v@[i].0)); law_sym(yv(x.v@[i].1), yv(y.v@[i].1));
            }
        }
        _ => {}
    }
}
/// Transitive.
pub proof fn law_trans(a: Yaml, b: Yaml, c: Yaml)
    requires yeq(a, b), yeq(b, c)
    ensures yeq(a, c)
    decreases a
{
    match (a, b, c) {
        (Yaml::Seq(x), Yaml::Seq(y), Yaml::Seq(z)) => {
            assert forall|i: int| #![trigger x@[i]] 0 <= i < x@.len() implies neq(x@[i], z@[i]) by {
                assert(neq(x@[i], y@[i])); assert(neq(y@[i], z@[i]));
                law_trans(yv(x@[i]), yv(y@[i]), yv(z@[i]));
            }
        }
        (Yaml::Map(x), Yaml::Map(y), Yaml::Map(z)) => {
            assert forall|i: int| #![trigger x.v@[i]] 0 <= i < x.v@.len() implies neq(x.v@[i].0, z.v@[i].0) && neq(x.v@[i].1, z.v@[i].1) by {
                assert(neq(x.v@[i].0, y.v@[i].0) && neq(x.v@[i].1, y.v@[i].1));
                assert(neq(y.v@[i].0, z.v@[i].0) && neq(y.v@[i].1, z.v@[i].1));
                law_trans(yv(x.v@[i].0), yv(y.v@[i].0), yv(z.v@[i].0)); law_trans(yv(x.v@[i].1), yv(y.v@[i].1), yv(z.v@[i].1));
            }
        }
        _ => {}
    }
}
/// Equal values write the same to every hasher.
pub proof fn law_hash(a: Yaml, b: Yaml)
    requires yeq(a, b)
    ensures yhash(a) == yhash(b)
    decreases a, 0nat
{
    match (a, b) {
        (Yaml::Seq(x), Yaml::Seq(y)) => law_shash(x, y, x@.len()),
        (Yaml::Map(x), Yaml::Map(y)) => law_mhash(x, y, x.v@.len()),
        _ => {}
    }
}
pub proof fn law_shash(x: Vec<Node>, y: Vec<Node>, n: nat)
    requires x@.len() == y@.len(), n <= x@.len(), forall|i: int| #![trigger x@[i]] 0 <= i < x@.len() ==> neq(x@[i], y@[i])
    ensures shash(x, n) == shash(y, n)
    decreases x, n
{
    if n > 0 { law_shash(x, y, (n - 1) as nat); assert(neq(x@[n - 1], y@[n - 1])); law_hash(yv(x@[n - 1]), yv(y@[n - 1])); }
}
pub proof fn law_mhash(x: LMap, y: LMap, n: nat)
    requires x.v@.len() == y.v@.len(), n <= x.v@.len(),
        forall|i: int| #![trigger x.v@[i]] 0 <= i < x.v@.len() ==> neq(x.v@[i].0, y.v@[i].0) && neq(x.v@[i].1, y.v@[i].1)
    ensures mhash(x, n) == mhash(y, n)
    decreases x, n
{
    if n > 0 {
        law_mhash(x, y, (n - 1) as nat);
        assert(neq(x.v@[n - 1].0, y.v@[n - 1].0) && neq(x.v@[n - 1].1, y.v@[n - 1].1));
        law_hash(yv(x.v@[n - 1].0), yv(y.v@[n - 1].0)); law_hash(yv(x.v@[n - 1].1), yv(y.v@[n - 1].1));
    }
}
/// Position and tag do not matter.
pub proof fn law_value_only(a: Node, b: Node)
    requires *a.yaml == *b.yaml
    ensures neq(a, b)
{ law_refl(yv(a)); }
