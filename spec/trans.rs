// Nodes out of nodes.

/// The canonical integer: what its text stands for, up to 128 bits.
pub open spec fn norm_int(s: Seq<char>) -> Option<int> {
    match i64_of(s) {
        Some(x) => Some(x as int),
        None => match u64::parsed(s) {
            Some(x) => Some(x as int),
            None => match i128::parsed(s) { Some(x) => Some(x as int), None => match u128::parsed(s) { Some(x) => Some(x as int), None => None } },
        },
    }
}
/// The node which serde makes of a node.
pub open spec fn norm(y: Yaml) -> Option<Node>
    decreases y, 0nat
{
    match y {
        Yaml::Null => Some(node0(Yaml::Null)),
        Yaml::Bool(b) => Some(node0(Yaml::Bool(b))),
        Yaml::Int(s) => match norm_int(s@) { Some(n) => Some(node0(Yaml::Int(str_of(int_text(n))))), None => None },
        Yaml::Float(s) => match f64_of(s@) { Some(f) => Some(node0(Yaml::Float(str_of(f64_text(f))))), None => None },
        Yaml::Str(s) => Some(node0(Yaml::Str(str_of(s@)))),
        Yaml::Seq(v) => match norms(v, v@.len()) { Some(s) => Some(node0(Yaml::Seq(vec_of(s)))), None => None },
        Yaml::Map(m) => match normm(m, m.v@.len()) { Some(s) => Some(node0(Yaml::Map(LMap { v: vec_of(mcollect(s)) }))), None => None },
        Yaml::Alias(_) => None,
    }
}
/// The first `n` items.
pub open spec fn norms(v: Vec<Node>, n: nat) -> Option<Seq<Node>>
    decreases v, n
{
    if n == 0 || n > v@.len() { Some(Seq::empty()) }
    else { match (norms(v, (n - 1) as nat), norm(*v@[n - 1].yaml)) { (Some(s), Some(x)) => Some(s.push(x)), _ => None } }
}
/// The first `n` pairs.
pub open spec fn normm(m: LMap, n: nat) -> Option<Seq<(Node, Node)>>
    decreases m, n
{
    if n == 0 || n > m.v@.len() { Some(Seq::empty()) }
    else { match (normm(m, (n - 1) as nat), norm(*m.v@[n - 1].0.yaml), norm(*m.v@[n - 1].1.yaml)) { (Some(s), Some(k), Some(x)) => Some(s.push((k, x))), _ => None } }
}
pub open spec fn as_norm(n: Node, r: Result<Node, SerdeError>) -> bool {
    match norm(yv(n)) { Some(m) => r == Ok::<Node, SerdeError>(m), None => r is Err }
}

// ---- laws

/// The keys of a map differ.
pub open spec fn dist(m: Seq<(Node, Node)>) -> bool { forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() ==> !neq(m[i].0, m[j].0) }
pub proof fn lemma_mfind(m: Seq<(Node, Node)>, k: Yaml, i: int)
    requires 0 <= i
    ensures match mfind(m, k, i) { Some(j) => i <= j < m.len() && yeq(yv(m[j].0), k), None => forall|j: int| i <= j < m.len() ==> !yeq(yv(#[trigger] m[j].0), k) }
    decreases m.len() - i
{ if i < m.len() && !yeq(yv(m[i].0), k) { lemma_mfind(m, k, i + 1); } }
pub proof fn lemma_dist_insert(m: Seq<(Node, Node)>, k: Node, v: Node)
    requires dist(m)
    ensures dist(minsert(m, k, v))
{
    lemma_mfind(m, yv(k), 0);
    let r = minsert(m, k, v);
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies !neq(r[i].0, r[j].0) by {
        match mfind(m, yv(k), 0) {
            Some(x) => {
                let a = if i < x { i } else { i + 1 };
                let b = if j == r.len() - 1 { x } else if j < x { j } else { j + 1 };
                assert(r[i].0 == m[a].0 && r[j].0 == m[b].0);
                if neq(m[a].0, m[b].0) { law_sym(yv(m[a].0), yv(m[b].0)); assert(neq(m[b].0, m[a].0)); if a < b { assert(m[a] == m[a] && m[b] == m[b]); } }
            }
            None => { assert(r[i] == m[i]); if j < m.len() { assert(r[j] == m[j]); } else { assert(!yeq(yv(m[i].0), yv(k))); } }
        }
    }
}
pub proof fn lemma_dist_collect(m: Seq<(Node, Node)>)
    ensures dist(mcollect(m))
    decreases m.len()
{ if m.len() > 0 { lemma_dist_collect(m.drop_last()); lemma_dist_insert(mcollect(m.drop_last()), m.last().0, m.last().1); } }
pub proof fn lemma_collect_dist(m: Seq<(Node, Node)>)
    requires dist(m)
    ensures mcollect(m) == m
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        let k = m.last().0;
        assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies !neq(d[i].0, d[j].0) by { assert(d[i] == m[i] && d[j] == m[j]); }
        lemma_collect_dist(d);
        lemma_mfind(d, yv(k), 0);
        match mfind(d, yv(k), 0) { Some(i) => { assert(d[i] == m[i]); assert(!neq(m[i].0, m[m.len() - 1].0)); } None => {} }
        assert(d.push((k, m.last().1)) =~= m);
    }
}
/// Collecting twice is collecting once.
pub proof fn lemma_collect_twice(m: Seq<(Node, Node)>)
    ensures mcollect(mcollect(m)) == mcollect(m)
{ lemma_dist_collect(m); lemma_collect_dist(mcollect(m)); }
/// `f64`: the text of a number reads back as that number.
#[verifier::external_body]
pub proof fn axiom_f64_text(f: f64)
    ensures f64_of(f64_text(f)) is Some, fkey(f64_of(f64_text(f))->Some_0) == fkey(f)
{}
/// Maps with different keys, and integers beyond 64 bits in their shortest decimal form, everywhere.
pub open spec fn regular(y: Yaml) -> bool
    decreases y
{
    match y {
        Yaml::Int(s) => i64_of(s@) is None ==> match norm_int(s@) { Some(n) => s@ == int_text(n), None => true },
        Yaml::Seq(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> regular(*v@[i].yaml),
        Yaml::Map(m) => dist(m.v@) && forall|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() ==> regular(*m.v@[i].0.yaml) && regular(*m.v@[i].1.yaml),
        _ => true,
    }
}
/// An alias, or a number which cannot be read, anywhere.
pub open spec fn refused(y: Yaml) -> bool
    decreases y
{
    match y {
        Yaml::Alias(_) => true,
        Yaml::Int(s) => norm_int(s@) is None,
        Yaml::Float(s) => f64_of(s@) is None,
        Yaml::Seq(v) => exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && refused(*v@[i].yaml),
        Yaml::Map(m) => exists|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() && (refused(*m.v@[i].0.yaml) || refused(*m.v@[i].1.yaml)),
        _ => false,
    }
}
/// It fails exactly on aliases and unreadable numbers.
pub proof fn law_refused(y: Yaml)
    ensures norm(y) is None == refused(y)
    decreases y, 0nat
{
    match y {
        Yaml::Seq(v) => { lemma_norms(v, v@.len()); }
        Yaml::Map(m) => { lemma_normm(m, m.v@.len()); }
        _ => {}
    }
}
pub proof fn lemma_norms(v: Vec<Node>, n: nat)
    requires n <= v@.len()
    ensures match norms(v, n) {
        Some(s) => s.len() == n && forall|i: int| #![trigger v@[i]] 0 <= i < n ==> !refused(yv(v@[i])) && norm(yv(v@[i])) == Some(s[i]),
        None => exists|i: int| #![trigger v@[i]] 0 <= i < n && refused(yv(v@[i])),
    }
    decreases v, n
{
    if n > 0 {
        lemma_norms(v, (n - 1) as nat);
        law_refused(yv(v@[n - 1]));
    }
}
pub proof fn lemma_normm(m: LMap, n: nat)
    requires n <= m.v@.len()
    ensures match normm(m, n) {
        Some(s) => s.len() == n && forall|i: int| #![trigger m.v@[i]] 0 <= i < n ==> !refused(yv(m.v@[i].0)) && !refused(yv(m.v@[i].1))
            && norm(yv(m.v@[i].0)) == Some(s[i].0) && norm(yv(m.v@[i].1)) == Some(s[i].1),
        None => exists|i: int| #![trigger m.v@[i]] 0 <= i < n && (refused(yv(m.v@[i].0)) || refused(yv(m.v@[i].1))),
    }
    decreases m, n
{
    if n > 0 {
        lemma_normm(m, (n - 1) as nat);
        law_refused(yv(m.v@[n - 1].0));
        law_refused(yv(m.v@[n - 1].1));
        lemma_normm_step(m, n);
    }
}
pub proof fn lemma_normm_def(m: LMap, n: nat)
    requires 0 < n <= m.v@.len()
    ensures normm(m, n) == match (normm(m, (n - 1) as nat), norm(yv(m.v@[n - 1].0)), norm(yv(m.v@[n - 1].1))) {
        (Some(s), Some(k), Some(x)) => Some(s.push((k, x))), _ => None::<Seq<(Node, Node)>> }
{}
/// One more pair.
pub proof fn lemma_normm_step(m: LMap, n: nat)
    requires 0 < n <= m.v@.len(),
        norm(yv(m.v@[n - 1].0)) is None == refused(yv(m.v@[n - 1].0)), norm(yv(m.v@[n - 1].1)) is None == refused(yv(m.v@[n - 1].1)),
        match normm(m, (n - 1) as nat) {
            Some(s) => s.len() == n - 1 && forall|i: int| #![trigger m.v@[i]] 0 <= i < n - 1 ==> !refused(yv(m.v@[i].0)) && !refused(yv(m.v@[i].1))
                && norm(yv(m.v@[i].0)) == Some(s[i].0) && norm(yv(m.v@[i].1)) == Some(s[i].1),
            None => exists|i: int| #![trigger m.v@[i]] 0 <= i < n - 1 && (refused(yv(m.v@[i].0)) || refused(yv(m.v@[i].1))),
        }
    ensures match normm(m, n) {
        Some(s) => s.len() == n && forall|i: int| #![trigger m.v@[i]] 0 <= i < n ==> !refused(yv(m.v@[i].0)) && !refused(yv(m.v@[i].1))
            && norm(yv(m.v@[i].0)) == Some(s[i].0) && norm(yv(m.v@[i].1)) == Some(s[i].1),
        None => exists|i: int| #![trigger m.v@[i]] 0 <= i < n && (refused(yv(m.v@[i].0)) || refused(yv(m.v@[i].1))),
    }
{
    hide(norm); hide(normm); hide(refused);
    lemma_normm_def(m, n);
    let (k, x) = (norm(yv(m.v@[n - 1].0)), norm(yv(m.v@[n - 1].1)));
    match normm(m, (n - 1) as nat) {
        Some(t) => if k is Some && x is Some {
            let s = t.push((k->Some_0, x->Some_0));
            assert forall|i: int| #![trigger m.v@[i]] 0 <= i < n implies !refused(yv(m.v@[i].0)) && !refused(yv(m.v@[i].1))
                && norm(yv(m.v@[i].0)) == Some(s[i].0) && norm(yv(m.v@[i].1)) == Some(s[i].1) by {
                if i < n - 1 { assert(s[i] == t[i]); }
            }
        } else {
            assert(refused(yv(m.v@[n - 1].0)) || refused(yv(m.v@[n - 1].1)));
        },
        None => {
            let i = choose|i: int| #![trigger m.v@[i]] 0 <= i < n - 1 && (refused(yv(m.v@[i].0)) || refused(yv(m.v@[i].1)));
            assert(0 <= i < n && (refused(yv(m.v@[i].0)) || refused(yv(m.v@[i].1))));
        },
    }
}
pub proof fn lemma_int(s: Seq<char>)
    requires norm_int(s) is Some, i64_of(s) is None ==> s == int_text(norm_int(s)->Some_0)
    ensures same_int(int_text(norm_int(s)->Some_0), s)
{
    hide(int_text); hide(contains); hide(replaced); hide(signed);
    let n = norm_int(s)->Some_0;
    law_int_text(n);
    if i64_of(s) is Some { assert(in_i64(Some(n)) == i64_of(s)); }
}
/// Equal items make equal rows.
pub proof fn lemma_rows(v: Vec<Node>, w: Seq<Node>)
    requires w.len() == v@.len(), forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> neq(w[i], v@[i])
    ensures yeq(Yaml::Seq(vec_of(w)), Yaml::Seq(v))
{ broadcast use group_values; assert(v.len() == w.len()); assert(vec_of(w)@ == w); }
/// Equal pairs make equal maps, if the keys differ.
pub proof fn lemma_pairs(m: LMap, w: Seq<(Node, Node)>)
    requires dist(m.v@), w.len() == m.v@.len(), forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> neq(w[i].0, m.v@[i].0) && neq(w[i].1, m.v@[i].1)
    ensures yeq(Yaml::Map(LMap { v: vec_of(mcollect(w)) }), Yaml::Map(m))
{
    broadcast use group_values;
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies !neq(w[i].0, w[j].0) by {
        if neq(w[i].0, w[j].0) {
            assert(neq(w[i].0, m.v@[i].0) && neq(w[j].0, m.v@[j].0));
            law_sym(yv(w[i].0), yv(m.v@[i].0));
            law_trans(yv(m.v@[i].0), yv(w[i].0), yv(w[j].0));
            law_trans(yv(m.v@[i].0), yv(w[j].0), yv(m.v@[j].0));
            assert(neq(m.v@[i].0, m.v@[j].0));
        }
    }
    lemma_collect_dist(w);
    assert(m.v.len() == w.len());
    assert(vec_of(w)@ == w);
}
/// Otherwise the node is equal.
pub proof fn law_transparent(y: Yaml)
    requires regular(y), norm(y) is Some
    ensures yeq(yv(norm(y)->Some_0), y)
    decreases y
{
    hide(i64_of); hide(int_text); hide(norm_int); hide(dist); hide(mcollect); hide(signed);
    broadcast use group_values;
    match y {
        Yaml::Int(s) => { lemma_int(s@); }
        Yaml::Float(s) => { axiom_f64_text(f64_of(s@)->Some_0); }
        Yaml::Seq(v) => {
            lemma_norms(v, v@.len());
            let w = norms(v, v@.len())->Some_0;
            assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies neq(w[i], v@[i]) by { let z = v@[i]; assert(regular(yv(z))); law_transparent(yv(z)); }
            lemma_rows(v, w);
        }
        Yaml::Map(m) => {
            lemma_normm(m, m.v@.len());
            let w = normm(m, m.v@.len())->Some_0;
            assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies neq(w[i].0, m.v@[i].0) && neq(w[i].1, m.v@[i].1) by {
                let z = m.v@[i]; assert(regular(yv(z.0)) && regular(yv(z.1))); law_transparent(yv(z.0)); law_transparent(yv(z.1));
            }
            lemma_pairs(m, w);
        }
        _ => {}
    }
}
