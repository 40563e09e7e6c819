// Trees of nodes: no alias inside, positions in order.

/// No alias in the tree.
#[verifier::opaque]
pub open spec fn na(y: Yaml) -> bool
    decreases y
{
    match y {
        Yaml::Alias(_) => false,
        Yaml::Seq(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> na(yv(v@[i])),
        Yaml::Map(m) => forall|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() ==> na(yv(m.v@[i].0)) && na(yv(m.v@[i].1)),
        _ => true,
    }
}
/// The items of a collection lie between `lo` and `hi`.
#[verifier::opaque]
pub open spec fn within(y: Yaml, lo: int, hi: int) -> bool {
    match y {
        Yaml::Seq(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> lo <= v@[i].pos <= hi,
        Yaml::Map(m) => forall|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() ==> lo <= m.v@[i].0.pos && m.v@[i].0.pos <= hi && lo <= m.v@[i].1.pos <= hi,
        _ => true,
    }
}
/// Before another node, with all of its items.
#[verifier::opaque]
pub open spec fn ord(a: Node, b: Node) -> bool { a.pos < b.pos && within(yv(a), 0, b.pos as int) }
/// Positions inside the text, in the order of the items; the items behind the
/// start of their collection (in front of it, when it came with an alias).
#[verifier::opaque]
pub open spec fn pl(y: Yaml, len: int) -> bool
    decreases y
{
    match y {
        Yaml::Seq(v) => {
            &&& forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> placed(v@[i], len) && pl(yv(v@[i]), len)
            &&& forall|i: int, j: int| #![trigger v@[i], v@[j]] 0 <= i < j < v@.len() ==> ord(v@[i], v@[j])
        }
        Yaml::Map(m) => {
            &&& forall|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() ==> placed(m.v@[i].0, len) && pl(yv(m.v@[i].0), len) && placed(m.v@[i].1, len) && pl(yv(m.v@[i].1), len) && ord(m.v@[i].0, m.v@[i].1)
            &&& forall|i: int, j: int| #![trigger m.v@[i], m.v@[j]] 0 <= i < j < m.v@.len() ==> ord(m.v@[i].1, m.v@[j].1)
        }
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn placed(n: Node, len: int) -> bool {
    n.pos <= len && (within(yv(n), n.pos as int, len) || within(yv(n), 0, n.pos as int))
}
#[verifier::opaque]
pub open spec fn node_ok(n: Node, len: int) -> bool { placed(n, len) && pl(yv(n), len) }

/// The items so far.
#[verifier::opaque]
pub open spec fn spl(v: Seq<Node>, lo: int, hi: int, len: int) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> node_ok(v[i], len) && lo <= v[i].pos <= hi && within(yv(v[i]), 0, hi)
    &&& forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> ord(v[i], v[j])
}
/// The pairs so far.
#[verifier::opaque]
pub open spec fn mpl(m: Seq<(Node, Node)>, lo: int, hi: int, len: int) -> bool {
    &&& forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> node_ok(m[i].0, len) && node_ok(m[i].1, len) && lo <= m[i].0.pos && ord(m[i].0, m[i].1) && m[i].1.pos <= hi && within(yv(m[i].1), 0, hi)
    &&& forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() ==> ord(m[i].1, m[j].1)
}
#[verifier::opaque]
pub open spec fn sna(v: Seq<Node>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> na(yv(v[i])) }
#[verifier::opaque]
pub open spec fn mna(m: Seq<(Node, Node)>) -> bool { forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> na(yv(m[i].0)) && na(yv(m[i].1)) }
pub proof fn lemma_spl_push(v: Seq<Node>, n: Node, lo: int, h1: int, h2: int, len: int)
    requires spl(v, lo, h1, len), node_ok(n, len), lo <= n.pos <= h2, v.len() > 0 ==> h1 < n.pos, within(yv(n), 0, h2)
    ensures spl(v.push(n), lo, h2, len)
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    let w = v.push(n);
    assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies node_ok(w[i], len) && lo <= w[i].pos <= h2 && within(yv(w[i]), 0, h2) by { if i < v.len() { assert(w[i] == v[i]); lemma_within(yv(v[i]), 0, h1, 0, h2); } }
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies ord(w[i], w[j]) by { assert(w[i] == v[i]); if j < v.len() { assert(w[j] == v[j]); } else { lemma_within(yv(v[i]), 0, h1, 0, n.pos as int); } }
}
pub proof fn lemma_within(y: Yaml, a: int, b: int, c: int, d: int)
    requires within(y, a, b), c <= a, b <= d
    ensures within(y, c, d)
{ reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);}
pub proof fn lemma_spl_mono(v: Seq<Node>, lo: int, h1: int, h2: int, len: int)
    requires spl(v, lo, h1, len), h1 <= h2
    ensures spl(v, lo, h2, len)
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies node_ok(v[i], len) && lo <= v[i].pos <= h2 && within(yv(v[i]), 0, h2) by { lemma_within(yv(v[i]), 0, h1, 0, h2); }
}
pub proof fn lemma_mpl_mono(m: Seq<(Node, Node)>, lo: int, h1: int, h2: int, len: int)
    requires mpl(m, lo, h1, len), h1 <= h2
    ensures mpl(m, lo, h2, len)
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies m[i].1.pos <= h2 && within(yv(m[i].1), 0, h2) by { lemma_within(yv(m[i].1), 0, h1, 0, h2); }
}
pub proof fn lemma_mpl_push(m: Seq<(Node, Node)>, k: Node, n: Node, lo: int, h1: int, h2: int, len: int)
    requires mpl(m, lo, h1, len), node_ok(k, len), node_ok(n, len), lo <= k.pos, (m.len() > 0 ==> h1 < k.pos), k.pos < n.pos, within(yv(k), 0, n.pos as int), n.pos <= h2, within(yv(n), 0, h2)
    ensures mpl(m.push((k, n)), lo, h2, len)
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    let w = m.push((k, n));
    assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies node_ok(w[i].0, len) && node_ok(w[i].1, len) && lo <= w[i].0.pos && ord(w[i].0, w[i].1) && w[i].1.pos <= h2 && within(yv(w[i].1), 0, h2) by { if i < m.len() { assert(w[i] == m[i]); lemma_within(yv(m[i].1), 0, h1, 0, h2); } }
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies ord(w[i].1, w[j].1) by { assert(w[i] == m[i]); if j < m.len() { assert(w[j] == m[j]); } else { lemma_within(yv(m[i].1), 0, h1, 0, n.pos as int); } }
}
/// In front of a node, with all of its items.
pub open spec fn below(m: Seq<(Node, Node)>, n: Node) -> bool { forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> ord(m[i].0, n) && ord(m[i].1, n) }
pub proof fn lemma_mfind(m: Seq<(Node, Node)>, k: Yaml, i: int)
    ensures mfind(m, k, i) is Some ==> 0 <= mfind(m, k, i)->Some_0 < m.len()
    decreases m.len() - i
{ reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna); if 0 <= i < m.len() { lemma_mfind(m, k, i + 1); } }
pub proof fn lemma_mpl_insert(c: Seq<(Node, Node)>, k: Node, n: Node, lo: int, h1: int, hi: int, len: int)
    requires mpl(c, lo, h1, len), h1 <= hi, below(c, n), node_ok(k, len), node_ok(n, len), lo <= k.pos, ord(k, n), n.pos <= hi, within(yv(n), 0, hi)
    ensures mpl(minsert(c, k, n), lo, hi, len)
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    let w = minsert(c, k, n);
    lemma_mfind(c, yv(k), 0);
    lemma_mpl_mono(c, lo, h1, hi, len);
    match mfind(c, yv(k), 0) {
        Some(x) => {
            let r = c.remove(x);
            assert(w == r.push((c[x].0, n)));
            assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies node_ok(w[i].0, len) && node_ok(w[i].1, len) && lo <= w[i].0.pos && ord(w[i].0, w[i].1) && w[i].1.pos <= hi && within(yv(w[i].1), 0, hi) by {
                if i < r.len() { assert(w[i] == c[if i < x { i } else { i + 1 }]); } else { assert(w[i] == (c[x].0, n)); }
            }
            assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies ord(w[i].1, w[j].1) by {
                assert(w[i] == c[if i < x { i } else { i + 1 }]);
                if j < r.len() { assert(w[j] == c[if j < x { j } else { j + 1 }]); } else { assert(w[j] == (c[x].0, n)); }
            }
        }
        None => {
            assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies node_ok(w[i].0, len) && node_ok(w[i].1, len) && lo <= w[i].0.pos && ord(w[i].0, w[i].1) && w[i].1.pos <= hi && within(yv(w[i].1), 0, hi) by {
                if i < c.len() { assert(w[i] == c[i]); } else { assert(w[i] == (k, n)); }
            }
            assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies ord(w[i].1, w[j].1) by {
                assert(w[i] == c[i]);
                if j < c.len() { assert(w[j] == c[j]); } else { assert(w[j] == (k, n)); }
            }
        }
    }
}
pub proof fn lemma_ord(a: Node, b: Node, c: Node)
    requires ord(a, b), ord(b, c)
    ensures ord(a, c)
{ reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna); lemma_within(yv(a), 0, b.pos as int, 0, c.pos as int); }
/// What stays after the removal of equal keys is in order, too.
pub proof fn lemma_mc_below(m: Seq<(Node, Node)>, lo: int, hi: int, len: int, n: Node)
    requires mpl(m, lo, hi, len), below(m, n)
    ensures below(mcollect(m), n)
    decreases m.len()
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    if m.len() > 0 {
        let p = m.drop_last();
        let l = m.last();
        assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies p[i] == m[i] by {}
        assert(mpl(p, lo, hi, len));
        assert(m[m.len() - 1] == l);
        lemma_mc_below(p, lo, hi, len, n);
        let c = mcollect(p);
        lemma_mfind(c, yv(l.0), 0);
        let w = minsert(c, l.0, l.1);
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies ord(w[i].0, n) && ord(w[i].1, n) by {
            match mfind(c, yv(l.0), 0) {
                Some(x) => { if i < w.len() - 1 { assert(w[i] == c[if i < x { i } else { i + 1 }]); } else { assert(w[i] == (c[x].0, l.1)); } }
                None => { if i < c.len() { assert(w[i] == c[i]); } else { assert(w[i] == (l.0, l.1)); } }
            }
        }
    }
}
pub proof fn lemma_mc(m: Seq<(Node, Node)>, lo: int, hi: int, len: int)
    requires mpl(m, lo, hi, len)
    ensures mpl(mcollect(m), lo, hi, len)
    decreases m.len()
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    if m.len() > 0 {
        let p = m.drop_last();
        let l = m.last();
        assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies p[i] == m[i] by {}
        assert(mpl(p, lo, hi, len));
        assert(m[m.len() - 1] == l);
        assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies ord(p[i].0, l.1) && ord(p[i].1, l.1) by { assert(p[i] == m[i]); lemma_ord(m[i].0, m[i].1, l.1); }
        lemma_mc(p, lo, hi, len);
        lemma_mc_below(p, lo, hi, len, l.1);
        lemma_mpl_insert(mcollect(p), l.0, l.1, lo, hi, hi, len);
    }
}
pub proof fn lemma_mc_na(m: Seq<(Node, Node)>)
    requires mna(m)
    ensures mna(mcollect(m))
    decreases m.len()
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    if m.len() > 0 {
        let p = m.drop_last();
        let l = m.last();
        assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies p[i] == m[i] by {}
        assert(m[m.len() - 1] == l);
        lemma_mc_na(p);
        let c = mcollect(p);
        lemma_mfind(c, yv(l.0), 0);
        let w = minsert(c, l.0, l.1);
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies na(yv(w[i].0)) && na(yv(w[i].1)) by {
            match mfind(c, yv(l.0), 0) {
                Some(x) => { if i < w.len() - 1 { assert(w[i] == c[if i < x { i } else { i + 1 }]); } else { assert(w[i] == (c[x].0, l.1)); } }
                None => { if i < c.len() { assert(w[i] == c[i]); } else { assert(w[i] == (l.0, l.1)); } }
            }
        }
    }
}
pub proof fn lemma_seq_value(v: Seq<Node>, y: Yaml, lo: int, hi: int, len: int)
    requires y is Seq, y->Seq_0@ == v, spl(v, lo, hi, len)
    ensures pl(y, len), within(y, lo, hi)
{ reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);}
pub proof fn lemma_map_value(m: Seq<(Node, Node)>, y: Yaml, lo: int, hi: int, len: int)
    requires y is Map, y->Map_0.v@ == mcollect(m), mpl(m, lo, hi, len)
    ensures pl(y, len), within(y, lo, hi)
{
    reveal(na); reveal(within); reveal(ord); reveal(pl); reveal(placed); reveal(node_ok); reveal(spl); reveal(mpl); reveal(sna); reveal(mna);
    lemma_mc(m, lo, hi, len);
    let c = mcollect(m);
    assert forall|i: int| #![trigger c[i]] 0 <= i < c.len() implies c[i].0.pos < c[i].1.pos by { assert(ord(c[i].0, c[i].1)); }
}

pub proof fn lemma_map_res(m: Seq<(Node, Node)>, r: PResult<Rc<Yaml>>, lo: int, hi: int, len: int)
    requires r is Ok ==> *r->Ok_0 is Map && (*r->Ok_0)->Map_0.v@ == mcollect(m) && mpl(m, lo, hi, len)
    ensures r is Ok ==> pl(*r->Ok_0, len) && within(*r->Ok_0, lo, hi)
{ if r is Ok { lemma_map_value(m, rv(r->Ok_0), lo, hi, len); } }
pub proof fn lemma_seq_res(v: Seq<Node>, r: PResult<Rc<Yaml>>, lo: int, hi: int, len: int)
    requires r is Ok ==> *r->Ok_0 is Seq && (*r->Ok_0)->Seq_0@ == v && spl(v, lo, hi, len)
    ensures r is Ok ==> pl(*r->Ok_0, len) && within(*r->Ok_0, lo, hi)
{ if r is Ok { lemma_seq_value(v, rv(r->Ok_0), lo, hi, len); } }
pub open spec fn rv(r: Rc<Yaml>) -> Yaml { *r }

// ---- anchors

/// The anchored nodes are in front of `hi`.
#[verifier::opaque]
pub open spec fn tpl(t: Map<Seq<char>, Node>, hi: int, len: int) -> bool { forall|a: Seq<char>| #[trigger] t.dom().contains(a) ==> node_ok(t[a], len) && within(yv(t[a]), 0, hi) }
/// No alias behind an anchor.
#[verifier::opaque]
pub open spec fn tna(t: Map<Seq<char>, Node>) -> bool { forall|a: Seq<char>| #[trigger] t.dom().contains(a) ==> na(yv(t[a])) }
/// The tables of all documents.
#[verifier::opaque]
pub open spec fn atna(a: Seq<Anchors>) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> tna(a[i]@) }
#[verifier::opaque]
pub open spec fn atpl(a: Seq<Anchors>, len: int) -> bool { forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> tpl(a[i]@, len, len) }
pub proof fn lemma_tables(a: Seq<Anchors>, b: Seq<Anchors>, hi: int, len: int)
    requires b.len() == a.len() + 1, b.subrange(0, a.len() as int) == a, hi <= len
    ensures atna(a) && tna(b[a.len() as int]@) ==> atna(b), atpl(a, len) && tpl(b[a.len() as int]@, hi, len) ==> atpl(b, len)
{
    reveal(atna); reveal(atpl);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == a[i] by { assert(b.subrange(0, a.len() as int)[i] == a[i]); }
    if tpl(b[a.len() as int]@, hi, len) { b_tpl(b[a.len() as int]@, hi, len, len); }
}
/// No anchor is lost or changed.
#[verifier::opaque]
pub open spec fn tle(t: Map<Seq<char>, Node>, u: Map<Seq<char>, Node>) -> bool { forall|a: Seq<char>| #[trigger] t.dom().contains(a) ==> u.dom().contains(a) && u[a] == t[a] }
/// A value which came with an alias.
#[verifier::opaque]
pub open spec fn af(t: Map<Seq<char>, Node>, y: Yaml) -> bool { exists|a: Seq<char>| #[trigger] t.dom().contains(a) && y == yv(t[a]) }
/// The items are behind `lo`, or the value came with an alias.
pub open spec fn io(y: Yaml, lo: int, hi: int, t: Map<Seq<char>, Node>) -> bool { within(y, lo, hi) || af(t, y) }

pub broadcast proof fn b_leaf_na(y: Yaml)
    ensures !(y is Seq || y is Map || y is Alias) ==> #[trigger] na(y)
{ reveal(na); }
pub broadcast proof fn b_leaf_pl(y: Yaml, len: int)
    ensures !(y is Seq || y is Map) ==> #[trigger] pl(y, len)
{ reveal(pl); }
pub broadcast proof fn b_leaf_within(y: Yaml, lo: int, hi: int)
    ensures !(y is Seq || y is Map) ==> #[trigger] within(y, lo, hi)
{ reveal(within); }
pub broadcast proof fn b_within(y: Yaml, a: int, b: int, c: int, d: int)
    requires #[trigger] within(y, a, b), c <= a, b <= d
    ensures #[trigger] within(y, c, d)
{ reveal(within); }
pub broadcast proof fn b_tpl(t: Map<Seq<char>, Node>, h1: int, h2: int, len: int)
    requires #[trigger] tpl(t, h1, len), h1 <= h2
    ensures #[trigger] tpl(t, h2, len)
{ reveal(tpl); reveal(within); }
pub broadcast proof fn b_tpl_empty(hi: int, len: int)
    ensures #[trigger] tpl(Map::empty(), hi, len)
{ reveal(tpl); }
pub broadcast proof fn b_tna_empty()
    ensures #[trigger] tna(Map::empty())
{ reveal(tna); }
pub broadcast proof fn b_tle_refl(t: Map<Seq<char>, Node>)
    ensures #[trigger] tle(t, t)
{ reveal(tle); }
pub broadcast proof fn b_tle(t: Map<Seq<char>, Node>, u: Map<Seq<char>, Node>, w: Map<Seq<char>, Node>)
    requires #[trigger] tle(t, u), #[trigger] tle(u, w)
    ensures tle(t, w)
{ reveal(tle); }
pub broadcast proof fn b_tle_insert(t: Map<Seq<char>, Node>, a: Seq<char>, n: Node)
    requires !t.dom().contains(a)
    ensures tle(t, #[trigger] t.insert(a, n))
{ reveal(tle); }
pub broadcast proof fn b_tna_insert(t: Map<Seq<char>, Node>, a: Seq<char>, n: Node)
    requires tna(t), na(yv(n))
    ensures #[trigger] tna(t.insert(a, n))
{ reveal(tna); }
pub broadcast proof fn b_tpl_insert(t: Map<Seq<char>, Node>, a: Seq<char>, n: Node, hi: int, len: int)
    requires tpl(t, hi, len), node_ok(n, len), within(yv(n), 0, hi)
    ensures #[trigger] tpl(t.insert(a, n), hi, len)
{ reveal(tpl); }
pub broadcast proof fn b_af(t: Map<Seq<char>, Node>, a: Seq<char>)
    requires t.dom().contains(a)
    ensures af(t, yv(#[trigger] t[a]))
{ reveal(af); }
pub broadcast proof fn b_af_na(t: Map<Seq<char>, Node>, y: Yaml)
    requires #[trigger] af(t, y), tna(t)
    ensures #[trigger] na(y)
{ reveal(af); reveal(tna); }
pub broadcast proof fn b_af_pl(t: Map<Seq<char>, Node>, y: Yaml, hi: int, len: int)
    requires #[trigger] af(t, y), #[trigger] tpl(t, hi, len)
    ensures pl(y, len), within(y, 0, hi)
{ reveal(af); reveal(tpl); reveal(node_ok); }
/// A node around a value.
pub broadcast proof fn b_node(n: Node, hi: int, len: int, t: Map<Seq<char>, Node>, h0: int)
    requires pl(yv(n), len), #[trigger] io(yv(n), n.pos as int, hi, t), #[trigger] tpl(t, h0, len), 0 <= h0 <= n.pos <= hi <= len
    ensures #[trigger] node_ok(n, len), within(yv(n), 0, hi)
{
    if af(t, yv(n)) { b_af_pl(t, yv(n), h0, len); b_within(yv(n), 0, h0, 0, n.pos as int); b_within(yv(n), 0, h0, 0, hi); }
    else { b_within(yv(n), n.pos as int, hi, 0, hi); b_within(yv(n), n.pos as int, hi, n.pos as int, len); }
    reveal(node_ok); reveal(placed);
}
pub broadcast proof fn b_leaf_node(n: Node, len: int)
    requires !(yv(n) is Seq || yv(n) is Map), n.pos <= len
    ensures #[trigger] node_ok(n, len)
{ reveal(node_ok); reveal(placed); b_leaf_pl(yv(n), len); b_leaf_within(yv(n), n.pos as int, len); }
pub broadcast proof fn b_spl_empty(v: Seq<Node>, lo: int, hi: int, len: int)
    requires v.len() == 0
    ensures #[trigger] spl(v, lo, hi, len)
{ reveal(spl); }
pub broadcast proof fn b_spl_mono(v: Seq<Node>, lo: int, h1: int, h2: int, len: int)
    requires #[trigger] spl(v, lo, h1, len), h1 <= h2
    ensures #[trigger] spl(v, lo, h2, len)
{ lemma_spl_mono(v, lo, h1, h2, len); }
pub broadcast proof fn b_spl_push(v: Seq<Node>, n: Node, lo: int, h1: int, h2: int, len: int)
    requires #[trigger] spl(v, lo, h1, len), node_ok(n, len), lo <= n.pos <= h2, v.len() > 0 ==> h1 < n.pos, within(yv(n), 0, h2)
    ensures #[trigger] spl(v.push(n), lo, h2, len)
{ lemma_spl_push(v, n, lo, h1, h2, len); }
pub broadcast proof fn b_seq_value(y: Yaml, lo: int, hi: int, len: int)
    requires y is Seq, #[trigger] spl(y->Seq_0@, lo, hi, len)
    ensures pl(y, len), within(y, lo, hi)
{ lemma_seq_value(y->Seq_0@, y, lo, hi, len); }
pub broadcast proof fn b_mpl_empty(v: Seq<(Node, Node)>, lo: int, hi: int, len: int)
    requires v.len() == 0
    ensures #[trigger] mpl(v, lo, hi, len)
{ reveal(mpl); }
pub broadcast proof fn b_mpl_mono(v: Seq<(Node, Node)>, lo: int, h1: int, h2: int, len: int)
    requires #[trigger] mpl(v, lo, h1, len), h1 <= h2
    ensures #[trigger] mpl(v, lo, h2, len)
{ lemma_mpl_mono(v, lo, h1, h2, len); }
pub broadcast proof fn b_mpl_push(m: Seq<(Node, Node)>, k: Node, n: Node, lo: int, h1: int, h2: int, len: int)
    requires #[trigger] mpl(m, lo, h1, len), node_ok(k, len), node_ok(n, len), lo <= k.pos, h1 < k.pos, k.pos < n.pos, within(yv(k), 0, n.pos as int), n.pos <= h2, within(yv(n), 0, h2)
    ensures #[trigger] mpl(m.push((k, n)), lo, h2, len)
{ lemma_mpl_push(m, k, n, lo, h1, h2, len); }
pub broadcast proof fn b_map_value(m: Seq<(Node, Node)>, y: Yaml, lo: int, hi: int, len: int)
    requires y is Map, #[trigger] mpl(m, lo, hi, len), y->Map_0.v@ == #[trigger] mcollect(m)
    ensures #[trigger] pl(y, len), within(y, lo, hi)
{ lemma_map_value(m, y, lo, hi, len); }
pub broadcast proof fn b_sna_empty(v: Seq<Node>)
    requires v.len() == 0
    ensures #[trigger] sna(v)
{ reveal(sna); }
pub broadcast proof fn b_sna_push(v: Seq<Node>, n: Node)
    requires sna(v), na(yv(n))
    ensures #[trigger] sna(v.push(n))
{ reveal(sna); }
pub broadcast proof fn b_seq_na(y: Yaml)
    requires y is Seq, #[trigger] sna(y->Seq_0@)
    ensures na(y)
{ reveal(sna); reveal(na); }
pub broadcast proof fn b_mna_empty(v: Seq<(Node, Node)>)
    requires v.len() == 0
    ensures #[trigger] mna(v)
{ reveal(mna); }
pub broadcast proof fn b_mna_push(v: Seq<(Node, Node)>, k: Node, n: Node)
    requires mna(v), na(yv(k)), na(yv(n))
    ensures #[trigger] mna(v.push((k, n)))
{ reveal(mna); }
pub broadcast proof fn b_map_na(m: Seq<(Node, Node)>, y: Yaml)
    requires y is Map, mna(m), y->Map_0.v@ == #[trigger] mcollect(m)
    ensures #[trigger] na(y)
{ lemma_mc_na(m); reveal(mna); reveal(na); }
pub broadcast group group_tree { b_leaf_na, b_leaf_pl, b_leaf_within, b_within, b_tpl, b_tpl_empty, b_tna_empty, b_tle_refl, b_tle, b_tle_insert, b_tna_insert, b_tpl_insert, b_af, b_af_na, b_af_pl, b_node, b_leaf_node, b_spl_empty, b_spl_mono, b_spl_push, b_seq_value, b_mpl_empty, b_mpl_mono, b_mpl_push, b_map_value, b_sna_empty, b_sna_push, b_seq_na, b_mna_empty, b_mna_push, b_map_na }

impl<'a> Loader<'a> {
    /// The anchors of this document.
    pub open spec fn tab(&self) -> Map<Seq<char>, Node> { self.anchors@[self.doc_ind as int]@ }
    pub open spec fn past(&self) -> Seq<Anchors> { self.anchors@.subrange(0, self.doc_ind as int) }
    pub open spec fn len(&self) -> int { self.parser.doc@.len() as int }
    pub open spec fn at(&self) -> int { self.parser.pos as int }
    pub open spec fn from(&self) -> int { self.parser.eaten as int }
    pub open spec fn tab_na(&self) -> bool { !self.cyclic_mode ==> tna(self.tab()) }
    pub open spec fn tab_pl(&self) -> bool { tpl(self.tab(), self.from(), self.len()) }
    /// No anchor is lost or changed, those of other documents are untouched.
    pub open spec fn grown(&self, o: &Self) -> bool { tle(o.tab(), self.tab()) && self.past() == o.past() }
    /// The key of a pair, or the value in place of a map.
    pub open spec fn knas(&self, r: PResult<Flow<Node, Rc<Yaml>>>) -> bool {
        !self.cyclic_mode ==> match r { Ok(Flow::Val(k)) => na(yv(k)), Ok(Flow::Ret(y)) => na(*y), _ => true }
    }
    pub open spec fn kpls(&self, o: &Self, r: PResult<Flow<Node, Rc<Yaml>>>) -> bool {
        match r {
            Ok(Flow::Val(k)) => self.at() >= k.pos && o.at() <= k.pos && pl(yv(k), o.len()) && node_ok(k, o.len()) && within(yv(k), 0, self.at()) && io(yv(k), k.pos as int, self.at(), o.tab()),
            Ok(Flow::Ret(y)) => pl(*y, o.len()) && io(*y, o.from(), self.at(), o.tab()),
            _ => true,
        }
    }
    pub open spec fn next(&self, o: &Self, r: PResult<Flow<Node, Rc<Yaml>>>, n: int) -> bool {
        match r {
            Ok(Flow::Val(k)) => self.at() > k.pos && within(yv(k), 0, self.at() - 1) && (n > 0 ==> o.at() < k.pos),
            _ => true,
        }
    }
}
