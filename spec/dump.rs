// Dumping: the text of a node.

impl vstd::std_specs::cmp::PartialEqSpecImpl for Root {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Root) -> bool { *self == *o }
}
/// Derived.
impl PartialEq for Root {
    fn eq(&self, o: &Root) -> (r: bool)
    { match (self, o) { (Root::Scalar, Root::Scalar) => true, (Root::Map, Root::Map) => true, (Root::Array, Root::Array) => true, _ => false } }
}
/// The entries of a table in the order of its iterator.
pub uninterp spec fn aentries(t: AMap) -> Seq<(Str, Node)>;
#[verifier::external_body]
pub proof fn axiom_entries(t: AMap)
    ensures
        forall|i: int| 0 <= i < (#[trigger] aentries(t)).len() ==> t@.dom().contains((#[trigger] aentries(t)[i]).0@) && t@[aentries(t)[i].0@] == aentries(t)[i].1,
        forall|k: Seq<char>| #[trigger] t@.dom().contains(k) ==> exists|i: int| 0 <= i < aentries(t).len() && (#[trigger] aentries(t)[i]).0@ == k,
{}
impl VSeq for AMap { type Item = (Str, Node); open spec fn vseq(&self) -> Seq<(Str, Node)> { aentries(*self) }
    #[verifier::external_body]
    fn vs_seq(&self) -> (r: &[(Str, Node)]) { unimplemented!() } }
/// `str::lines`
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
/// `{:?}` of a text
pub uninterp spec fn dbg_text(s: Seq<char>) -> Seq<char>;
pub open spec fn views(s: Seq<&Str>) -> Seq<Seq<char>> { s.map_values(|x: &Str| x@) }
pub open spec fn views_own(s: Seq<Str>) -> Seq<Seq<char>> { s.map_values(|x: Str| x@) }
pub open spec fn joined(s: Seq<Seq<char>>, p: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), p) + p + s.last() }
}
impl Str {
    #[verifier::external_body]
    pub fn vs_lines(&self) -> (r: Vec<&Str>) ensures views(r@) == lines_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vs_fmt_debug(&self, f: &mut Str) ensures final(f)@ == old(f)@ + dbg_text(self@) { unimplemented!() }
}
/// `Iterator::nth` at the start
#[verifier::external_body]
pub fn vs_nth<T>(v: &Vec<T>, n: usize) -> (r: Option<&T>) ensures r is Some == (n < v@.len()), r is Some ==> *r->Some_0 == v@[n as int] { unimplemented!() }
#[verifier::external_body]
pub fn vs_join(v: &Vec<Str>, p: &Str) -> (r: Str) ensures r@ == joined(views_own(v@), p@) { unimplemented!() }
impl VFmt for bool { open spec fn ftext(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } }
    #[verifier::external_body]
    fn vs_fmt(&self, f: &mut Str) { unimplemented!() } }

// ---- the text of a node

pub open spec fn nl() -> Seq<char> { seq!['\n'] }
pub open spec fn dind(lv: nat) -> Seq<char> { reps("  "@, lv) }
/// The first entry with an equal node.
pub open spec fn afind(t: Seq<(Str, Node)>, n: Node, i: int) -> Option<Seq<char>>
    decreases t.len() - i
{
    if i < 0 || i >= t.len() { None } else if neq(t[i].1, n) { Some(t[i].0@) } else { afind(t, n, i + 1) }
}
pub open spec fn danchor(n: Node, t: Seq<(Str, Node)>) -> Seq<char> {
    match afind(t, n, 0) { Some(a) => seq!['&'] + a + seq![' '], None => Seq::empty() }
}
pub open spec fn dtag(n: Node) -> Seq<char> {
    let g = node_tag(n);
    if g.len() == 0 || "tag:yaml.org,2002:"@.is_prefix_of(g) { Seq::empty() }
    else if m_ident(utf8_enc(g), 0) is Some { seq!['!'] + g + seq![' '] }
    else { seq!['!', '<'] + g + seq!['>', ' '] }
}
pub open spec fn dline(s: Seq<char>, lv: nat) -> Seq<char> { if s.len() == 0 { s } else { dind(lv) + trim_end(s) } }
pub open spec fn dlines(s: Seq<Seq<char>>, lv: nat) -> Seq<Seq<char>> { s.map_values(|x: Seq<char>| dline(x, lv)) }
/// A string: a literal block when it has lines, a quoted string when it cannot be plain.
pub open spec fn dstr(s: Seq<char>, lv: nat) -> Seq<char> {
    if lines_of(s).len() >= 2 { seq!['|'] + nl() + dind(lv) + trim_start(trim_end(joined(dlines(lines_of(s), lv), nl()))) }
    else if plain_fn(utf8_enc(s), 0, seq![0usize], 0, false).0 is None { dbg_text(s) }
    else { s }
}
pub open spec fn dblock(n: Node) -> bool {
    match yv(n) { Yaml::Map(m) => m.v@.len() > 0, Yaml::Seq(v) => v@.len() > 0, _ => false }
}
/// The text of a node inside of `root`, at a level, with a table of anchors.
pub open spec fn dnode(n: Node, root: Root, lv: nat, t: Seq<(Str, Node)>) -> Seq<char>
    decreases n
{
    danchor(n, t) + dtag(n) + dval(*n.yaml, root, lv, t)
}
pub open spec fn dval(y: Yaml, root: Root, lv: nat, t: Seq<(Str, Node)>) -> Seq<char>
    decreases y, 0nat
{
    match y {
        Yaml::Null => "null"@,
        Yaml::Bool(b) => if b { "true"@ } else { "false"@ },
        Yaml::Int(s) => s@,
        Yaml::Float(s) => s@,
        Yaml::Str(s) => dstr(s@, lv),
        Yaml::Alias(a) => seq!['*'] + a@,
        Yaml::Seq(v) => if v@.len() == 0 { "[]"@ } else { ditems(v, v@.len(), lv, t).drop_last() },
        Yaml::Map(m) => if m.v@.len() == 0 { "{}"@ } else { dpairs(m, m.v@.len(), root, lv, t).drop_last() },
    }
}
pub open spec fn dfirst(root: Root) -> Seq<char> { if root is Map { nl() } else { Seq::empty() } }
/// The first items, one per line.
pub open spec fn ditems(v: Vec<Node>, k: nat, lv: nat, t: Seq<(Str, Node)>) -> Seq<char>
    decreases v, k
{
    if k == 0 || k > v@.len() { nl() }
    else {
        ditem(ditems(v, (k - 1) as nat, lv, t), danchor(v@[k - 1], t) + dtag(v@[k - 1]) + dval(*v@[k - 1].yaml, Root::Array, lv + 1, t), k > 1 || lv > 0, lv)
    }
}
/// A line is added: `- item`.
pub open spec fn ditem(pre: Seq<char>, it: Seq<char>, ind: bool, lv: nat) -> Seq<char> {
    let b = if ind { pre + dind(lv) } else { pre };
    b + seq!['-', ' '] + it + nl()
}
/// The first pairs, one per line.
pub open spec fn dpairs(m: LMap, k: nat, root: Root, lv: nat, t: Seq<(Str, Node)>) -> Seq<char>
    decreases m, k
{
    if k == 0 || k > m.v@.len() { dfirst(root) }
    else {
        let key = m.v@[k - 1].0;
        let val = m.v@[k - 1].1;
        let kt = danchor(key, t) + dtag(key) + dval(*key.yaml, Root::Map, lv + 1, t);
        let vl = if yv(val) is Seq && root is Array && k == 1 { lv } else { lv + 1 };
        let vt = danchor(val, t) + dtag(val) + dval(*val.yaml, Root::Map, vl, t);
        dpair(dpairs(m, (k - 1) as nat, root, lv, t), key, kt, vt, k > 1 || root is Map, lv)
    }
}
/// A line is added: `key: value`, or `?`, the key and `: value`.
pub open spec fn dpair(pre: Seq<char>, key: Node, kt: Seq<char>, vt: Seq<char>, ind: bool, lv: nat) -> Seq<char> {
    let a = if ind { pre + dind(lv) } else { pre };
    let b = if dblock(key) { a + seq!['?'] + dind(lv + 1) + nl() + kt + nl() + dind(lv) } else { a + kt };
    let c = b + seq![':'];
    let d = if nl().is_prefix_of(vt) { c } else { c + seq![' '] };
    d + vt + nl()
}
/// Depth below `d`, texts below 2 GiB.
pub open spec fn nfit(y: Yaml, d: nat) -> bool
    decreases y
{
    match y {
        Yaml::Str(s) => blen(s@) <= lim(),
        Yaml::Seq(v) => d > 0 && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i].tag@.len() >= 0 && blen(node_tag(v@[i])) <= lim() && nfit(*v@[i].yaml, (d - 1) as nat),
        Yaml::Map(m) => d > 0 && forall|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() ==>
            blen(node_tag(m.v@[i].0)) <= lim() && blen(node_tag(m.v@[i].1)) <= lim() && nfit(*m.v@[i].0.yaml, (d - 1) as nat) && nfit(*m.v@[i].1.yaml, (d - 1) as nat),
        _ => true,
    }
}
pub open spec fn dfit(n: Node, lv: int) -> bool { 0 <= lv <= dmax() && blen(node_tag(n)) <= lim() && nfit(yv(n), (dmax() - lv) as nat) }
pub open spec fn dmax() -> int { 0x800_0000_0000_0000 }
pub proof fn lemma_nfit_mono(y: Yaml, a: nat, b: nat)
    requires nfit(y, a), a <= b
    ensures nfit(y, b)
    decreases y
{
    match y {
        Yaml::Seq(v) => {
            assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies v@[i].tag@.len() >= 0 && blen(node_tag(v@[i])) <= lim() && nfit(*v@[i].yaml, (b - 1) as nat) by {
                lemma_nfit_mono(*v@[i].yaml, (a - 1) as nat, (b - 1) as nat);
            }
        }
        Yaml::Map(m) => {
            assert forall|i: int| #![trigger m.v@[i]] 0 <= i < m.v@.len() implies
                blen(node_tag(m.v@[i].0)) <= lim() && blen(node_tag(m.v@[i].1)) <= lim() && nfit(*m.v@[i].0.yaml, (b - 1) as nat) && nfit(*m.v@[i].1.yaml, (b - 1) as nat) by {
                lemma_nfit_mono(*m.v@[i].0.yaml, (a - 1) as nat, (b - 1) as nat);
                lemma_nfit_mono(*m.v@[i].1.yaml, (a - 1) as nat, (b - 1) as nat);
            }
        }
        _ => {}
    }
}
// ---- documents

pub open spec fn ttable(a: Seq<Anchors>, i: int) -> Seq<(Str, Node)> { if 0 <= i < a.len() { aentries(a[i]) } else { Seq::empty() } }
pub open spec fn ddoc(n: Node, t: Seq<(Str, Node)>, i: int) -> Seq<char> {
    let d = dnode(n, Root::Scalar, 0, t) + nl();
    if i == 0 { d } else { seq!['-', '-', '-', '\n'] + trim_start(d) }
}
/// The text of the first documents.
pub open spec fn dstream(n: Seq<Node>, a: Seq<Anchors>, k: nat) -> Seq<char>
    decreases k
{
    if k == 0 || k > n.len() { Seq::empty() } else { dstream(n, a, (k - 1) as nat) + ddoc(n[k - 1], ttable(a, k - 1), k - 1) }
}
pub open spec fn cc(s: &str, t: Seq<char>) -> bool { s@ =~= t }
/// The characters of the literals.
pub proof fn lemma_lits()
    ensures
        "&"@ == seq!['&'], " "@ == seq![' '], "!"@ == seq!['!'], "!<"@ == seq!['!', '<'], "> "@ == seq!['>', ' '], "- "@ == seq!['-', ' '],
        "?"@ == seq!['?'], ":"@ == seq![':'], "\n"@ == seq!['\n'], "|"@ == seq!['|'], "*"@ == seq!['*'], "---"@ == seq!['-', '-', '-'],
        "---\n"@ == seq!['-', '-', '-', '\n'], blen("  "@) == 2, blen("\n"@) == 1,
{
    reveal_strlit("&"); reveal_strlit(" "); reveal_strlit("!"); reveal_strlit("!<"); reveal_strlit("> "); reveal_strlit("- ");
    reveal_strlit("?"); reveal_strlit(":"); reveal_strlit("\n"); reveal_strlit("|"); reveal_strlit("*"); reveal_strlit("---"); reveal_strlit("---\n"); reveal_strlit("  ");
    assert("&"@ =~= seq!['&']); assert(" "@ =~= seq![' ']); assert("!"@ =~= seq!['!']); assert("!<"@ =~= seq!['!', '<']);
    assert("> "@ =~= seq!['>', ' ']); assert("- "@ =~= seq!['-', ' ']); assert("?"@ =~= seq!['?']); assert(":"@ =~= seq![':']);
    assert("\n"@ =~= seq!['\n']); assert("|"@ =~= seq!['|']); assert("*"@ =~= seq!['*']); assert("---"@ =~= seq!['-', '-', '-']);
    assert("---\n"@ =~= seq!['-', '-', '-', '\n']);
    reveal_with_fuel(blen, 4);
    assert("  "@.drop_last().drop_last() =~= Seq::<char>::empty());
    assert("\n"@.drop_last() =~= Seq::<char>::empty());
}
/// The last line break can be cut off.
pub proof fn lemma_cut(s: Seq<char>)
    requires s.len() > 0, s.last() == '\n'
    ensures blen(s) == blen(s.drop_last()) + 1, s.take(s.len() - 1) == s.drop_last(), blen(s.take(s.len() - 1)) == blen(s) - 1
{ assert(s.take(s.len() - 1) =~= s.drop_last()); }
pub proof fn lemma_ditems_nl(v: Vec<Node>, k: nat, lv: nat, t: Seq<(Str, Node)>)
    requires 0 < k <= v@.len()
    ensures ditems(v, k, lv, t).len() > 0, ditems(v, k, lv, t).last() == '\n'
{}
pub proof fn lemma_dpairs_nl(m: LMap, k: nat, root: Root, lv: nat, t: Seq<(Str, Node)>)
    requires 0 < k <= m.v@.len()
    ensures dpairs(m, k, root, lv, t).len() > 0, dpairs(m, k, root, lv, t).last() == '\n'
{}
pub open spec fn oview(o: Option<&Str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub proof fn lemma_no_entries(t: AMap)
    requires t@ == Map::<Seq<char>, Node>::empty()
    ensures aentries(t) == Seq::<(Str, Node)>::empty()
{
    axiom_entries(t);
    if aentries(t).len() > 0 { assert(t@.dom().contains(aentries(t)[0].0@)); }
    assert(aentries(t) =~= Seq::<(Str, Node)>::empty());
}
proof fn lemma_trim_last(s: Seq<char>)
    ensures trim_start(s).len() > 0 ==> trim_start(s).last() == s.last()
    decreases s.len()
{ if s.len() > 0 && ws_char(s[0]) { lemma_trim_last(s.drop_first()); } }
/// The text ends with a line break.
pub proof fn law_dump_end(n: Seq<Node>, a: Seq<Anchors>, k: nat)
    requires 0 < k <= n.len()
    ensures dstream(n, a, k).len() > 0, dstream(n, a, k).last() == '\n'
{
    lemma_trim_last(dnode(n[k - 1], Root::Scalar, 0, ttable(a, k - 1)) + nl());
}
/// Every document but the first begins with its own line.
pub proof fn law_dump_marker(n: Seq<Node>, a: Seq<Anchors>, k: nat)
    requires 1 < k <= n.len()
    ensures
        dstream(n, a, k) == dstream(n, a, (k - 1) as nat) + (seq!['-', '-', '-', '\n'] + trim_start(dnode(n[k - 1], Root::Scalar, 0, ttable(a, k - 1)) + nl())),
        dstream(n, a, (k - 1) as nat).last() == '\n',
{ law_dump_end(n, a, (k - 1) as nat); }
/// The forms of the values, for a node without anchor and tag.
pub proof fn law_dump_forms(n: Node, root: Root, lv: nat, t: Seq<(Str, Node)>)
    requires afind(t, n, 0) is None, n.tag@.len() == 0
    ensures
        yv(n) is Null ==> dnode(n, root, lv, t) == "null"@,
        yv(n) is Bool ==> dnode(n, root, lv, t) == (if yv(n)->Bool_0 { "true"@ } else { "false"@ }),
        yv(n) is Int ==> dnode(n, root, lv, t) == yv(n)->Int_0@,
        yv(n) is Float ==> dnode(n, root, lv, t) == yv(n)->Float_0@,
        yv(n) is Alias ==> dnode(n, root, lv, t) == seq!['*'] + yv(n)->Alias_0@,
        yv(n) is Seq && yv(n)->Seq_0@.len() == 0 ==> dnode(n, root, lv, t) == "[]"@,
        yv(n) is Map && yv(n)->Map_0.v@.len() == 0 ==> dnode(n, root, lv, t) == "{}"@,
{
    lemma_core_tags();
    assert(danchor(n, t) + dtag(n) =~= Seq::<char>::empty());
    assert(Seq::<char>::empty() + dval(*n.yaml, root, lv, t) =~= dval(*n.yaml, root, lv, t));
}
proof fn lemma_core_tags()
    ensures forall|n: Node| n.tag@.len() == 0 ==> #[trigger] dtag(n) == Seq::<char>::empty()
{
    reveal_strlit("tag:yaml.org,2002:"); reveal_strlit("tag:yaml.org,2002:null"); reveal_strlit("tag:yaml.org,2002:bool"); reveal_strlit("tag:yaml.org,2002:int");
    reveal_strlit("tag:yaml.org,2002:float"); reveal_strlit("tag:yaml.org,2002:str"); reveal_strlit("tag:yaml.org,2002:seq"); reveal_strlit("tag:yaml.org,2002:map");
    assert forall|n: Node| n.tag@.len() == 0 implies #[trigger] dtag(n) == Seq::<char>::empty() by {
        if node_tag(n).len() > 0 { assert("tag:yaml.org,2002:"@ =~= node_tag(n).take(18)); assert("tag:yaml.org,2002:"@.is_prefix_of(node_tag(n))); }
    }
}
