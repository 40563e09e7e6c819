// The round trip through the real functions, by their contracts.

proof fn lemma_blen_asc(t: Seq<char>)
    requires asc(t)
    ensures blen(t) == t.len()
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last();
        assert forall|k: int| 0 <= k < u.len() implies (#[trigger] u[k] as u32) < 0x80 by { assert((t[k] as u32) < 0x80); }
        lemma_blen_asc(u);
        assert((t[t.len() - 1] as u32) < 0x80);
    }
}
/// Dump and parse.
pub fn round_trip(nodes: &[Node]) -> (r: Result<Vec<Node>, PError>)
    requires
        reg_docs(nodes@), nodes@.len() > 0, dstream(nodes@, Seq::empty(), nodes@.len()).len() < 0x3fff_ffff,
        forall|i: int| 0 <= i < nodes@.len() ==> dfit(#[trigger] nodes@[i], 0),
    ensures r is Ok, r->Ok_0@.len() == nodes@.len(), forall|i: int| #![trigger nodes@[i]] 0 <= i < nodes@.len() ==> neq(nodes@[i], r->Ok_0@[i])
{
    let none: Vec<Anchors> = Vec::new();
    let t = dump(nodes, none.as_slice());
    proof {
        assert(no_tables(none@)) by { assert forall|i: int| #[trigger] ttable(none@, i) == no_tab() by {} }
        assert(none@ =~= Seq::<Anchors>::empty());
        law_round(nodes@, none@, false);
        lemma_docs_asc(nodes@, none@, nodes@.len() as int);
        lemma_blen_asc(t@);
    }
    parse(&t)
}
