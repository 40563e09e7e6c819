// The loader: state and facts about the progress of the cursor.

pub broadcast proof fn lemma_bound_ge(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len(), #[trigger] m_bound(d, i) is Some
    ensures i <= m_bound(d, i)->Some_0 <= d.len()
{ lemma_run_bound(p_blank(), d, i); }
pub broadcast proof fn lemma_take_ge(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int, opt: TakeOpt)
    requires 0 <= i <= d.len()
    ensures (#[trigger] m_take(p, d, i, opt)) is Some ==> i <= m_take(p, d, i, opt)->Some_0 && (opt is More && opt->More_0 > 0 ==> i < m_take(p, d, i, opt)->Some_0),
        opt == TakeOpt::More(0) ==> m_take(p, d, i, opt) is Some
{ lemma_run_bound(p, d, i); }
pub broadcast proof fn lemma_gap_fail_ge(d: Seq<u8>, i: int, cmt: bool)
    requires 0 <= i <= d.len()
    ensures i <= #[trigger] gap_fail(d, i, cmt)
{ lemma_run_bound(p_blank(), d, i); lemma_skip_comment(d, run(p_blank(), d, i)); }
pub broadcast group group_ge { lemma_bound_ge, lemma_take_ge, lemma_gap_fail_ge, lemma_gap_kept }


/// A missing gap does not move the cursor.
pub open spec fn gap_kept(d: Seq<u8>, i: int) -> bool { m_gap(d, i, true) is None ==> gap_fail(d, i, true) == i }
pub broadcast proof fn lemma_gap_kept(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures #[trigger] gap_kept(d, gap_fail(d, i, true))
{
    lemma_run_bound(p_blank(), d, i);
    lemma_skip_comment(d, run(p_blank(), d, i));
    assert(skip_comment(d, run(p_blank(), d, d.len() as int)) == d.len());
}
/// The text is below 1 GiB.
pub open spec fn text_ok(d: Seq<u8>) -> bool { d.len() < 0x3fff_ffff }

impl<'a> Loader<'a> {
    /// Between two documents.
    pub open spec fn wf(&self) -> bool {
        &&& self.parser.wf() && text_ok(self.parser.doc@)
        &&& self.doc_ind <= self.anchors@.len()
    }
    /// Inside a document.
    pub open spec fn inside(&self) -> bool {
        self.wf() && self.doc_ind < self.anchors@.len()
    }
    /// The same text, and not before the checkpoint.
    pub open spec fn kept(&self, o: &Self) -> bool {
        &&& self.wf() && self.parser.doc@ == o.parser.doc@ && self.parser.eaten >= o.parser.eaten
        &&& self.doc_ind == o.doc_ind && self.anchors@.len() == o.anchors@.len() && self.cyclic_mode == o.cyclic_mode
    }
}
/// The end of a document is here.
pub open spec fn at_doc_end(d: Seq<u8>, i: int) -> bool {
    i >= d.len() || lit_at(d, i, seq![45u8, 45u8, 45u8]) || lit_at(d, i, seq![46u8, 46u8, 46u8])
}
/// The exits of a part of a method.
pub enum Flow<V, R> { Val(V), Ret(R), Brk }
