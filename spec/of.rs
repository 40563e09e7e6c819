/// Equal contents mean equal values.
pub uninterp spec fn str_of(t: Seq<char>) -> Str;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub uninterp spec fn rc_of(y: Yaml) -> Rc<Yaml>;
#[verifier::external_body]
pub broadcast proof fn axiom_str_of(s: Str)
    ensures #[trigger] str_of(s@) == s
{}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_of<T>(v: Vec<T>)
    ensures #[trigger] vec_of(v@) == v
{}
#[verifier::external_body]
pub broadcast proof fn axiom_rc_of(r: Rc<Yaml>)
    ensures #[trigger] rc_of(*r) == r
{}
pub broadcast group group_of { axiom_str_of, axiom_vec_of, axiom_rc_of }

/// Every text, every row of items and every value is that of something.
#[verifier::external_body]
pub broadcast proof fn axiom_str_text(t: Seq<char>)
    ensures (#[trigger] str_of(t))@ == t
{}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_items<T>(s: Seq<T>)
    requires s.len() <= usize::MAX
    ensures (#[trigger] vec_of(s))@ == s
{}
#[verifier::external_body]
pub broadcast proof fn axiom_rc_value(y: Yaml)
    ensures *(#[trigger] rc_of(y)) == y
{}
pub broadcast group group_values { axiom_str_text, axiom_vec_items, axiom_rc_value }

