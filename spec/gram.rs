// The grammar of documents: what the loader has to read at a cursor.

/// What never changes within a document.
pub ghost struct GE { pub d: Seq<u8>, pub tags: Map<Seq<char>, Seq<char>>, pub cyc: bool }
/// The cursor, the checkpoint, the indentation and the anchors.
pub ghost struct GS { pub pos: int, pub eaten: int, pub ind: Seq<usize>, pub anc: Map<Seq<char>, Node> }
/// Matched, no match (the caller can try something else), error.
pub ghost enum GR<T> { Ok(T, GS), Mis(GS), Bad }

pub open spec fn to(s: GS, pos: int) -> GS { GS { pos, ..s } }
pub open spec fn fwd(s: GS) -> GS { GS { eaten: s.pos, ..s } }
pub open spec fn back(s: GS) -> GS { GS { pos: s.eaten, ..s } }
/// A primitive: over the match, or back to the checkpoint.
pub open spec fn step(s: GS, m: Option<int>) -> GS { match m { Some(e) => to(s, e), None => back(s) } }
pub open spec fn gapped(e: GE, s: GS) -> GS {
    match m_gap(e.d, s.pos, true) { Some(g) => to(s, g.0), None => to(s, gap_fail(e.d, s.pos, true)) }
}
pub open spec fn has_gap(e: GE, s: GS) -> bool { m_gap(e.d, s.pos, true) is Some }
pub open spec fn white_to(e: GE, s: GS) -> GS { to(s, run(p_white(), e.d, s.pos)) }
pub open spec fn blank_to(e: GE, s: GS) -> GS { to(s, run(p_blank(), e.d, s.pos)) }
pub open spec fn has_ind(e: GE, s: GS, level: int) -> bool { m_ind(e.d, s.pos, s.ind, level) is Some }
pub open spec fn indented(e: GE, s: GS, level: int) -> GS {
    GS { ind: ind_widths(s.ind, level), ..step(s, m_ind(e.d, s.pos, s.ind, level)) }
}
pub open spec fn has_def(e: GE, s: GS, level: int) -> bool { m_ind_define(e.d, s.pos, s.ind, level) is Some }
pub open spec fn defined(e: GE, s: GS, level: int) -> GS {
    GS { ind: ind_define_widths(e.d, s.pos, s.ind, level), ..step(s, m_ind_define(e.d, s.pos, s.ind, level)) }
}
/// Inside the text and not before `lo`.
pub open spec fn adv(e: GE, s: GS, lo: int) -> bool { 0 <= s.eaten <= s.pos <= e.d.len() && lo <= s.pos }

/// The node of a value.
pub open spec fn node_of(pos: int, tag: Seq<char>, y: Yaml) -> Node { Node { pos: pos as u64, tag: str_of(tag), yaml: rc_of(y) } }
pub open spec fn y_str(t: Seq<char>) -> Yaml { Yaml::Str(str_of(t)) }
pub open spec fn y_seq(s: Seq<Node>) -> Yaml { Yaml::Seq(vec_of(s)) }
pub open spec fn y_map(s: Seq<(Node, Node)>) -> Yaml { Yaml::Map(LMap { v: vec_of(mcollect(s)) }) }

/// The meaning of a plain string.
pub open spec fn word(t: Seq<char>) -> Yaml {
    if t == "~"@ || t == "null"@ || t == "Null"@ || t == "NULL"@ { Yaml::Null }
    else if t == "true"@ || t == "True"@ || t == "TRUE"@ { Yaml::Bool(true) }
    else if t == "false"@ || t == "False"@ || t == "FALSE"@ { Yaml::Bool(false) }
    else if t == ".nan"@ || t == ".NaN"@ || t == ".NAN"@ { Yaml::Float(str_of("NaN"@)) }
    else if t == ".inf"@ || t == ".Inf"@ || t == ".INF"@ { Yaml::Float(str_of("inf"@)) }
    else if t == "-.inf"@ || t == "-.Inf"@ || t == "-.INF"@ { Yaml::Float(str_of("-inf"@)) }
    else { y_str(t) }
}

/// An anchor (with the sign) in front of a value.
pub open spec fn g_anchor(e: GE, s: GS) -> (Seq<char>, GS) {
    let m = m_name(e.d, s.pos, 38);
    (match m { Some(x) => utf8(e.d.subrange(s.pos + 1, x)), None => Seq::empty() }, step(s, m))
}
pub open spec fn g_p1(e: GE, s: GS) -> GR<Seq<char>> {
    let (a, s1) = g_anchor(e, s);
    if a.len() == 0 { GR::Ok(a, fwd(s1)) }
    else { match m_bound(e.d, s1.pos) { Some(x) => GR::Ok(a, fwd(to(s1, x))), None => GR::Mis(back(s1)) } }
}
pub open spec fn g_p2(e: GE, s: GS) -> GR<Seq<char>> {
    match m_tag(e.d, s.pos, e.tags) {
        TagRes::Undef => GR::Bad,
        TagRes::Tag(t, x) => match m_bound(e.d, x) { Some(y) => GR::Ok(t, fwd(to(s, y))), None => GR::Mis(back(s)) },
        TagRes::No => GR::Ok(Seq::empty(), fwd(back(s))),
    }
}
pub open spec fn g_p3(e: GE, s: GS, a: Seq<char>) -> GR<Seq<char>> {
    let (b, s1) = g_anchor(e, s);
    if b.len() == 0 { GR::Ok(a, fwd(s1)) }
    else if a.len() > 0 { GR::Bad }
    else { match m_bound(e.d, s1.pos) { Some(x) => GR::Ok(b, fwd(to(s1, x))), None => GR::Mis(back(s1)) } }
}
/// Anchor, tag, anchor: none of them twice.
pub open spec fn g_props(e: GE, s: GS) -> GR<(Seq<char>, Seq<char>)> {
    match g_p1(e, s) {
        GR::Ok(a, s1) => match g_p2(e, s1) {
            GR::Ok(t, s2) => match g_p3(e, s2, a) {
                GR::Ok(b, s3) => GR::Ok((b, t), s3),
                GR::Mis(x) => GR::Mis(x),
                GR::Bad => GR::Bad,
            },
            GR::Mis(x) => GR::Mis(x),
            GR::Bad => GR::Bad,
        },
        GR::Mis(x) => GR::Mis(x),
        GR::Bad => GR::Bad,
    }
}
/// The node around a value: an anchor is recorded once.
pub open spec fn g_finish(a: Seq<char>, t: Seq<char>, pos: int, r: GR<Yaml>) -> GR<Node> {
    match r {
        GR::Ok(y, s) => {
            let n = node_of(pos, t, y);
            if a.len() == 0 { GR::Ok(n, fwd(s)) }
            else if s.anc.dom().contains(a) { GR::Bad }
            else { GR::Ok(n, GS { anc: s.anc.insert(a, n), ..fwd(s) }) }
        }
        GR::Mis(s) => GR::Mis(s),
        GR::Bad => GR::Bad,
    }
}
/// What is left of a failure when nothing else can be tried.
pub open spec fn must<T>(r: GR<T>) -> GR<T> { match r { GR::Mis(_) => GR::Bad, _ => r } }

pub open spec fn g_scalar(e: GE, s: GS, level: int, map: bool, flow: bool) -> GR<Node>
    decreases e.d.len() - s.eaten, 40int
{
    if !(0 <= s.eaten <= e.d.len()) { GR::Bad } else {
    match g_props(e, s) {
        GR::Ok(p, s1) => if !(s.eaten <= s1.eaten <= e.d.len()) { GR::Bad } else { g_finish(p.0, p.1, s1.pos, g_value(e, s1, level, map, flow)) },
        GR::Mis(s1) => GR::Mis(s1),
        GR::Bad => GR::Bad,
    }
    }
}
pub open spec fn g_block(e: GE, s: GS, level: int, c: char) -> Option<(Yaml, GS)> {
    match m_block(e.d, s.pos, c, ind_len(s.ind, level)) {
        Some(x) => Some((y_str(x.0), GS { ind: block_ind_fn(e.d, s.pos, s.ind, level, c), ..to(s, x.1) })),
        None => None,
    }
}
pub open spec fn g_value(e: GE, s: GS, level: int, map: bool, flow: bool) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 39int
{
    if !(0 <= s.eaten <= e.d.len()) { GR::Bad } else {
    match g_block(e, s, level, '|') {
        Some(x) => GR::Ok(x.0, x.1),
        None => match g_block(e, back(s), level, '>') {
            Some(x) => GR::Ok(x.0, x.1),
            None => match g_seq(e, back(s), level, map) {
                GR::Mis(s1) => if !(s.eaten <= s1.eaten <= e.d.len()) { GR::Bad } else { match g_map(e, s1, level, map, flow) {
                    GR::Mis(s2) => if !(s.eaten <= s2.eaten <= e.d.len()) { GR::Bad } else { g_term(e, s2, level, flow) },
                    r => r,
                } },
                r => r,
            },
        },
    }
    }
}
pub open spec fn g_scalar_flow(e: GE, s: GS, level: int, flow: bool) -> GR<Node>
    decreases e.d.len() - s.eaten, 20int
{
    if !(0 <= s.eaten <= e.d.len()) { GR::Bad } else {
    match g_props(e, s) {
        GR::Ok(p, s1) => if !(s.eaten <= s1.eaten <= e.d.len()) { GR::Bad } else { g_finish(p.0, p.1, s1.pos, g_term(e, s1, level, flow)) },
        GR::Mis(s1) => GR::Mis(s1),
        GR::Bad => GR::Bad,
    }
    }
}
/// A number at `i`: its kind, its text and its end.
pub open spec fn g_number(d: Seq<u8>, i: int) -> Option<(Yaml, int)> {
    if m_end(m_float(d, i)) is Some { Some((Yaml::Float(str_of(utf8(float_text(d.subrange(i, m_float(d, i)->Some_0.0))))), m_end(m_float(d, i))->Some_0)) }
    else if m_end(m_sci(d, i)) is Some { Some((Yaml::Float(str_of(utf8(d.subrange(i, m_sci(d, i)->Some_0.0)))), m_end(m_sci(d, i))->Some_0)) }
    else if m_end(m_int(d, i)) is Some { Some((Yaml::Int(str_of(utf8(d.subrange(i, m_int(d, i)->Some_0.0)))), m_end(m_int(d, i))->Some_0)) }
    else { None }
}
pub open spec fn g_alias(e: GE, s: GS) -> GR<Yaml> {
    match m_name(e.d, s.pos, 42) {
        Some(x) => {
            let a = utf8(e.d.subrange(s.pos + 1, x));
            if e.cyc { GR::Ok(Yaml::Alias(str_of(a)), to(s, x)) }
            else if s.anc.dom().contains(a) { GR::Ok(yv(s.anc[a]), to(s, x)) }
            else { GR::Bad }
        }
        None => GR::Mis(back(s)),
    }
}
pub open spec fn g_quoted(e: GE, s: GS, sym: u8) -> GR<Yaml> {
    match close(e.d, s.pos + 1, sym) {
        None => GR::Bad,
        Some(x) => {
            let t = quoted_fn(e.d, s.pos, sym);
            GR::Ok(y_str(if sym == 34 { dec(t) } else { t }), to(s, x + 1))
        }
    }
}
/// Numbers, aliases, strings, flow collections, nothing.
pub open spec fn g_term(e: GE, s: GS, level: int, flow: bool) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 10int
{
    if !(0 <= s.eaten <= e.d.len()) { GR::Bad } else {
    match g_number(e.d, s.pos) {
        Some(x) => GR::Ok(x.0, to(s, x.1)),
        None => match g_alias(e, s) {
            GR::Mis(_) => if at(e.d, s.pos, 39) { g_quoted(e, s, 39) } else if at(e.d, s.pos, 34) { g_quoted(e, s, 34) } else {
                let p = plain_fn(e.d, s.pos, s.ind, level, flow);
                let s1 = GS { pos: p.1, ind: p.2, ..s };
                match p.0 {
                    Some(t) => GR::Ok(word(t), s1),
                    None => match g_seq_flow(e, s1, level) {
                        GR::Mis(s2) => if !(s.eaten <= s2.eaten <= e.d.len()) { GR::Bad } else { match g_map_flow(e, s2, level) {
                            GR::Mis(s3) => GR::Ok(Yaml::Null, s3),
                            r => r,
                        } },
                        r => r,
                    },
                }
            },
            r => r,
        },
    }
    }
}
pub open spec fn g_seq_flow(e: GE, s: GS, level: int) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 0int
{
    if !at(e.d, s.pos, 91) { GR::Mis(back(s)) }
    else if !(0 <= s.eaten <= s.pos) { GR::Bad }
    else { g_items(e, to(s, s.pos + 1), level, Seq::empty()) }
}
/// The items up to the closing bracket.
pub open spec fn g_items(e: GE, s: GS, level: int, v: Seq<Node>) -> GR<Yaml>
    decreases e.d.len() - s.pos, 50int
{
    let s1 = fwd(white_to(e, s));
    if !(0 <= s.pos <= s1.pos <= e.d.len()) { GR::Bad }
    else if at(e.d, s1.pos, 93) { GR::Ok(y_seq(v), fwd(to(s1, s1.pos + 1))) }
    else { match g_scalar(e, s1, level + 1, false, true) {
        GR::Ok(n, s2) => {
            let s3 = white_to(e, s2);
            if !(s.pos <= s3.pos <= e.d.len()) { GR::Bad }
            else if at(e.d, s3.pos, 44) { g_items(e, to(s3, s3.pos + 1), level, v.push(n)) }
            else {
                let s4 = white_to(e, back(s3));
                if at(e.d, s4.pos, 93) { GR::Ok(y_seq(v.push(n)), fwd(to(s4, s4.pos + 1))) } else { GR::Bad }
            }
        }
        _ => GR::Bad,
    } }
}
pub open spec fn g_map_flow(e: GE, s: GS, level: int) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 0int
{
    if !at(e.d, s.pos, 123) { GR::Mis(back(s)) }
    else if !(0 <= s.eaten <= s.pos) { GR::Bad }
    else { g_pairs(e, to(s, s.pos + 1), level, Seq::empty()) }
}
/// The key of a flow pair.
pub open spec fn g_flow_key(e: GE, s: GS, level: int) -> GR<Node>
    decreases e.d.len() - s.eaten, 30int
{
    let s1 = s;
    if !(0 <= s.eaten <= s.pos <= e.d.len()) { GR::Bad }
    else { match m_complex(e.d, s1.pos) {
        Some(x) => {
            let s2 = fwd(white_to(e, to(s1, x)));
            if !(s.pos <= s2.pos <= e.d.len()) { GR::Bad } else { match g_scalar_flow(e, s2, level + 1, true) {
                GR::Ok(k, s3) => GR::Ok(k, gapped(e, s3)),
                _ => GR::Bad,
            } }
        }
        None => must(g_scalar_flow(e, s1, level + 1, true)),
    } }
}
/// The pairs up to the closing brace.
pub open spec fn g_pairs(e: GE, s: GS, level: int, v: Seq<(Node, Node)>) -> GR<Yaml>
    decreases e.d.len() - s.pos, 50int
{
    let s1 = fwd(white_to(e, s));
    if !(0 <= s.pos <= s1.pos <= e.d.len()) { GR::Bad }
    else if at(e.d, s1.pos, 125) { GR::Ok(y_map(v), fwd(to(s1, s1.pos + 1))) }
    else { match g_flow_key(e, s1, level) {
        GR::Ok(k, s2) => {
            let s3 = white_to(e, s2);
            if !(s.pos <= s3.pos <= e.d.len()) || !at(e.d, s3.pos, 58) { GR::Bad } else {
                // behind the colon
                let c = s3.pos + 1;
                let s4 = fwd(white_to(e, to(s3, match m_bound(e.d, c) { Some(x) => x, None => c })));
                if !(s.pos <= s4.pos <= e.d.len()) { GR::Bad } else { match g_scalar(e, s4, level + 1, false, true) {
                    GR::Ok(n, s5) => {
                        let s6 = white_to(e, s5);
                        if !(s.pos <= s6.pos <= e.d.len()) { GR::Bad }
                        else if at(e.d, s6.pos, 44) { g_pairs(e, to(s6, s6.pos + 1), level, v.push((k, n))) }
                        else {
                            let s7 = white_to(e, back(s6));
                            if at(e.d, s7.pos, 125) { GR::Ok(y_map(v.push((k, n))), fwd(to(s7, s7.pos + 1))) } else { GR::Bad }
                        }
                    }
                    _ => GR::Bad,
                } }
            }
        }
        _ => GR::Bad,
    } }
}
/// The place of the first entry of a block collection: on its own line
/// (nested in a map), or here.
pub open spec fn g_place(e: GE, s: GS, level: int, map: bool, deeper: bool) -> GR<()> {
    if map {
        if !has_gap(e, s) { GR::Mis(gapped(e, s)) } else {
            let s1 = gapped(e, s);
            if deeper {
                if !has_ind(e, s1, level - 1) { GR::Mis(indented(e, s1, level - 1)) } else {
                    let s2 = indented(e, s1, level - 1);
                    let x = run(p_blank(), e.d, s2.pos);
                    if x == s2.pos { GR::Mis(back(s2)) } else {
                        let s3 = to(s2, s1.pos);
                        if has_def(e, s3, level) { GR::Ok((), defined(e, s3, level)) } else { GR::Mis(defined(e, s3, level)) }
                    }
                }
            } else if has_def(e, s1, level) { GR::Ok((), defined(e, s1, level)) } else { GR::Mis(defined(e, s1, level)) }
        }
    } else if has_gap(e, s) {
        let s1 = gapped(e, s);
        if deeper && at_doc_end(e.d, s1.pos) { GR::Mis(back(s1)) }
        else if has_ind(e, s1, level) { GR::Ok((), indented(e, s1, level)) } else { GR::Mis(indented(e, s1, level)) }
    } else { GR::Ok((), gapped(e, s)) }
}
/// `-` and a boundary.
pub open spec fn m_dash(d: Seq<u8>, i: int) -> Option<int> { if at(d, i, 45) { m_bound(d, i + 1) } else { None } }
pub open spec fn g_seq(e: GE, s: GS, level: int, map: bool) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 30int
{
    match g_place(e, fwd(s), level, map, false) {
        GR::Ok(_, s1) => match m_dash(e.d, s1.pos) {
            Some(x) => if !(0 <= s.eaten < x <= e.d.len()) { GR::Bad } else { g_entry(e, fwd(to(s1, x)), level, Seq::empty()) },
            None => GR::Mis(back(s1)),
        },
        GR::Mis(s1) => GR::Mis(s1),
        GR::Bad => GR::Bad,
    }
}
/// The item behind a dash, and the following ones.
pub open spec fn g_entry(e: GE, s: GS, level: int, v: Seq<Node>) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 50int
{
    if !(0 <= s.eaten <= s.pos <= e.d.len()) { GR::Bad } else { match g_scalar(e, s, level + 1, false, false) {
        GR::Ok(n, s1) => if !(s.pos <= s1.pos <= e.d.len()) { GR::Bad } else { g_entries(e, s1, level, v.push(n)) },
        _ => GR::Bad,
    } }
}
/// More items, each on its own line with the indentation of the sequence.
pub open spec fn g_entries(e: GE, s: GS, level: int, v: Seq<Node>) -> GR<Yaml>
    decreases e.d.len() - s.pos, 45int
{
    let s1 = gapped(e, fwd(s));
    if !has_gap(e, s) && !at_doc_end(e.d, s1.pos) { GR::Bad }
    else if at_doc_end(e.d, s1.pos) { GR::Ok(y_seq(v), back(s1)) }
    else {
        let s2 = indented(e, s1, level);
        if !has_ind(e, s1, level) { GR::Ok(y_seq(v), back(s2)) }
        else { match m_dash(e.d, s2.pos) {
            Some(x) => if !(0 <= s.pos < x <= e.d.len()) { GR::Bad } else { g_entry(e, fwd(to(s2, x)), level, v) },
            None => GR::Ok(y_seq(v), back(s2)),
        } }
    }
}
/// Blanks, `:` and a boundary.
pub open spec fn m_colon(d: Seq<u8>, i: int) -> Option<int> {
    let b = run(p_blank(), d, i);
    if at(d, b, 58) { m_bound(d, b + 1) } else { None }
}
/// The key of a block pair.
pub open spec fn g_key(e: GE, s: GS, level: int, flow: bool) -> GR<Node>
    decreases e.d.len() - s.eaten, 25int
{
    let s1 = s;
    if !(0 <= s.eaten <= s.pos <= e.d.len()) { GR::Bad }
    else { match m_complex(e.d, s1.pos) {
        Some(x) => if !(s.pos < x <= e.d.len()) { GR::Bad } else { match g_scalar(e, fwd(to(s1, x)), level + 1, true, flow) {
            GR::Ok(k, s2) => {
                let s3 = gapped(e, s2);
                if !has_gap(e, s2) { GR::Ok(k, s3) } else if has_ind(e, s3, level) { GR::Ok(k, indented(e, s3, level)) } else { GR::Bad }
            }
            _ => GR::Bad,
        } },
        None => g_scalar_flow(e, s1, level + 1, flow),
    } }
}
/// A map; a value without colon stands for itself.
pub open spec fn g_map(e: GE, s: GS, level: int, map: bool, flow: bool) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 30int
{
    if !(0 <= s.eaten <= s.pos <= e.d.len()) { GR::Bad } else { g_map1(e, fwd(s), level, map, flow) }
}
pub open spec fn g_map1(e: GE, s: GS, level: int, map: bool, flow: bool) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 29int
{
    match g_place(e, s, level, map, true) {
        GR::Ok(_, s1) => if !(0 <= s.eaten <= s1.pos <= e.d.len()) { GR::Bad } else { g_first(e, fwd(s1), level, flow) },
        GR::Mis(s1) => GR::Mis(s1),
        GR::Bad => GR::Bad,
    }
}
/// The first pair of a map, from its key.
pub open spec fn g_first(e: GE, s: GS, level: int, flow: bool) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 28int
{
    if !(0 <= s.eaten <= s.pos <= e.d.len()) { GR::Bad } else { match g_key(e, s, level, flow) {
        GR::Ok(k, s2) => match m_colon(e.d, s2.pos) {
            Some(x) => if !(s.eaten < x <= e.d.len()) { GR::Bad } else { g_pair(e, fwd(to(s2, x)), level, flow, Seq::empty(), k) },
            None => GR::Ok(yv(k), s2),
        },
        GR::Mis(s2) => GR::Mis(s2),
        GR::Bad => GR::Bad,
    } }
}
/// The next pair of a map, from its key.
pub open spec fn g_next(e: GE, s: GS, level: int, flow: bool, v: Seq<(Node, Node)>) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 28int
{
    if !(0 <= s.eaten <= s.pos <= e.d.len()) { GR::Bad } else { match g_key(e, s, level, flow) {
        GR::Ok(k, s3) => match m_colon(e.d, s3.pos) {
            Some(x) => if !(s.pos < x <= e.d.len()) { GR::Bad } else { g_pair(e, fwd(to(s3, x)), level, flow, v, k) },
            None => GR::Bad,
        },
        _ => GR::Bad,
    } }
}
/// The value behind a colon, and the following pairs.
pub open spec fn g_pair(e: GE, s: GS, level: int, flow: bool, v: Seq<(Node, Node)>, k: Node) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 50int
{
    if !(0 <= s.eaten <= s.pos <= e.d.len()) { GR::Bad } else { match g_scalar(e, s, level + 1, true, false) {
        GR::Ok(n, s1) => if !(s.pos <= s1.pos <= e.d.len()) { GR::Bad } else { g_more(e, s1, level, flow, v.push((k, n))) },
        _ => GR::Bad,
    } }
}
/// More pairs, each on its own line with the indentation of the map.
pub open spec fn g_more(e: GE, s: GS, level: int, flow: bool, v: Seq<(Node, Node)>) -> GR<Yaml>
    decreases e.d.len() - s.pos, 45int
{
    if !(0 <= s.pos <= e.d.len()) { GR::Bad } else { g_more1(e, fwd(s), level, flow, v) }
}
pub open spec fn g_more1(e: GE, s: GS, level: int, flow: bool, v: Seq<(Node, Node)>) -> GR<Yaml>
    decreases e.d.len() - s.eaten, 44int
{
    let s1 = gapped(e, s);
    if !has_gap(e, s) && !at_doc_end(e.d, s1.pos) { GR::Bad }
    else if at_doc_end(e.d, s1.pos) { GR::Ok(y_map(v), back(s1)) }
    else {
        let s2 = indented(e, s1, level);
        if !has_ind(e, s1, level) { GR::Ok(y_map(v), back(s2)) }
        else if !(0 <= s.eaten <= s2.pos <= e.d.len()) { GR::Bad }
        else { g_next(e, fwd(s2), level, flow, v) }
    }
}
/// The rest of a map, with the pairs so far.
pub open spec fn g_rest(e: GE, s: GS, level: int, map: bool, flow: bool, v: Seq<(Node, Node)>) -> GR<Yaml> {
    if v.len() == 0 { g_map1(e, s, level, map, flow) } else { g_more1(e, s, level, flow, v) }
}
/// One document: its node and the state behind it.
pub open spec fn g_doc(e: GE, s: GS) -> GR<Node> {
    let s1 = match m_bound(e.d, s.pos) { Some(x) => to(s, x), None => s };
    let s2 = gapped(e, s1);
    if !has_ind(e, s2, 0) { GR::Bad } else {
        let s3 = GS { anc: Map::empty(), ..fwd(indented(e, s2, 0)) };
        if at_doc_end(e.d, s3.pos) { GR::Ok(node_of(s3.pos, Seq::empty(), Yaml::Null), g_doc_end(e, s3)) }
        else { match g_scalar(e, fwd(blank_to(e, s3)), 0, false, false) {
            GR::Ok(n, s4) => GR::Ok(n, g_doc_end(e, s4)),
            _ => GR::Bad,
        } }
    }
}
/// An end marker behind a document.
pub open spec fn g_doc_end(e: GE, s: GS) -> GS {
    let s1 = gapped(e, s);
    fwd(if lit_at(e.d, s1.pos, seq![46u8, 46u8, 46u8]) { to(s1, s1.pos + 3) } else { back(s1) })
}
/// The documents from here on, behind those read so far.
pub open spec fn g_docs(e: GE, s: GS, v: Seq<Node>, a: Seq<Map<Seq<char>, Node>>) -> Option<(Seq<Node>, Seq<Map<Seq<char>, Node>>)>
    decreases e.d.len() - s.pos, 1int
{
    if !(0 <= s.pos <= e.d.len()) { None } else {
    match g_doc(e, s) {
        GR::Ok(n, s1) => if !(s.pos <= s1.pos <= e.d.len()) { None } else { g_rest_docs(e, GS { anc: Map::empty(), ..s1 }, v.push(n), a.push(s1.anc)) },
        _ => None,
    }
    }
}
/// The end of the text, or a separator and another document.
pub open spec fn g_rest_docs(e: GE, s: GS, v: Seq<Node>, a: Seq<Map<Seq<char>, Node>>) -> Option<(Seq<Node>, Seq<Map<Seq<char>, Node>>)>
    decreases e.d.len() - s.pos, 0int
{
    let s1 = gapped(e, s);
    if !(0 <= s.pos <= s1.pos <= e.d.len()) { None }
    else if s1.pos >= e.d.len() { Some((v, a)) }
    else if lit_at(e.d, s1.pos, seq![45u8, 45u8, 45u8]) && s1.pos + 3 <= e.d.len() { g_docs(e, to(s1, s1.pos + 3), v, a) }
    else { None }
}
/// The directives in front of the documents.
pub open spec fn g_dirs(e: GE, s: GS, seen: bool) -> Option<(GE, GS)>
    decreases e.d.len() - s.pos
{
    if !at(e.d, s.pos, 37) { Some((e, s)) }
    else { match m_dir(e.d, s.pos + 1, seen) {
        DirRes::Bad => None,
        DirRes::No => Some((e, to(s, dir_fail(e.d, s.pos + 1)))),
        DirRes::Dir(x, v, h) => {
            let f = GE { tags: match h { Some(y) => e.tags.insert(y.0, y.1), None => e.tags }, ..e };
            match m_gap(e.d, x, true) {
                Some(g) => if !(0 <= s.pos < g.0 <= e.d.len()) { None } else { g_dirs(f, to(s, g.0), seen || v) },
                None => Some((f, to(s, gap_fail(e.d, x, true)))),
            }
        }
    } }
}
/// The whole text: its nodes and the anchors of each document.
pub open spec fn g_stream(e: GE, s: GS, seen: bool) -> Option<(Seq<Node>, Seq<Map<Seq<char>, Node>>)> {
    match g_dirs(e, s, seen) {
        None => None,
        Some((f, s1)) => {
            let s2 = gapped(f, s1);
            g_docs(f, if lit_at(f.d, s2.pos, seq![45u8, 45u8, 45u8]) { to(s2, s2.pos + 3) } else { back(s2) }, Seq::empty(), Seq::empty())
        }
    }
}
/// What a text means.
pub open spec fn g_text(d: Seq<u8>, cyc: bool) -> Option<(Seq<Node>, Seq<Map<Seq<char>, Node>>)> {
    g_stream(GE { d, tags: default_tags(), cyc }, GS { pos: 0, eaten: 0, ind: seq![0usize], anc: Map::empty() }, false)
}

impl<'a> Loader<'a> {
    pub open spec fn env(&self) -> GE { GE { d: self.parser.doc@, tags: self.parser.tag@, cyc: self.cyclic_mode } }
    pub open spec fn gs(&self) -> GS {
        GS { pos: self.parser.pos as int, eaten: self.parser.eaten as int, ind: self.parser.indent@, anc: self.anchors@[self.doc_ind as int]@ }
    }
    /// Between the documents.
    pub open spec fn gs0(&self) -> GS {
        GS { pos: self.parser.pos as int, eaten: self.parser.eaten as int, ind: self.parser.indent@, anc: Map::empty() }
    }
    /// The anchors of the documents so far.
    pub open spec fn tables(&self) -> Seq<Map<Seq<char>, Node>> { Seq::new(self.anchors@.len(), |i: int| self.anchors@[i]@) }
    /// The anchors of the documents before this one.
    pub open spec fn past(&self) -> Seq<Anchors> { self.anchors@.subrange(0, self.doc_ind as int) }
    pub open spec fn framed(&self, o: &Self) -> bool { self.env() == o.env() && self.past() == o.past() }
    /// The next byte is `c`.
    pub open spec fn starts(&self, c: u8) -> bool { at(self.parser.doc@, self.parser.pos as int, c) }
    /// The outcome is the one of the grammar: kind, value and cursor.
    pub open spec fn at_state(&self, s: GS) -> bool { self.gs().pos == s.pos && self.gs().eaten == s.eaten && self.gs().ind == s.ind }
    pub open spec fn gives(&self, r: PResult<Node>, g: GR<Node>) -> bool {
        match g {
            GR::Ok(n, s) => r is Ok && r->Ok_0.yaml == n.yaml && self.at_state(s),
            GR::Mis(s) => r is Err && r->Err_0 is Mismatch && self.at_state(s),
            GR::Bad => r is Err && r->Err_0 is Terminate,
        }
    }
    /// The position, the tag, the anchors.
    pub open spec fn gives_pos(&self, r: PResult<Node>, g: GR<Node>) -> bool { r is Ok && g is Ok ==> r->Ok_0.pos == g->Ok_0.pos }
    pub open spec fn gives_tag(&self, r: PResult<Node>, g: GR<Node>) -> bool { r is Ok && g is Ok ==> r->Ok_0.tag == g->Ok_0.tag }
    pub open spec fn leaves<T>(&self, g: GR<T>) -> bool { match g { GR::Ok(_, s) => self.gs().anc == s.anc, GR::Mis(s) => self.gs().anc == s.anc, GR::Bad => true } }
    pub open spec fn keyed(&self, r: PResult<Flow<Node, Rc<Yaml>>>, g: GR<Node>) -> bool {
        match g {
            GR::Ok(n, s) => r is Ok && r->Ok_0 == Flow::<Node, Rc<Yaml>>::Val(n) && self.at_state(s),
            GR::Mis(s) => r is Err && r->Err_0 is Mismatch && self.at_state(s),
            GR::Bad => r is Err && r->Err_0 is Terminate,
        }
    }
    pub open spec fn yields(&self, r: PResult<Rc<Yaml>>, g: GR<Yaml>) -> bool {
        match g {
            GR::Ok(y, s) => r is Ok && *r->Ok_0 == y && self.at_state(s),
            GR::Mis(s) => r is Err && r->Err_0 is Mismatch && self.at_state(s),
            GR::Bad => r is Err && r->Err_0 is Terminate,
        }
    }
}

pub broadcast proof fn lemma_mind_ge(d: Seq<u8>, i: int, w: Seq<usize>, level: int)
    requires 0 <= level
    ensures #[trigger] m_ind(d, i, w, level) is Some ==> i <= m_ind(d, i, w, level)->Some_0
{}
pub broadcast proof fn lemma_mdef_ge(d: Seq<u8>, i: int, w: Seq<usize>, level: int)
    requires 0 <= i <= d.len(), 0 <= level
    ensures #[trigger] m_ind_define(d, i, w, level) is Some ==> i <= m_ind_define(d, i, w, level)->Some_0
{
    if level > 0 { match m_ind(d, i, w, level - 1) { Some(e) => lemma_run_bound(p_white(), d, e), None => {} } } else { lemma_run_bound(p_white(), d, i); }
}
pub broadcast proof fn lemma_complex_ge(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures #[trigger] m_complex(d, i) is Some ==> i < m_complex(d, i)->Some_0
{ if at(d, i, 63) { if m_bound(d, i + 1) is Some { lemma_bound_ge(d, i + 1); } } }
pub broadcast proof fn lemma_run_ge(p: spec_fn(u8) -> bool, d: Seq<u8>, i: int)
    requires 0 <= i <= d.len()
    ensures i <= #[trigger] run(p, d, i) <= d.len()
{ lemma_run_bound(p, d, i); }
pub broadcast group group_gram { lemma_mind_ge, lemma_mdef_ge, lemma_complex_ge, lemma_run_ge }
