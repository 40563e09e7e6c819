//! Token printer: one statement per line, with the contracts woven in.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Side tables of text which replaces the markers `__inv!{k}` and `__cl!{k}`, `__gh!{k}`.
#[derive(Default, Clone)]
pub struct Side {
    /// Loop specifications by loop number.
    pub loops: Vec<String>,
    /// Closures by number: full text with `__BODY__` in the place of the body.
    pub closures: Vec<(String, TokenStream)>,
    /// Ghost text by number.
    pub ghost: Vec<String>,
}

fn marker(ts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    match (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
        (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)))
            if id == name && p.as_char() == '!' =>
        {
            g.stream().to_string().trim().parse().ok()
        }
        _ => None,
    }
}

pub fn print(ts: TokenStream, side: &Side) -> String {
    let mut out = String::new();
    go(ts, side, &mut out, 1);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..ind {
        out.push_str("    ");
    }
}

fn go(ts: TokenStream, side: &Side, out: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some(k) = marker(&v, i, "__cl") {
            let (head, body) = &side.closures[k];
            out.push_str(head);
            out.push(' ');
            go(body.clone(), side, out, ind);
            i += 3;
            continue;
        }
        if let Some(k) = marker(&v, i, "__gh") {
            nl(out, ind);
            for l in side.ghost[k].lines() {
                out.push_str(l);
                nl(out, ind);
            }
            i += 3;
            if let Some(TokenTree::Punct(p)) = v.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                if g.delimiter() == Delimiter::Brace {
                    let mut st: TokenStream = g.stream();
                    if let Some(k) = marker(&inner, 0, "__inv") {
                        for l in side.loops[k].lines() {
                            nl(out, ind + 1);
                            out.push_str(l);
                        }
                        nl(out, ind);
                        let skip = if matches!(inner.get(3), Some(TokenTree::Punct(p)) if p.as_char()==';') { 4 } else { 3 };
                        st = inner[skip..].iter().cloned().collect();
                    }
                    out.push_str(a);
                    if !st.is_empty() {
                        nl(out, ind + 1);
                        go(st, side, out, ind + 1);
                        nl(out, ind);
                    }
                    out.push_str(b);
                    // a new line after a block, unless the expression goes on
                    match v.get(i + 1) {
                        Some(TokenTree::Ident(id)) if id != "else" && id != "as" => nl(out, ind),
                        Some(TokenTree::Punct(p)) if matches!(p.as_char(), '#' | '\'') => nl(out, ind),
                        Some(TokenTree::Ident(_)) => out.push(' '),
                        _ => {}
                    }
                } else {
                    out.push_str(a);
                    go(g.stream(), side, out, ind);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(b);
                    match v.get(i + 1) {
                        Some(TokenTree::Punct(p)) if matches!(p.as_char(), '.' | ',' | ';' | '?') => {}
                        Some(TokenTree::Group(g)) if g.delimiter() != Delimiter::Brace => {}
                        _ => out.push(' '),
                    }
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ';' | ',' | '.' | '?') {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                }
                out.push(c);
                if c == ';' {
                    if i + 1 < v.len() {
                        nl(out, ind);
                    }
                } else if p.spacing() == Spacing::Alone && !matches!(c, '.' | '&' | '!' | '\'' | '*') {
                    out.push(' ');
                } else if c == '*' && p.spacing() == Spacing::Alone {
                }
            }
            t => {
                out.push_str(&t.to_string());
                match v.get(i + 1) {
                    Some(TokenTree::Punct(p)) if matches!(p.as_char(), '.' | ',' | ';' | '?' | ':') => {
                        if p.as_char() == ':' && p.spacing() == Spacing::Alone {
                        }
                    }
                    Some(TokenTree::Group(g))
                        if g.delimiter() == Delimiter::Parenthesis || g.delimiter() == Delimiter::Bracket =>
                    {
                        let s = t.to_string();
                        if matches!(s.as_str(), "if" | "while" | "match" | "return" | "in" | "let" | "else" | "mut" | "as") {
                            out.push(' ');
                        }
                    }
                    None => {}
                    _ => out.push(' '),
                }
            }
        }
        i += 1;
    }
}
