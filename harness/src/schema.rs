//! Helpers for checks that run the schema compiler itself.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use xsd_internal::xsd::schema::{Schema, SchemaError};

pub const HEAD: &str = "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\">";
pub const TAIL: &str = "</xs:schema>";
pub fn xsd(body: &str) -> String {
    let mut s = String::from(HEAD);
    s.push_str(body);
    s.push_str(TAIL);
    s
}
/// Compiles a schema to Rust tokens.
pub fn compile(schema: &str) -> Result<TokenStream, SchemaError> {
    Schema::parse(schema, "/nonexistent/main.xsd")?.generate_all()
}

/// One generated item, without white space.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Item {
    pub head: String,
    pub body: String,
    pub docs: String,
}

/// The text of tokens without white space between them (string literals keep theirs), attributes
/// left out (documentation is collected in `docs`), and the usual paths to prelude types shortened.
fn flat(ts: TokenStream, out: &mut String, docs: &mut String) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' && matches!(it.peek(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Bracket) => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    let mut s = String::new();
                    flat(g.stream(), &mut s, &mut String::new());
                    if let Some(d) = s.strip_prefix("doc=") {
                        docs.push_str(d);
                        docs.push('\n');
                    }
                }
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                flat(g.stream(), out, docs);
                out.push_str(b);
            }
            TokenTree::Punct(p) => out.push(p.as_char()),
            t => {
                let s = t.to_string();
                if out.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '"') {
                    out.push(' ');
                }
                out.push_str(&s);
            }
        }
    }
}
/// All items, sorted: the order in which the compiler emits them is arbitrary.
pub fn items(ts: TokenStream) -> Vec<Item> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        let end = match &t {
            TokenTree::Group(g) => g.delimiter() == Delimiter::Brace,
            TokenTree::Punct(p) => p.as_char() == ';',
            _ => false,
        };
        cur.push(t);
        if end {
            let last = cur.pop().unwrap();
            let (mut head, mut body, mut docs) = (String::new(), String::new(), String::new());
            flat(cur.drain(..).collect(), &mut head, &mut docs);
            flat(std::iter::once(last).collect(), &mut body, &mut docs);
            // tuple structs: `pub struct X(T);`
            if body == ";" {
                if let Some(i) = head.find('(') {
                    body = head.split_off(i);
                }
            }
            out.push(Item { head, body: shorten(&body), docs });
        }
    }
    out.sort();
    out
}
fn shorten(s: &str) -> String {
    let mut s = s.to_string();
    for p in ["::std::option::", "::core::option::", "::std::vec::", "::std::string::", "::std::boxed::", "std::option::", "std::vec::", "std::string::"] {
        if s.contains(p) {
            s = s.replace(p, "");
        }
    }
    s
}
/// Generated code in a form that does not depend on the order of what is generated from a hash map
/// (variants of an enumeration, arms of a match): declarations with their members sorted, and of all
/// other code the tokens it consists of, and the order in which the fields of the type appear.
pub fn canonical(ts: TokenStream) -> Vec<Item> {
    fn leaves(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    out.push(format!("{:?}", g.delimiter()));
                    leaves(g.stream(), out);
                }
                // separators: a trailing one may be there or not
                TokenTree::Punct(p) if p.as_char() == ',' => {}
                t => out.push(t.to_string()),
            }
        }
    }
    let all: Vec<TokenTree> = ts.clone().into_iter().collect();
    let its = items(ts);
    let mut fields: Vec<(String, Vec<String>)> = vec![];
    for i in &its {
        if let Some(n) = i.head.strip_prefix("pub struct ") {
            if i.body.starts_with('{') {
                let f = split_top(i.body.trim_start_matches('{').trim_end_matches('}'));
                fields.push((n.into(), f.into_iter().filter_map(|p| p.split_once(':')).map(|p| p.0.trim_start_matches("pub ").to_string()).collect()));
            }
        }
    }
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in all {
        let end = match &t {
            TokenTree::Group(g) => g.delimiter() == Delimiter::Brace,
            TokenTree::Punct(p) => p.as_char() == ';',
            _ => false,
        };
        cur.push(t);
        if !end {
            continue;
        }
        let last = cur.pop().unwrap();
        let (mut head, mut docs) = (String::new(), String::new());
        flat(cur.drain(..).collect(), &mut head, &mut docs);
        let body = match last {
            TokenTree::Group(g) if head.starts_with("impl") => {
                let mut l = vec![];
                leaves(g.stream(), &mut l);
                let order: Vec<&str> = match fields.iter().find(|f| head.ends_with(&format!(" {}", f.0))) {
                    Some(f) => l.iter().filter(|t| f.1.contains(t)).map(|t| t.as_str()).collect(),
                    None => vec![],
                };
                let order = order.join(" ");
                l.sort();
                format!("{}|{}", l.join(" "), order)
            }
            TokenTree::Group(g) => {
                let mut b = String::new();
                flat(g.stream(), &mut b, &mut docs);
                let mut d: Vec<&str> = docs.lines().collect();
                d.sort();
                docs = d.join("\n");
                let mut m: Vec<&str> = split_top(&b).into_iter().filter(|x| !x.is_empty()).collect();
                m.sort();
                m.join(",")
            }
            _ => String::new(),
        };
        out.push(Item { head, body, docs });
    }
    out.sort();
    out
}
/// The declaration of a generated type: its kind and what stands between the braces.
pub fn decl<'a>(items: &'a [Item], name: &str) -> Option<(&'a str, &'a str)> {
    items.iter().find_map(|i| {
        for k in ["struct", "enum"] {
            if let Some(r) = i.head.strip_prefix("pub ").and_then(|h| h.strip_prefix(k)).and_then(|h| h.strip_prefix(' ')) {
                if r == name {
                    return Some((k, i.body.as_str()));
                }
            }
        }
        None
    })
}
/// The type of a public field.
pub fn field<'a>(items: &'a [Item], ty: &str, f: &str) -> Option<&'a str> {
    let (_, b) = decl(items, ty)?;
    let b = b.strip_prefix('{')?.strip_suffix('}')?;
    for p in split_top(b) {
        if let Some((n, t)) = p.split_once(':') {
            if n.strip_prefix("pub ") == Some(f) {
                return Some(t);
            }
        }
    }
    None
}
/// The types of all public fields.
pub fn field_types<'a>(items: &'a [Item], ty: &str) -> Vec<&'a str> {
    let Some((_, b)) = decl(items, ty) else { return vec![] };
    split_top(b.trim_start_matches('{').trim_end_matches('}')).into_iter().filter_map(|p| p.split_once(':')).map(|p| p.1).collect()
}
pub fn fields(items: &[Item], ty: &str) -> usize {
    match decl(items, ty) {
        Some((_, b)) => split_top(b.trim_start_matches('{').trim_end_matches('}')).iter().filter(|x| !x.is_empty()).count(),
        None => 0,
    }
}
fn split_top(b: &str) -> Vec<&str> {
    let (mut depth, mut start, mut out) = (0i32, 0, vec![]);
    for (i, c) in b.bytes().enumerate() {
        match c {
            b'<' | b'(' | b'{' | b'[' => depth += 1,
            b'>' | b')' | b'}' | b']' => depth -= 1,
            b',' if depth == 0 => {
                out.push(&b[start..i]);
                start = i + 1;
            }
            _ => {}
        }
    }
    out.push(&b[start..]);
    out
}

/// All documentation in generated code: where it stands (`Type`, `Type.field`, `Type.Variant`) and its text.
pub fn docs_of(ts: TokenStream) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    let mut docs = vec![];
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    docs.extend(doc_text(g.stream()));
                }
            }
            TokenTree::Ident(i) if i == "struct" || i == "enum" => {
                let Some(TokenTree::Ident(name)) = it.next() else { continue };
                let name = name.to_string();
                out.extend(docs.drain(..).map(|d| (name.clone(), d)));
                if let Some(TokenTree::Group(g)) = it.next() {
                    members(&name, g.stream(), &mut out);
                }
            }
            TokenTree::Group(_) => docs.clear(),
            _ => {}
        }
    }
    out.sort();
    out
}
fn members(of: &str, ts: TokenStream, out: &mut Vec<(String, String)>) {
    let (mut docs, mut name, mut depth) = (vec![], None, 0i32);
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.next() {
                    docs.extend(doc_text(g.stream()));
                }
            }
            TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
            TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
            TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => {
                let n: String = name.take().unwrap_or_default();
                out.extend(docs.drain(..).map(|d| (format!("{of}.{n}"), d)));
            }
            TokenTree::Ident(i) if name.is_none() && i != "pub" => name = Some(i.to_string()),
            _ => {}
        }
    }
    let n = name.unwrap_or_default();
    out.extend(docs.drain(..).map(|d| (format!("{of}.{n}"), d)));
}
fn doc_text(ts: TokenStream) -> Option<String> {
    let mut it = ts.into_iter();
    match (it.next(), it.next(), it.next()) {
        (Some(TokenTree::Ident(d)), Some(_), Some(TokenTree::Literal(l))) if d == "doc" => Some(unquote(&l.to_string())),
        _ => None,
    }
}
/// the value of a string literal
fn unquote(s: &str) -> String {
    let s = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s);
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('0') => o.push('\0'),
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
