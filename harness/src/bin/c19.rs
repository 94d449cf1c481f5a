//! How a schema is written is irrelevant: what XML and XML Schema give no meaning to does not change the generated code.
#[path = "../grid/files.rs"]
mod files;
use vph::schema::*;
use vph::xs::*;
use vph::*;

fn go(x: &str) -> Result<Vec<Item>, String> {
    xsd_internal::xsd::schema::Schema::parse(x, "schemas/grid/main.xsd").and_then(|s| s.generate_all()).map(canonical).map_err(|e| e.to_string())
}
fn same(a: &N, y: &str) {
    note(y);
    match (go(&a.xml()), go(y)) {
        (Ok(a), Ok(b)) => check(a == b, "the presentation of the schema changes the generated code"),
        (Err(_), _) => check(false, "the schema is rejected"),
        (_, Err(e)) => {
            note(&e);
            check(false, "the schema is rejected in another presentation")
        }
    }
    cover("same");
}
fn reprefix(s: &mut N, from: &str, to: &str) {
    s.each(&mut |e| {
        for a in &mut e.attrs {
            if a.0 == format!("xmlns:{from}") {
                a.0 = if to.is_empty() { "xmlns".into() } else { format!("xmlns:{to}") };
            } else if matches!(a.0.as_str(), "type" | "base" | "ref") {
                if let Some(r) = a.1.strip_prefix(&format!("{from}:")) {
                    a.1 = if to.is_empty() { r.to_string() } else { format!("{to}:{r}") };
                }
            }
        }
        if let Some(r) = e.name.strip_prefix(&format!("{from}:")) {
            e.name = if to.is_empty() { r.to_string() } else { format!("{to}:{r}") };
        }
    });
}
/// inserts `x` before every tag and after the last
fn between(s: &str, x: &str) -> String {
    let i = s.find('>').unwrap() + 1;
    let (h, t) = s.split_at(i);
    format!("{h}{}{x}", t.replace('<', &format!("{x}<")).replace(&format!("{x}</xs:documentation"), "</xs:documentation"))
}
/// inserts `x` before one tag, chosen symbolically
fn somewhere(s: &str, x: &str) -> String {
    let at: Vec<usize> = s.match_indices('<').map(|m| m.0).filter(|i| !s[*i..].starts_with("</xs:documentation")).collect();
    let i = at[choose(at.len())];
    format!("{}{x}{}", &s[..i], &s[i..])
}
fn space(n: usize) -> String {
    let b = bytes(n);
    for c in &b {
        assume(matches!(*c, b' ' | b'\t' | b'\n' | b'\r'));
    }
    String::from_utf8(b).unwrap_or_default()
}
fn inner(n: usize) -> String {
    let b = bytes(n);
    for c in &b {
        assume((b' '..=b'~').contains(c) && *c != b'-' && *c != b'?' && *c != b'>');
    }
    String::from_utf8(b).unwrap_or_default()
}
fn whole(s: &N) {
    let mut t = s.clone();
    match choose(13) {
        0 => reprefix(&mut t, "xs", pick(&["xsd", "x", "S", "t-t", "\u{e9}"])),
        1 => {
            reprefix(&mut t, "t", pick(&["u", "xsd", "tt.t"]));
            reprefix(&mut t, "o", "zz");
        }
        2 => {
            // the schema namespace as default: references to types of no namespace cannot be written
            if s.get("targetNamespace").is_none() {
                return cover("does not apply");
            }
            reprefix(&mut t, "xs", "");
        }
        3 => {
            if s.get("targetNamespace").is_none() {
                return cover("does not apply");
            }
            reprefix(&mut t, "t", "");
        }
        4 => t.each(&mut |e| e.attrs.reverse()),
        5 => return same(s, &between(&s.xml(), "\n\t ")),
        6 => return same(s, &between(&s.xml(), "<!-- <xs:element name=\"z\" type=\"xs:int\"/> -->")),
        7 => return same(s, &between(&s.xml(), "<?pi <xs:element/>?>")),
        8 => return same(s, &s.xml().replace("=\"", " = \"").replace("/>", "\n/>")),
        9 => return same(s, &format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- c -->\n{}\n<!-- d -->", s.xml().replace("\"", "'"))),
        10 => {
            // attributes of other namespaces, named like those of XML Schema
            t.each(&mut |e| {
                for k in ["minOccurs", "maxOccurs", "fixed", "type", "name", "use", "ref", "mixed", "base", "targetNamespace", "elementFormDefault"] {
                    e.attrs.insert(0, (format!("f:{k}"), "0".into()));
                }
            });
            t.set("xmlns:f", "urn:foreign");
        }
        11 => t.each(&mut |e| {
            if matches!(e.name.as_str(), "xs:element" | "xs:complexType" | "xs:simpleType" | "xs:attribute" | "xs:sequence" | "xs:choice") && !e.kids.iter().any(|k| k.name == "xs:annotation") {
                e.kids.insert(0, n("xs:annotation"));
            }
        }),
        _ => t.each(&mut |e| {
            // character references in every value, and the defaults spelled out
            for a in &mut e.attrs {
                let first = a.1.chars().next();
                if let Some(c) = first.filter(|c| *c != '&') {
                    a.1 = format!("&#{};{}", c as u32, &a.1[c.len_utf8()..]);
                }
            }
        }),
    }
    same(s, &t.xml());
}
/// what a default stands for
fn defaults(s: &N) {
    let mut t = s.clone();
    let mut k = choose(s.count());
    let top = s.kids.len();
    let local = {
        let mut j = 1;
        let mut tops = vec![];
        for c in &s.kids[..top] {
            tops.push(j);
            j += c.count();
        }
        k > 0 && !tops.contains(&k)
    };
    let e = t.nth(&mut k).unwrap();
    match e.name.as_str() {
        "xs:element" if local => {
            if e.get("minOccurs").is_none() { e.set("minOccurs", "1") }
            if e.get("maxOccurs").is_none() { e.set("maxOccurs", "1") }
        }
        "xs:attribute" => if e.get("use").is_none() { e.set("use", "optional") },
        "xs:complexType" => e.set("mixed", ["false", "0"][choose(2)]),
        "xs:schema" => if e.get("elementFormDefault").is_none() { e.set("elementFormDefault", "unqualified") },
        _ => return cover("does not apply"),
    }
    same(s, &t.xml());
}
/// white space, a comment or a processing instruction in one place
fn one(s: &N, k: usize) {
    let x = match choose(3) {
        0 => space(k),
        1 => format!("<!--{}-->", inner(k)),
        _ => format!("<?p {}?>", inner(k)),
    };
    same(s, &somewhere(&s.xml(), &x));
}
fn file(fs: &[(&str, &str)]) -> N {
    let (n, x) = fs[choose(fs.len())];
    note(n);
    read(x)
}
harness! {
    seeds => whole(&seed(choose(4))); mix => whole(&super::file(&super::files::MIX[..20])); ext => whole(&super::file(&super::files::EXT[..12])); enum_ => whole(&super::file(&super::files::ENUM[..6])); inc => whole(&super::file(&super::files::INC[..9])); ns => whole(&super::file(&super::files::NS[..4]));
    one_0 => one(&seed(0), 1); one_1 => one(&seed(1), 1); one_2 => one(&seed(2), 1); one_3 => one(&seed(3), 1); defs => defaults(&seed(choose(4))); d_mix => defaults(&super::file(&super::files::MIX[..12]));
    x_mix => whole(&super::file(super::files::MIX)); x_ext => whole(&super::file(super::files::EXT)); x_enum => whole(&super::file(super::files::ENUM)); x_inc => whole(&super::file(super::files::INC)); x_ns => whole(&super::file(super::files::NS)); x_type => whole(&super::file(super::files::TYPE)); x_choice => whole(&super::file(super::files::CHOICE)); x_group => whole(&super::file(super::files::GROUP)); x_name => whole(&super::file(super::files::NAME));
    x_one => one(&super::file(super::files::MIX), 1); x_one_2 => one(&seed(choose(4)), 3); x_d_mix => defaults(&super::file(super::files::MIX));
}
