//! Unsupported constructs make the schema compiler fail; they are never skipped.
use vph::schema::*;
use vph::xs::*;
use vph::*;

/// What the compiler implements below an element (or does not reject, without harm for documents): everything else has to be refused.
fn children_of(e: &N) -> Option<&'static [&'static str]> {
    Some(match &e.name[3..] {
        "schema" => &["annotation", "include", "import", "element", "complexType", "simpleType"],
        "element" if e.get("type").is_some() || e.get("ref").is_some() => &["annotation"],
        "element" => &["annotation", "complexType", "simpleType"],
        "complexType" => &["annotation", "simpleContent", "complexContent", "sequence", "all", "choice", "attribute"],
        "simpleType" => &["annotation", "restriction"],
        "sequence" | "choice" | "all" => &["annotation", "element", "sequence", "choice"],
        "attribute" => &["annotation", "simpleType"],
        "simpleContent" | "complexContent" => &["annotation", "extension"],
        "extension" => &["annotation", "sequence", "attribute"],
        "restriction" => &["annotation", "enumeration", "length", "minLength", "maxLength", "pattern", "minInclusive", "maxInclusive", "fractionDigits", "totalDigits"],
        "annotation" => &["documentation", "appinfo"],
        _ => return None,
    })
}
fn attributes_of(e: &N, top: bool) -> Option<&'static [&'static str]> {
    Some(match &e.name[3..] {
        "element" if top => &["name", "type", "fixed"],
        "element" if e.get("ref").is_some() => &["ref", "minOccurs", "maxOccurs"],
        "element" => &["name", "type", "fixed", "minOccurs", "maxOccurs", "ref", "default", "form"],
        "complexType" if top => &["name"],
        "simpleType" if top => &["name"],
        "complexType" | "simpleType" | "simpleContent" | "complexContent" => &[],
        "sequence" | "choice" | "all" => &["minOccurs", "maxOccurs"],
        "attribute" => &["name", "type", "use", "default", "fixed"],
        _ => return None,
    })
}
fn refused(s: &N) {
    let x = s.xml();
    note(&x);
    check(compile(&x).is_err(), "an unsupported construct is ignored");
    cover("refused");
}
/// all elements, as paths
fn paths(e: &N, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(p.clone());
    for (i, k) in e.kids.iter().enumerate() {
        p.push(i);
        paths(k, p, out);
        p.pop();
    }
}
fn at<'a>(e: &'a mut N, p: &[usize]) -> &'a mut N {
    match p.split_first() {
        None => e,
        Some((i, r)) => at(&mut e.kids[*i], r),
    }
}
fn place(i: usize) -> (N, Vec<usize>) {
    let s = seed(i);
    let mut ps = vec![];
    paths(&s, &mut vec![], &mut ps);
    let p = ps[choose(ps.len())].clone();
    (s, p)
}
/// a symbolic name of n letters
fn letters(n: usize) -> String {
    (0..n)
        .map(|_| {
            let c = bytes(1)[0];
            assume(c.is_ascii_alphabetic());
            c as char
        })
        .collect()
}
/// the name of an element that must not be skipped in this place
fn foreign(ok: &[&str], n: usize) -> String {
    let name = if n == 0 { ELEMENTS[choose(ELEMENTS.len())][3..].to_string() } else { letters(n) };
    assume(!ok.iter().any(|k| *k == name));
    name
}
/// one more child, anywhere
fn child(i: usize, n: usize) {
    let (mut s, p) = place(i);
    let e = at(&mut s, &p);
    let Some(ok) = children_of(e) else { return cover("not looked into") };
    let mut c = vph::xs::n(&format!("xs:{}", foreign(ok, n)));
    if flip() {
        c.set("name", "q");
    }
    let k = if flip() { 0 } else { e.kids.len() };
    e.kids.insert(k, c);
    refused(&s);
}
/// one child replaced by something else
fn renamed(i: usize, n: usize) {
    let (mut s, mut p) = place(i);
    let Some(l) = p.pop() else { return cover("the schema itself") };
    let e = at(&mut s, &p);
    let Some(ok) = children_of(e) else { return cover("not looked into") };
    if e.kids[l].name == "xs:documentation" || e.kids[l].name == "xs:annotation" {
        return cover("documentation");
    }
    e.kids[l].name = format!("xs:{}", foreign(ok, n));
    refused(&s);
}
const INVENTED: &[&str] = &["q", "Name", "names", "minoccurs", "typ", "nilable", "Fixed", "refs"];
/// one more attribute, anywhere
fn attribute(i: usize) {
    let (mut s, p) = place(i);
    let e = at(&mut s, &p);
    let Some(ok) = attributes_of(e, p.len() == 1) else { return cover("not looked into") };
    let k = choose(ATTRIBUTES.len() - 1 + INVENTED.len());
    let k = if k < INVENTED.len() { INVENTED[k] } else { ATTRIBUTES[k - INVENTED.len()] };
    assume(!ok.contains(&k));
    e.set(k, ["true", "0"][choose(2)]);
    // mixed="0" says nothing
    assume(e.get("mixed") != Some("0"));
    refused(&s);
}
/// a fixed value where it would not be looked at
fn unfixed(i: usize) {
    let (mut s, p) = place(i);
    let e = at(&mut s, &p);
    if !matches!(&e.name[3..], "element" | "attribute") || e.get("type").is_some_and(|t| t.starts_with("xs:")) {
        return cover("not looked into");
    }
    e.set("fixed", "v");
    refused(&s);
}
const BUILTIN: &[&str] = &["string", "boolean", "integer", "long", "nonNegativeInteger", "positiveInteger", "int", "decimal", "float", "time", "date", "dateTime", "duration", "base64Binary", "hexBinary", "anyType", "any"];
const UNKNOWN: &[&str] = &["token", "short", "byte", "unsignedInt", "unsignedLong", "unsignedShort", "unsignedByte", "double", "anyURI", "QName", "ID", "IDREF", "IDREFS", "NMTOKEN", "NMTOKENS", "Name", "NCName", "language", "normalizedString", "negativeInteger", "nonPositiveInteger", "gYear", "gMonth", "gDay", "gYearMonth", "gMonthDay", "NOTATION", "anySimpleType", "ENTITY", "dateTimeStamp", "yearMonthDuration", "", " string", "string ", "String", "Int"];
/// types that are not known, or of a namespace that is not declared
fn type_(i: usize, n: usize) {
    let (mut s, p) = place(i);
    let e = at(&mut s, &p);
    let Some(j) = e.attrs.iter().position(|a| matches!(a.0.as_str(), "type" | "base" | "ref")) else { return cover("no type") };
    let t = if n > 0 { letters(n) } else { UNKNOWN[choose(UNKNOWN.len())].to_string() };
    assume(!BUILTIN.iter().any(|b| *b == t));
    e.attrs[j].1 = format!("{}{t}", ["xs:", "q:", ":", "Xs:"][if n > 0 { 0 } else { choose(4) }]);
    refused(&s);
}
/// content that is not known to be mixed or not
fn mixed() {
    let v = letters(4);
    assume(v != "true");
    let v = match choose(5) {
        0 => v,
        1 => "true".into(),
        2 => "1".into(),
        3 => "".into(),
        _ => " true".into(),
    };
    let s = schema(terse("complexType@name=T(sequence(element@name=a@type=xs:int))"));
    let mut s = s;
    s.kids[0].set("mixed", &v);
    refused(&s);
}
/// what is supported is not refused: the schemas themselves
fn base(i: usize) {
    let s = seed(i).xml();
    note(&s);
    check(compile(&s).is_ok(), "a supported schema is refused");
    cover("compiled");
}
fn kf(body: &str) {
    let s = schema(terse(body)).xml();
    note(&s);
    check(compile(&s).is_err(), "an unsupported construct is ignored");
}
harness! {
    base => super::base(choose(4));
    child => super::child(choose(4), 0); child_any => super::child(choose(4), 3);
    renamed => super::renamed(choose(4), 0); renamed_any => super::renamed(choose(4), 2);
    attribute => super::attribute(choose(4)); unfixed => super::unfixed(choose(4));
    type_ => super::type_(choose(4), 0); type_any => super::type_(choose(4), 3); mixed => super::mixed();
    kf_form => super::kf("complexType@name=T(sequence(element@name=a@type=xs:int@form=qualified))");
    kf_default => super::kf("complexType@name=T(sequence(element@name=a@type=xs:int@default=1))");
    x_child_any => super::child(choose(4), 1 + choose(9)); x_renamed_any => super::renamed(choose(4), 1 + choose(9)); x_type_any => super::type_(choose(4), 1 + choose(9));
}
