//! Cardinality: minOccurs, maxOccurs and use decide between T, Option<T>, Vec<T> and Option<Vec<T>>.
use vph::schema::*;
use vph::*;

/// a number attribute of one or two symbolic digits (or none at all), and its value
fn occurs(name: &str, default: u32) -> (String, u32) {
    let n = choose(3);
    if n == 0 {
        return (String::new(), default);
    }
    let (mut t, mut v) = (format!(" {name}=\""), 0u32);
    for _ in 0..n {
        let d = range(b'0', b'9');
        t.push(d as char);
        v = v * 10 + (d - b'0') as u32;
    }
    t.push('"');
    (t, v)
}
/// what a type does about cardinality
fn shape(t: &str) -> (bool, bool) {
    let (opt, t) = match t.strip_prefix("Option<") {
        Some(t) => (true, t),
        None => (false, t),
    };
    (opt, t.starts_with("Vec<"))
}
fn min_max() -> (String, u32, bool) {
    let (a, min) = occurs("minOccurs", 1);
    let (b, many) = if flip() {
        (" maxOccurs=\"unbounded\"".to_string(), true)
    } else {
        let (b, max) = occurs("maxOccurs", 1);
        assume(max >= 1 && max >= min);
        (b, max > 1)
    };
    (format!("{a}{b}"), min, many)
}
/// the only field (or all of them) of `ty` must have the given cardinality
fn go(schema: &str, ty: &str, min: u32, many: bool) {
    note(schema);
    match compile(schema) {
        Err(e) => {
            note(&e.to_string());
            check(false, "a supported schema is rejected");
        }
        Ok(ts) => {
            let it = items(ts);
            let fs = field_types(&it, ty);
            check(!fs.is_empty(), "the field is missing");
            for t in fs {
                note(t);
                check(shape(t) == (min == 0, many), "the field has the wrong cardinality");
            }
        }
    }
    cover("compiled");
}
fn ct(inner: &str) -> String {
    xsd(&format!("<xs:element name=\"r\"><xs:complexType>{inner}</xs:complexType></xs:element><xs:element name=\"q\" type=\"xs:int\"/>"))
}
fn element() {
    let (m, min, many) = min_max();
    go(&ct(&format!("<xs:sequence><xs:element name=\"a\" type=\"xs:int\"{m}/></xs:sequence>")), "R", min, many);
}
fn reference() {
    let (m, min, many) = min_max();
    go(&ct(&format!("<xs:sequence><xs:element ref=\"q\"{m}/></xs:sequence>")), "R", min, many);
}
fn inline() {
    let (m, min, many) = min_max();
    go(&ct(&format!("<xs:sequence><xs:element name=\"a\"{m}><xs:complexType><xs:attribute name=\"x\" type=\"xs:int\"/></xs:complexType></xs:element></xs:sequence>")), "R", min, many);
}
fn group() {
    let (m, min, many) = min_max();
    go(&ct(&format!("<xs:sequence{m}><xs:element name=\"aa\" type=\"xs:int\"/><xs:element name=\"bb\" type=\"xs:int\"/></xs:sequence>")), "R", min, many);
}
fn inner_group() {
    let (m, min) = occurs("minOccurs", 1);
    assume(min <= 1);
    go(&ct(&format!("<xs:sequence><xs:sequence{m}><xs:element name=\"aa\" type=\"xs:int\"/><xs:element name=\"bb\" type=\"xs:int\"/></xs:sequence></xs:sequence>")), "R", min, false);
}
fn choice() {
    let (m, min, many) = min_max();
    go(&ct(&format!("<xs:sequence><xs:choice{m}><xs:element name=\"aa\" type=\"xs:int\"/><xs:element name=\"bb\" type=\"xs:int\"/></xs:choice></xs:sequence>")), "R", min, many);
}
fn all() {
    let (m, min) = occurs("minOccurs", 1);
    assume(min <= 1);
    go(&ct(&format!("<xs:all><xs:element name=\"a\" type=\"xs:int\"{m}/></xs:all>")), "R", min, false);
}
fn attribute() {
    let (u, opt) = [("", true), (" use=\"optional\"", true), (" use=\"required\"", false)][choose(3)];
    let t = pick(&["xs:string", "xs:int", "T"]);
    let s = xsd(&format!("<xs:simpleType name=\"T\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"v\"/></xs:restriction></xs:simpleType><xs:complexType name=\"C\"><xs:attribute name=\"u\" type=\"{t}\"{u}/></xs:complexType>"));
    go(&s, "C", !opt as u32, false);
}
/// attributes whose use is prohibited are not part of the type, any other use is not a use
fn attribute_use() {
    let n = choose(4) + 7;
    let v: String = (0..n).map(|_| range(b'a', b'z') as char).collect();
    let s = xsd(&format!("<xs:complexType name=\"C\"><xs:attribute name=\"x\" type=\"xs:int\"/><xs:attribute name=\"u\" type=\"xs:int\" use=\"{v}\"/></xs:complexType>"));
    note(&s);
    match compile(&s) {
        Err(_) => {
            check(v != "required" && v != "optional" && v != "prohibited", "a supported use is rejected");
            cover("unknown use");
        }
        Ok(ts) => {
            let it = items(ts);
            let f = field(&it, "C", "u");
            check(fields(&it, "C") == 1 + f.is_some() as usize, "wrong number of fields");
            match v.as_str() {
                "required" => check(f == Some("i32"), "a required attribute is not mandatory"),
                "optional" => check(f == Some("Option<i32>"), "an optional attribute is not optional"),
                "prohibited" => check(f.is_none(), "a prohibited attribute is part of the type"),
                _ => check(false, "an unknown use is accepted"),
            }
            cover("known use");
        }
    }
}
harness! {
    element => super::element(); reference => super::reference(); inline => super::inline(); group => super::group(); inner_group => super::inner_group();
    choice => super::choice(); all => super::all(); attribute => super::attribute(); attribute_use => super::attribute_use();
}
