//! Schemas as trees, for checks that change them.
use crate::vp::*;

#[derive(Clone, Debug)]
pub struct N {
    /// name with prefix
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<N>,
    pub text: String,
}
pub fn n(name: &str) -> N {
    N { name: name.into(), attrs: vec![], kids: vec![], text: String::new() }
}
/// Reads `name@attr=value@attr=value(kids) name...`: a terse notation, `xs:` implied.
pub fn terse(s: &str) -> Vec<N> {
    let b = s.as_bytes();
    let mut i = 0;
    let r = list(b, &mut i);
    assert!(i == b.len());
    r
}
fn word(b: &[u8], i: &mut usize) -> String {
    let s = *i;
    while *i < b.len() && !matches!(b[*i], b'@' | b'=' | b'(' | b')' | b' ' | b'\n') {
        *i += 1;
    }
    String::from_utf8(b[s..*i].to_vec()).unwrap()
}
fn list(b: &[u8], i: &mut usize) -> Vec<N> {
    let mut r = vec![];
    loop {
        while *i < b.len() && matches!(b[*i], b' ' | b'\n') {
            *i += 1;
        }
        if *i == b.len() || b[*i] == b')' {
            return r;
        }
        let mut e = n(&format!("xs:{}", word(b, i)));
        while *i < b.len() && b[*i] == b'@' {
            *i += 1;
            let k = word(b, i);
            *i += 1;
            e.attrs.push((k, word(b, i)));
        }
        if *i < b.len() && b[*i] == b'(' {
            *i += 1;
            e.kids = list(b, i);
            *i += 1;
        }
        r.push(e);
    }
}
/// Reads a schema whose elements have the prefix xs and whose namespaces are declared at the root.
pub fn read(x: &str) -> N {
    fn go(e: roxmltree::Node) -> N {
        let mut m = n(&format!("xs:{}", e.tag_name().name()));
        if e == e.document().root_element() {
            for s in e.namespaces() {
                if s.name() != Some("xml") {
                    m.attrs.push((s.name().map_or("xmlns".into(), |p| format!("xmlns:{p}")), s.uri().into()));
                }
            }
        }
        m.attrs.extend(e.attributes().map(|a| (a.name().to_string(), escape(a.value()))));
        m.kids = e.children().filter(|c| c.is_element()).map(go).collect();
        if m.name == "xs:documentation" {
            m.text = escape(e.text().unwrap_or(""));
        }
        m
    }
    go(roxmltree::Document::parse(x).unwrap().root_element())
}
pub fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}
pub fn schema(kids: Vec<N>) -> N {
    N { name: "xs:schema".into(), attrs: vec![("xmlns:xs".into(), "http://www.w3.org/2001/XMLSchema".into())], kids, text: String::new() }
}
impl N {
    pub fn a(mut self, k: &str, v: &str) -> N {
        self.attrs.push((k.into(), v.into()));
        self
    }
    pub fn set(&mut self, k: &str, v: &str) {
        match self.attrs.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = v.into(),
            None => self.attrs.push((k.into(), v.into())),
        }
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(N::count).sum::<usize>()
    }
    /// the k-th element in document order
    pub fn nth(&mut self, k: &mut usize) -> Option<&mut N> {
        if *k == 0 {
            return Some(self);
        }
        *k -= 1;
        self.kids.iter_mut().find_map(|x| x.nth(k))
    }
    pub fn each(&mut self, f: &mut dyn FnMut(&mut N)) {
        f(self);
        for k in &mut self.kids {
            k.each(f);
        }
    }
    pub fn xml(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        o.push('<');
        o.push_str(&self.name);
        for (k, v) in &self.attrs {
            o.push(' ');
            o.push_str(k);
            o.push_str("=\"");
            o.push_str(v);
            o.push('"');
        }
        if self.kids.is_empty() && self.text.is_empty() {
            o.push_str("/>");
            return;
        }
        o.push('>');
        o.push_str(&self.text);
        for k in &self.kids {
            k.write(o);
        }
        o.push_str("</");
        o.push_str(&self.name);
        o.push('>');
    }
}

/// Schemas that together use everything the compiler supports.
pub fn seed(i: usize) -> N {
    match i {
        0 => schema(terse(
            "element@name=r(complexType(sequence(element@name=a@type=xs:string element@name=b@type=S@minOccurs=0 element@name=c@type=T@maxOccurs=unbounded element@ref=g@minOccurs=0@maxOccurs=unbounded element@name=f@type=xs:string@fixed=v) attribute@name=x@type=xs:int@use=required attribute@name=y@type=E))
             complexType@name=T(sequence(element@name=d(complexType(attribute@name=z@type=xs:int@fixed=1))))
             simpleType@name=S(restriction@base=xs:int(minInclusive@value=1)) simpleType@name=E(restriction@base=xs:string(enumeration@value=v1 enumeration@value=v2)) element@name=g@type=xs:decimal",
        )),
        1 => schema(terse(
            "complexType@name=T(choice(element@name=a@type=xs:string element@name=b@type=xs:int@maxOccurs=unbounded sequence(element@name=c@type=xs:string@minOccurs=0 element@name=d@type=xs:int)))
             element@name=r(complexType(sequence(choice@minOccurs=0@maxOccurs=unbounded(element@name=e@type=T element@name=f(complexType(sequence))) sequence@minOccurs=0(element@name=h@type=xs:string element@name=i@type=xs:string@minOccurs=0))))
             element@name=s(complexType(all(element@name=j@type=xs:string element@name=k@type=xs:date@minOccurs=0)))",
        )),
        2 => schema(terse(
            "complexType@name=B(sequence(element@name=a@type=xs:string) attribute@name=x@type=xs:long)
             complexType@name=D(complexContent(extension@base=B(sequence@minOccurs=0(element@name=b@type=xs:int) attribute@name=y@type=xs:string)))
             complexType@name=P(simpleContent(extension@base=xs:int(attribute@name=z@type=xs:boolean)))
             element@name=r(complexType(sequence(element@name=d@type=D element@name=p@type=P@minOccurs=0 element@name=q(simpleType(restriction@base=xs:string(enumeration@value=u enumeration@value=w))))))",
        )),
        _ => {
            let mut s = schema(terse(
                "element@name=r@type=t:T element@name=g@type=t:S
                 complexType@name=T(annotation(documentation) sequence(element@ref=t:g element@name=a@type=t:S(annotation(documentation)) element@name=b(complexType(sequence(element@ref=t:g@maxOccurs=unbounded) attribute@name=w@type=t:E)) element@name=c@type=xs:duration@minOccurs=0))
                 simpleType@name=S(restriction@base=xs:string(maxLength@value=9 pattern@value=a*)) simpleType@name=E(restriction@base=xs:string(enumeration@value=k))",
            ));
            s.each(&mut |x| {
                if x.name == "xs:documentation" {
                    x.text = " some  text ".into()
                }
            });
            s.a("xmlns:t", "urn:t").a("targetNamespace", "urn:t").a("elementFormDefault", "qualified")
        }
    }
}
pub const SEEDS: usize = 4;

/// the names of all XSD elements
pub const ELEMENTS: &[&str] = &[
    "xs:all", "xs:alternative", "xs:annotation", "xs:any", "xs:anyAttribute", "xs:appinfo", "xs:assert", "xs:assertion", "xs:attribute", "xs:attributeGroup", "xs:choice", "xs:complexContent", "xs:complexType", "xs:documentation", "xs:element", "xs:enumeration",
    "xs:explicitTimezone", "xs:extension", "xs:field", "xs:fractionDigits", "xs:group", "xs:import", "xs:include", "xs:key", "xs:keyref", "xs:length", "xs:list", "xs:maxExclusive", "xs:maxInclusive", "xs:maxLength", "xs:minExclusive", "xs:minInclusive",
    "xs:minLength", "xs:notation", "xs:openContent", "xs:override", "xs:pattern", "xs:redefine", "xs:restriction", "xs:schema", "xs:selector", "xs:sequence", "xs:simpleContent", "xs:simpleType", "xs:totalDigits", "xs:union", "xs:unique", "xs:whiteSpace",
];
/// the names of all attributes of XSD elements
pub const ATTRIBUTES: &[&str] = &[
    "abstract", "attributeFormDefault", "base", "block", "blockDefault", "default", "defaultAttributes", "elementFormDefault", "final", "finalDefault", "fixed", "form", "id", "itemType", "maxOccurs", "memberTypes", "minOccurs", "mixed", "name", "namespace",
    "nillable", "processContents", "public", "ref", "refer", "schemaLocation", "source", "substitutionGroup", "system", "targetNamespace", "test", "type", "use", "value", "version", "xpath", "xml:lang",
];
pub fn pick_of(l: &[&str]) -> String {
    l[choose(l.len())].to_string()
}
