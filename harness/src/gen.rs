//! An independent reading of XML Schema: all (bounded) valid documents of a schema, made from the schema file
//! itself. Shares nothing with the code under test but the XML parser.
use crate::tree::*;
use crate::vp::*;
use roxmltree::{Document, Node};
use std::cell::Cell;

const XS: &str = "http://www.w3.org/2001/XMLSchema";
pub struct Set<'a> {
    pub docs: Vec<Document<'a>>,
    /// how many more choices may differ from the first option
    left: Cell<usize>,
    leaves: Cell<u8>,
}
type Nd<'a> = Node<'a, 'a>;
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn kids<'a>(n: Nd<'a>) -> impl Iterator<Item = Nd<'a>> {
    n.children().filter(|c| c.is_element() && !c.has_tag_name((XS, "annotation")))
}
fn kid<'a>(n: Nd<'a>, name: &str) -> Option<Nd<'a>> {
    kids(n).find(|c| c.tag_name().name() == name)
}
fn target<'a>(n: Nd<'a>) -> &'a str {
    n.document().root_element().attribute("targetNamespace").unwrap_or("")
}
fn qualified(n: Nd) -> bool {
    n.document().root_element().attribute("elementFormDefault") == Some("qualified")
}
enum Ty<'a> {
    Builtin(&'a str),
    Node(Nd<'a>),
}
impl<'a> Set<'a> {
    /// Documents that differ from the smallest one (no optional parts, first alternatives) in up to `left` choices.
    pub fn new(files: &[&'a str], left: usize) -> Set<'a> {
        Set { docs: files.iter().map(|f| Document::parse(f).unwrap()).collect(), left: Cell::new(left), leaves: Cell::new(0) }
    }
    fn choose(&self, n: usize) -> usize {
        if self.left.get() == 0 || n < 2 {
            return 0;
        }
        let c = choose(n);
        if c > 0 {
            self.left.set(self.left.get() - 1);
        }
        c
    }
    /// a character that differs from leaf to leaf; that of the first is symbolic
    fn ch(&self, lo: u8, hi: u8) -> char {
        let k = self.leaves.get();
        self.leaves.set(k + 1);
        if k == 0 {
            range(lo, hi) as char
        } else {
            (lo + k % (hi - lo + 1)) as char
        }
    }
    fn top(&'a self, kind: &str, ns: &str, name: &str) -> Nd<'a> {
        for d in &self.docs {
            let r = d.root_element();
            if target(r) != ns {
                continue;
            }
            for c in kids(r) {
                let k = c.tag_name().name();
                if c.attribute("name") == Some(name) && (k == kind || kind == "type" && k != "element") {
                    return c;
                }
            }
        }
        panic!("the corpus schema does not declare {name}")
    }
    fn qname(n: Nd<'a>, v: &'a str) -> (&'a str, &'a str) {
        match v.split_once(':') {
            Some((p, l)) => (n.lookup_namespace_uri(Some(p)).unwrap(), l),
            None => (n.lookup_namespace_uri(None).unwrap_or(""), v),
        }
    }
    fn ty(&'a self, n: Nd<'a>, v: &'a str) -> Ty<'a> {
        let (ns, l) = Self::qname(n, v);
        if ns == XS {
            Ty::Builtin(l)
        } else {
            Ty::Node(self.top("type", ns, l))
        }
    }
    /// all documents with this root element
    pub fn document(&'a self, root: &str) -> El {
        let r = self.docs[0].root_element();
        self.element(self.top("element", target(r), root), true)
    }
    fn element(&'a self, d: Nd<'a>, top: bool) -> El {
        if let Some(r) = d.attribute("ref") {
            let (ns, l) = Self::qname(d, r);
            return self.element(self.top("element", ns, l), true);
        }
        let mut e = el(leak(d.attribute("name").unwrap()));
        if top || qualified(d) {
            e.ns = leak(target(d));
        }
        if let Some(f) = d.attribute("fixed") {
            e.text = Some((f.to_string(), K::Fixed));
            return e;
        }
        let ty = match d.attribute("type") {
            Some(t) => self.ty(d, t),
            None => match kids(d).next() {
                Some(t) => Ty::Node(t),
                None => Ty::Builtin("string"),
            },
        };
        self.content(ty, &mut e);
        e
    }
    fn content(&'a self, ty: Ty<'a>, e: &mut El) {
        let n = match ty {
            Ty::Node(n) if n.tag_name().name() == "complexType" => n,
            t => {
                let t = self.simple(t);
                e.text = Some((t.x, t.k));
                return;
            }
        };
        if let Some(c) = kid(n, "simpleContent").or_else(|| kid(n, "complexContent")) {
            let x = kid(c, "extension").unwrap();
            self.content(self.ty(x, x.attribute("base").unwrap()), e);
            self.body(x, e);
        } else {
            self.body(n, e);
        }
    }
    fn body(&'a self, n: Nd<'a>, e: &mut El) {
        for c in kids(n) {
            match c.tag_name().name() {
                "attribute" => self.attribute(c, e),
                _ => self.particle(c, &mut e.kids, true, 0),
            }
        }
    }
    fn attribute(&'a self, a: Nd<'a>, e: &mut El) {
        let req = match a.attribute("use") {
            Some("prohibited") => return,
            u => u == Some("required"),
        };
        if !req && self.choose(2) == 0 {
            return;
        }
        let t = match (a.attribute("fixed"), a.attribute("type")) {
            (Some(f), _) => fixed(f),
            (_, Some(t)) => self.simple(self.ty(a, t)),
            _ => self.simple(Ty::Node(kid(a, "simpleType").unwrap())),
        };
        e.attrs.push(At { name: leak(a.attribute("name").unwrap()), val: t.x, kind: t.k, req });
    }
    fn simple(&'a self, t: Ty<'a>) -> T {
        match t {
            Ty::Builtin(b) => match b {
                "int" | "integer" | "long" | "nonNegativeInteger" | "positiveInteger" => tx(self.ch(b'1', b'9').to_string(), K::Int),
                "boolean" => tx(["true", "false"][self.choose(2)], K::Bool),
                "decimal" => tx(format!("{}.5", self.ch(b'1', b'9')), K::Num),
                "float" => tx("2.5", K::Num),
                _ => tx(self.ch(b'a', b'z').to_string(), K::Str),
            },
            Ty::Node(n) => {
                let r = kid(n, "restriction").unwrap();
                let vs: Vec<_> = kids(r).filter(|c| c.tag_name().name() == "enumeration").map(|c| c.attribute("value").unwrap()).collect();
                if vs.is_empty() {
                    self.simple(self.ty(r, r.attribute("base").unwrap()))
                } else {
                    tx(vs[self.choose(vs.len())], K::Enum)
                }
            }
        }
    }
    /// `must`: without what the particle contributes, the document is invalid
    /// `least`: as alternative of a choice something has to be there (an empty alternative is known not to work)
    fn particle(&'a self, p: Nd<'a>, out: &mut Vec<El>, must: bool, least: usize) {
        let kind = p.tag_name().name();
        let min: usize = p.attribute("minOccurs").map_or(1, |v| v.parse().unwrap());
        let max: usize = p.attribute("maxOccurs").map_or(1, |v| if v == "unbounded" { 9 } else { v.parse().unwrap() });
        let low = min.max(least);
        let n = low + self.choose(max.min(low.max(1) + 1).max(low) - low + 1);
        let must = must && n == 1 && min == 1;
        for _ in 0..n {
            match kind {
                "element" => {
                    let mut e = self.element(p, false);
                    e.req = must;
                    out.push(e);
                }
                "sequence" | "all" => {
                    for c in kids(p) {
                        self.particle(c, out, must, 0);
                    }
                }
                "choice" => {
                    let alts: Vec<_> = kids(p).collect();
                    let must = must && alts.iter().all(|a| a.tag_name().name() == "element" && a.attribute("minOccurs").is_none());
                    let a = alts[self.choose(alts.len())];
                    self.particle(a, out, must, 1);
                }
                k => panic!("the corpus schema uses {k}"),
            }
        }
    }
}
