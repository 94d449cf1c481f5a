//! The schema corpus: for every schema, the generated types, and a generator of all (bounded) valid
//! documents together with the value each of them has to decode to. The generators are written from the
//! schemas and the documented mapping alone; they are the oracle.
#![allow(unused_imports, dead_code)]

/// A generated type, reduced to its public API.
pub trait Doc: PartialEq + Sized + Clone + std::fmt::Debug {
    fn dec(x: &str) -> Result<Self, xsd::decode::FromXmlError>;
    fn enc(&self) -> Result<Vec<u8>, xsd::xml::writer::Error>;
}
macro_rules! docs {
    ($($t:ty),*) => { $(impl crate::corpus::Doc for $t {
        fn dec(x: &str) -> Result<Self, xsd::decode::FromXmlError> { <$t>::from_xml(x) }
        fn enc(&self) -> Result<Vec<u8>, xsd::xml::writer::Error> { self.to_xml() }
    })* };
}

/// Calls $m! with every generator of the corpus.
macro_rules! corpus {
    ($m:ident) => {
        $m! {
            seq => basic::seq; seq_many => basic::seq_many; attrs => basic::attrs; attrs_sub => basic::attrs_sub; nested => basic::nested; nested_book => basic::nested_book;
            named => basic::named; parcel => basic::parcel; words => basic::words; coll => basic::coll; empty => basic::empty;
            choice => choices::choice; choice_vec => choices::choice_vec; choice2 => choices::choice2; choice3 => choices::choice3; ctchoice => choices::ctchoice;
            choice_refs => choices::choice_refs; all => choices::all; all_opt => choices::all_opt;
            groups => groups::groups; groups_rep => groups::groups_rep; groups2 => groups::groups2; groups3 => groups::groups3;
            ext_attr => exts::ext_attr; ext_seq => exts::ext_seq; ext_simple => exts::ext_simple; ext_base_attr => exts::ext_base_attr; ext_chain => exts::ext_chain;
            fixed_root => types::fixed_root; fixed => types::fixed; lits => types::lits; lits_attr => types::lits_attr; enum_root => types::enum_root; enum_hue => types::enum_hue; enums => types::enums;
            simple_nick => types::simple_nick; simple_n => types::simple_n; simple => types::simple;
            ns_q => namespaces::ns_q; ns_u => namespaces::ns_u; ns_top_q => namespaces::ns_top_q; ns_top_u => namespaces::ns_top_u; imp => namespaces::imp; imp_kit => namespaces::imp_kit; imp_u => namespaces::imp_u; inc => namespaces::inc; same => namespaces::same; cyc => namespaces::cyc;
        }
    };
}
pub mod basic;
pub mod choices;
pub mod exts;
pub mod groups;
pub mod namespaces;
pub mod types;

// ---------------------------------------------------------------- what can be asked of one (value, document) pair
use vph::*;
/// decoding gives the value
pub fn decodes<D: Doc>(v: &D, x: &str) {
    note(x);
    match D::dec(x) {
        Ok(w) => check(w == *v, "from_xml gives another value than the document denotes"),
        Err(e) => {
            note(&e.to_string());
            check(false, "from_xml rejects a valid document")
        }
    }
}
/// encoding gives the document
pub fn encodes<D: Doc>(v: &D, e: &El) -> String {
    let Ok(x) = v.enc() else {
        check(false, "to_xml failed");
        return String::new();
    };
    let Ok(x) = String::from_utf8(x) else {
        check(false, "to_xml wrote invalid UTF-8");
        return String::new();
    };
    note(&x);
    if let Err(m) = denotes(&x, e) {
        check(false, m);
    }
    x
}
/// both, and the round trip
pub fn both<D: Doc>(g: fn() -> (D, El)) {
    let (v, e) = g();
    decodes(&v, &plain(&e));
    let x = encodes(&v, &e);
    decodes(&v, &x);
    cover("both directions");
}
/// breaking the document in one place makes it rejected
pub fn rejects<D: Doc>(g: fn() -> (D, El)) {
    let (_, mut x) = g();
    if break_one(&mut x).is_none() {
        return cover("nothing to break");
    }
    let x = plain(&x);
    note(&x);
    check(D::dec(&x).is_err(), "from_xml accepts an invalid document");
    cover("rejected");
}
