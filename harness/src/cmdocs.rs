//! The content-model harnesses: decode and re-encode arbitrary lists of children.
#![allow(dead_code)]
use vph::cm::*;
#[xsd::all(schema = "schemas/cm.xsd")]
pub mod m {}
macro_rules! run { ($t:ident) => { |x: &str| m::$t::from_xml(x).ok().map(|v| v.to_xml().unwrap_or_default()) } }
pub fn abc(s: &str) -> Vec<R> { s.chars().map(l).collect() }
pub fn plain(n: usize) { accepts("plain", Seq(vec![l('a'), opt(l('b')), plus(l('c')), star(l('d')), l('e')]), n, run!(Plain)) }
pub fn pick(n: usize) { accepts("pick", Seq(vec![Alt(abc("abc")), l('d')]), n, run!(Pick)) }
pub fn pickmany(n: usize) { accepts("pickmany", Seq(vec![opt(Alt(abc("ab"))), star(Alt(abc("cd"))), l('e')]), n, run!(Pickmany)) }
pub fn pickseq(n: usize) { accepts("pickseq", Seq(vec![plus(Alt(vec![Seq(vec![l('a'), opt(l('b'))]), Seq(abc("cd")), l('e')])), opt(l('f'))]), n, run!(Pickseq)) }
pub fn only(n: usize) { accepts("only", Alt(vec![l('a'), plus(l('b')), Seq(vec![opt(l('c')), l('d')])]), n, run!(Only)) }
pub fn group(n: usize) { accepts("group", Seq(vec![opt(Seq(vec![l('a'), opt(l('b'))])), l('c')]), n, run!(Group)) }
pub fn deep(n: usize) { accepts("deep", Seq(vec![opt(Seq(vec![l('a'), opt(Seq(vec![l('b'), opt(l('c'))])), opt(l('d'))])), opt(Alt(abc("ef"))), l('g')]), n, run!(Deep)) }
pub fn rep(n: usize) { accepts("rep", plus(Seq(vec![l('a'), opt(l('b')), star(l('c'))])), n, run!(Rep)) }
pub fn optrep(n: usize) { accepts("optrep", star(Seq(vec![opt(l('a')), l('b')])), n, run!(Optrep)) }
pub fn any(n: usize) { accepts_any_order("any", All(vec![(b'a', true), (b'b', false), (b'c', true), (b'd', false)]), n, run!(Any)) }
pub fn ext(n: usize) { accepts("ext", Seq(vec![l('a'), star(l('b')), l('c'), opt(l('d'))]), n, run!(Ext)) }
pub fn extopt(n: usize) { accepts("extopt", Seq(vec![l('a'), star(l('b')), opt(Seq(abc("cd")))]), n, run!(Extopt)) }
