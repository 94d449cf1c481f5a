//! Developer aid: prints the public declarations generated for a schema.
fn main() {
    for p in std::env::args().skip(1) {
        println!("== {p}");
        let s = xsd_internal::xsd::schema::Schema::parse_file(&p).unwrap_or_else(|e| panic!("{e}"));
        let t = s.generate_all().unwrap().to_string();
        if std::env::var("FULL").is_ok() {
            println!("{t}");
            continue;
        }
        for (i, _) in t.match_indices("pub struct").chain(t.match_indices("pub enum")) {
            let r = &t[i..];
            let e = r.find("impl").unwrap_or(r.len());
            println!("{}", &r[..e].replace(" :: ", "::").replace(" : ", ": ").replace(" , ", ", "));
        }
    }
}
