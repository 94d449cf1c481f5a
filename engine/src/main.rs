mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Condvar, Mutex, RwLock};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c == '\u{7f}' => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let ll = get("--ir").expect("--ir FILE");
    let out = get("--out");
    let threads = num("--threads", 8) as usize;
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let t0 = Instant::now();
    let m = match ir::parse(&text) { Ok(m) => m, Err(e) => { eprintln!("symx: cannot parse IR: {e}"); std::process::exit(3) } };
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    eprintln!("parsed {} functions in {:.2}s", m.funcs.len(), parse_s);
    let hs: Vec<String> = get("--harness").expect("--harness a,b").split(',').map(String::from).collect();
    let mut res = vec![];
    let total = Instant::now() + Duration::from_secs(num("--total-time", 100000));
    for h in &hs {
        let Some(fi) = m.fmap.get(h).copied() else { res.push(format!("{{\"harness\":{},\"status\":\"missing\"}}", js(h))); continue };
        let t0 = Instant::now();
        let dl = (t0 + Duration::from_secs(num("--time", 600))).min(total);
        let sh = Shared {
            m: &m, queue: Mutex::new((vec![State::new(&m, fi)], 0)), cv: Condvar::new(), stop: AtomicBool::new(false), stats: Stats::default(), cache: RwLock::new(HashMap::new()),
            viol: Mutex::new(vec![]), incomplete: Mutex::new(BTreeMap::new()), covers: Mutex::new(BTreeMap::new()), samples: Mutex::new(vec![]), funcs: Mutex::new(HashSet::new()),
            errno_addr: 0, deadline: dl, max_insts: num("--max-insts", 60_000_000), max_paths: num("--max-paths", 5_000_000), max_viol: num("--max-viol", 4) as usize, trace: a.iter().any(|x| x == "--trace"),
            prof: a.iter().any(|x| x == "--prof"), profile: Mutex::new(BTreeMap::new()),
            concrete: get("--concrete").map(|f| std::fs::read(f).expect("concrete input")),
        };
        std::thread::scope(|s| { for _ in 0..threads { s.spawn(|| { let mut w = Worker::new(&sh); w.work(); }); } });
        { let p = sh.profile.lock().unwrap(); let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(25) { eprintln!("{n:8} {k}"); } }
        let st = &sh.stats;
        let v = sh.viol.into_inner().unwrap();
        let inc = sh.incomplete.into_inner().unwrap();
        let status = if !v.is_empty() { "violation" } else if !inc.is_empty() { "incomplete" } else { "ok" };
        let mut o = format!("{{\"harness\":{},\"status\":{}", js(h), js(status));
        for (k, x) in [("paths", &st.paths), ("infeasible", &st.infeasible), ("instructions", &st.insts), ("max_path_instructions", &st.max_insts), ("forks", &st.forks), ("decisions", &st.decisions), ("queries", &st.queries), ("cached", &st.cache), ("symbolic_bytes", &st.max_sym), ("asserts", &st.asserts), ("asserts_solver", &st.asserts_solver)] {
            let _ = write!(o, ",\"{k}\":{}", x.load(Relaxed));
        }
        let _ = write!(o, ",\"solver_s\":{:.3},\"wall_s\":{:.3}", st.solver_us.load(Relaxed) as f64 / 1e6, t0.elapsed().as_secs_f64());
        let _ = write!(o, ",\"incomplete\":{{{}}}", inc.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"covers\":{{{}}}", sh.covers.into_inner().unwrap().iter().map(|(k, n)| format!("{}:{n}", js(k))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"samples\":[{}]", sh.samples.into_inner().unwrap().iter().map(|(b, n)| format!("{{\"input\":{},\"notes\":[{}]}}", js(&hex(b)), n.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"violations\":[{}]", v.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"input\":{},\"notes\":[{}],\"stack\":[{}]}}", js(&v.kind), js(&v.msg), js(&hex(&v.input)), v.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let fs = sh.funcs.into_inner().unwrap();
        let mut names: Vec<&str> = fs.iter().map(|i| m.funcs[*i as usize].name.as_str()).collect();
        names.sort();
        let _ = write!(o, ",\"functions\":[{}]}}", names.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        eprintln!("{h}: {status} paths={} infeasible={} insts={} queries={} cached={} solver={:.2}s wall={:.2}s {:?}", st.paths.load(Relaxed), st.infeasible.load(Relaxed), st.insts.load(Relaxed), st.queries.load(Relaxed), st.cache.load(Relaxed), st.solver_us.load(Relaxed) as f64 / 1e6, t0.elapsed().as_secs_f64(), inc);
        for x in &v { eprintln!("  {}: {} notes={:?}", x.kind, x.msg, x.notes); }
        res.push(o);
    }
    let doc = format!("{{\"parse_s\":{parse_s:.2},\"results\":[\n{}\n]}}\n", res.join(",\n"));
    match out { Some(f) => std::fs::write(f, doc).expect("write result"), None => println!("{doc}") }
}
