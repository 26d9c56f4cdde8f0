mod expr; mod ir; mod mem; mod exec; mod ext; mod solver; mod merge; mod range;
use std::io::Write;
use std::time::Instant;

/// deterministic pseudo-random bytes; the native replay library uses the same function
pub fn mix(name: &str, inp: &[u8], n: usize) -> Vec<u8> {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut f = |b: u8| { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); };
    for b in name.bytes() { f(b) }
    f(0xff);
    for b in inp { f(*b) }
    let mut out = Vec::with_capacity(n);
    let mut x = h;
    while out.len() < n {
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^= z >> 31;
        out.extend_from_slice(&z.to_le_bytes());
    }
    out.truncate(n);
    out
}
/// Some(true) = sat, Some(false) = unsat
pub fn cvc5(script: &str) -> Option<bool> {
    use std::process::*;
    let mut c = Command::new("cvc5").args(["--lang=smt2", "--tlimit=60000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut i = c.stdin.take()?;
    let s = script.to_string();
    let h = std::thread::spawn(move || { let _ = i.write_all(s.as_bytes()); });
    let o = c.wait_with_output().ok()?; let _ = h.join();
    let t = String::from_utf8_lossy(&o.stdout);
    match t.lines().next().unwrap_or("").trim() { "sat" => Some(true), "unsat" => Some(false), _ => None }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new(); let mut harness = String::new(); let mut out = String::new();
    let mut lim = exec::Limits { max_paths: 2_000_000, max_steps: 150_000_000, wall: 600.0, stop: 0 };
    let mut shard = (0, 1); let mut samples = 4; let mut cross = false; let mut seed = 1; let mut tmo = 20000;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v, "--harness" => harness = v, "--out" => out = v,
            "--wall" => lim.wall = v.parse().unwrap(), "--max-paths" => lim.max_paths = v.parse().unwrap(), "--max-steps" => lim.max_steps = v.parse().unwrap(),
            "--shard" => { let p: Vec<u32> = v.split('/').map(|x| x.parse().unwrap()).collect(); shard = (p[0], p[1]); }
            "--samples" => samples = v.parse().unwrap(), "--seed" => seed = v.parse().unwrap(), "--timeout-ms" => tmo = v.parse().unwrap(),
            "--stop" => lim.stop = v.parse().unwrap(),
            "--cross" => { cross = true; i += 1; continue; }
            x => { eprintln!("unknown argument {x}"); std::process::exit(2); }
        }
        i += 2;
    }
    // a big stack: expression walks recurse
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let t0 = Instant::now();
        let m = ir::Module::load(&ll);
        let tl = t0.elapsed().as_secs_f64();
        let mut x = exec::Exec::new(&m, lim);
        x.shard = shard; x.max_samples = samples; x.cross = cross; x.seed = seed; x.s.timeout_ms = tmo;
        x.run(&harness);
        x.s.kill();
        let mut o = String::from("{\n");
        o.push_str(&format!("\"harness\": {}, \"shard\": \"{}/{}\", \"load_s\": {:.3}, \"wall_s\": {:.3},\n", js(&harness), shard.0, shard.1, tl, t0.elapsed().as_secs_f64()));
        o.push_str(&format!("\"paths\": {}, \"pruned\": {}, \"forks\": {}, \"joins\": {}, \"ranged\": {}, \"steps\": {}, \"incomplete\": {},\n", x.paths, x.pruned, x.forks, x.joins, x.ranged, x.steps, x.incomplete));
        o.push_str(&format!("\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"fallbacks\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"cross_checked\": {},\n", x.s.queries, x.s.sat, x.s.unsat, x.s.unknown, x.s.cached, x.s.fallbacks, x.s.time, x.s.max_time, x.crossed));
        o.push_str(&format!("\"nodes\": {}, \"tables\": {},\n", expr::cx().nodes.len(), expr::cx().tables.len()));
        o.push_str("\"checks\": {"); let v: Vec<String> = x.checks.iter().map(|(k, c)| format!("{}: {{\"smt\": {}, \"simplified\": {}, \"violated\": {}, \"reached\": {}}}", js(k), c[0], c[1], c[2], c[3])).collect(); o.push_str(&v.join(", ")); o.push_str("},\n");
        o.push_str("\"covers\": {"); let v: Vec<String> = x.covers.iter().map(|(k, c)| format!("{}: {}", js(k), c)).collect(); o.push_str(&v.join(", ")); o.push_str("},\n");
        o.push_str("\"ufs\": {"); let v: Vec<String> = x.uf_apps.iter().map(|(k, c)| format!("{}: {}", js(k), c)).collect(); o.push_str(&v.join(", ")); o.push_str("},\n");
        let mut ex: Vec<&String> = x.ext_used.iter().collect(); ex.sort();
        o.push_str(&format!("\"externs\": [{}],\n", ex.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
        // functions of the code under test that were executed
        let mut fns = std::collections::BTreeSet::new();
        let mut seen = std::collections::HashSet::new();
        for (fid, bbs) in x.cov.iter().enumerate() {
            if bbs.is_empty() { continue; }
            let f = m.func(fid as u32);
            for (k, hit) in bbs.iter().enumerate() { if *hit { for d in &f.blocks[k].dbg { if *d != 0 && seen.insert(*d) { for (file, func, _) in m.locate(*d) { if let Some(p) = file.find("/repo/src/") { fns.insert(format!("{}: {}", &file[p + 6..], func)); } } } } } }
        }
        o.push_str(&format!("\"functions\": [{}],\n", fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
        let mut sites: Vec<(u64, String)> = x.sites.iter().map(|((f, b, i), n)| { let fu = m.func(*f); let d = fu.blocks[*b as usize].dbg.get(*i as usize).copied().unwrap_or(0); let l: Vec<String> = m.locate(d).into_iter().map(|(f, g, n)| format!("{g} ({f}:{n})")).take(6).collect(); (*n, if l.is_empty() { fu.name.to_string() } else { l.join(" <- ") }) }).collect();
        sites.sort(); sites.reverse(); sites.truncate(25);
        o.push_str(&format!("\"sites\": [{}],\n", sites.iter().map(|(n, s)| js(&format!("{n} {s}"))).collect::<Vec<_>>().join(", ")));
        o.push_str(&format!("\"errors\": [{}],\n", x.errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
        o.push_str(&format!("\"samples\": [{}],\n", x.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
        let v: Vec<String> = x.viols.iter().map(|v| format!("{{\"tag\": {}, \"detail\": {}, \"tape\": {}, \"trace\": [{}]}}", js(&v.tag), js(&v.detail), js(&v.tape), v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))).collect();
        o.push_str(&format!("\"violations\": [{}]\n}}\n", v.join(",\n")));
        if out.is_empty() { print!("{o}"); } else { std::fs::write(&out, o).unwrap(); }
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }).unwrap();
    if h.join().is_err() { std::process::exit(3); }
}
