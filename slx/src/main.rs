mod builtins;
mod bv;
mod crypto;
mod exec;
mod hash;
mod ir;
mod smt;
mod term;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::{Duration, Instant};
use term::*;

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn inputs_text(inp: &[Inp], m: &Model) -> Vec<String> {
    let mut e = Eval::new(m);
    inp.iter()
        .map(|i| match i {
            Inp::Bytes(v) => format!("bytes {}", hexs(&v.iter().map(|t| e.eval(*t).byte(0)).collect::<Vec<_>>())),
            Inp::Generic(v) => format!("generic {}", hexs(&v.iter().map(|t| e.eval(*t).byte(0)).collect::<Vec<_>>())),
            Inp::Scalar(t) => format!("scalar {}", e.eval(*t).hex()),
            Inp::Choice(c) => format!("choice {c}"),
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: slx FILE.ll ENTRY [--out F.json] [--time S] [--paths N] [--concrete INPUTS] [--trace] [--cross] [--seed N]");
        std::process::exit(2);
    }
    let mut out = None;
    let mut time = 600u64;
    let mut paths = 200_000u64;
    let mut concrete = None;
    let mut trace = false;
    let mut shard = (0u64, 1u64);
    let mut cross = false;
    let mut smtlog = None;
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--out" => {
                out = Some(args[i + 1].clone());
                i += 1;
            }
            "--time" => {
                time = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--shard" => {
                let (a, b) = args[i + 1].split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
                i += 1;
            }
            "--paths" => {
                paths = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--seed" => {
                unsafe { term::SEED = args[i + 1].parse().unwrap() };
                i += 1;
            }
            "--concrete" => {
                concrete = Some(args[i + 1].clone());
                i += 1;
            }
            "--smtlog" => {
                smtlog = Some(args[i + 1].clone());
                i += 1;
            }
            "--trace" => trace = true,
            "--cross" => cross = true,
            a => panic!("argument {a}"),
        }
        i += 1;
    }
    let child = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || run(args, out, time, paths, concrete, trace, cross, smtlog, shard))
        .unwrap();
    let code = child.join().unwrap_or(3);
    std::process::exit(code);
}

fn run(
    args: Vec<String>,
    out: Option<String>,
    time: u64,
    paths: u64,
    concrete: Option<String>,
    trace: bool,
    cross: bool,
    smtlog: Option<String>,
    shard: (u64, u64),
) -> i32 {
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&args[1]).expect("read ll").into_boxed_str());
    let m = match ir::Module::parse(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("ERROR parse: {e}");
            return 3;
        }
    };
    let mut overrides = HashMap::new();
    for (i, f) in m.fns.iter().enumerate() {
        let n = &f.name;
        if n.contains("std_detect") && n.contains("detect_and_initialize") {
            overrides.insert(i, "zero");
        }
        // behaviour of a hash map must not depend on the hash values: nothing is hashed, all keys get
        // the same hash, so that every lookup is decided by key equality
        if n.contains("DefaultHasher") && n.contains("6Hasher5write") {
            overrides.insert(i, "nop");
        }
    }
    let concrete = concrete.map(|p| {
        std::fs::read_to_string(p)
            .unwrap()
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| {
                let mut it = l.split_whitespace();
                let k = it.next().unwrap();
                let v = it.next().unwrap_or("");
                match k {
                    "bytes" => CInp::Bytes(unhex(v)),
                    "generic" => CInp::Generic(unhex(v)),
                    "scalar" => CInp::Scalar(unhex(v).try_into().unwrap()),
                    _ => CInp::Choice(v.parse().unwrap()),
                }
            })
            .collect::<Vec<_>>()
    });
    let mut ex = Ex {
        m,
        smt: smt::Smt::new(),
        cr: crypto::Crypto::new(),
        names: HashMap::new(),
        overrides,
        work: vec![],
        violations: vec![],
        vkeys: BTreeSet::new(),
        paths: 0,
        steps: 0,
        forks: 0,
        pruned: 0,
        covers: BTreeMap::new(),
        fns_run: BTreeSet::new(),
        shard,
        hash_calls: 0,
        hash_atoms: 0,
        deadline: t0 + Duration::from_secs(time),
        max_paths: paths,
        concrete,
        intab: HashMap::new(),
        cur_loc: String::new(),
        asserts: BTreeMap::new(),
        assert_queries: 0,
        tracef: trace,
        samples: vec![],
        oncurve_uf: HashMap::new(),
        prof: HashMap::new(),
    };
    ex.smt.cross = cross;
    if let Some(l) = smtlog {
        ex.smt.log = Some(std::fs::File::create(l).unwrap());
    }
    let r = ex.explore(&args[2]);
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!("\"entry\": {},\n", js(&args[2])));
    let status = match &r {
        Ok(()) if ex.violations.is_empty() => "held",
        Ok(()) => "violated",
        Err(_) if !ex.violations.is_empty() => "violated",
        Err(_) => "error",
    };
    o.push_str(&format!("\"status\": {},\n", js(status)));
    if let Err(e) = &r {
        o.push_str(&format!("\"error\": {},\n", js(e)));
    }
    o.push_str(&format!(
        "\"paths\": {}, \"steps\": {}, \"forks\": {}, \"infeasible_branches\": {},\n",
        ex.paths, ex.steps, ex.forks, ex.pruned
    ));
    o.push_str(&format!(
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"solver_seconds\": {:.3}, \"max_query_seconds\": {:.3}, \"cross_checked\": {},\n",
        ex.smt.queries, ex.smt.sat, ex.smt.unsat, ex.smt.unknown, ex.smt.cached, ex.smt.secs, ex.smt.max_secs, ex.smt.crossed
    ));
    o.push_str(&format!(
        "\"hash_calls\": {}, \"hash_atoms\": {}, \"group_ops\": {}, \"real_secp_ops\": {}, \"terms\": {}, \"seconds\": {:.2},\n",
        ex.hash_calls,
        ex.hash_atoms,
        ex.cr.ops,
        ex.cr.real_ops,
        ts().n.len(),
        t0.elapsed().as_secs_f64()
    ));
    o.push_str(&format!(
        "\"asserts\": {{{}}}, \"assert_queries\": {},\n",
        ex.asserts.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "),
        ex.assert_queries
    ));
    o.push_str(&format!(
        "\"covers\": {{{}}},\n",
        ex.covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ")
    ));
    let fnames: Vec<String> = ex.fns_run.iter().map(|i| demangle(&ex.m.fns[*i].name)).collect();
    o.push_str(&format!("\"functions_executed\": {},\n", fnames.len()));
    o.push_str(&format!("\"functions\": [{}],\n", fnames.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    let smp: Vec<String> = ex
        .samples
        .iter()
        .map(|(i, m, c)| {
            format!(
                "{{\"inputs\": [{}], \"covers\": {:?}}}",
                inputs_text(i, m).iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
                c
            )
        })
        .collect();
    o.push_str(&format!("\"samples\": [{}],\n", smp.join(",\n ")));
    let vs: Vec<String> = ex
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\": {}, \"id\": {}, \"msg\": {}, \"inputs\": [{}]}}",
                js(&v.kind),
                v.id,
                js(&v.msg),
                inputs_text(&v.inputs, &v.model).iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect();
    o.push_str(&format!("\"violations\": [{}]\n}}\n", vs.join(",\n ")));
    if let Some(p) = out {
        std::fs::write(p, &o).unwrap();
    }
    eprintln!(
        "{} {status}: paths {} steps {} forks {} queries {} ({:.1}s solver) violations {} in {:.1}s{}",
        args[2],
        ex.paths,
        ex.steps,
        ex.forks,
        ex.smt.queries,
        ex.smt.secs,
        ex.violations.len(),
        t0.elapsed().as_secs_f64(),
        match &r {
            Err(e) => format!("\nERROR {e}"),
            _ => String::new(),
        }
    );
    if trace {
        let mut v: Vec<_> = ex.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (a, n) in v.iter().take(25) {
            if let Some(f) = ex.m.fn_at(**a as u64) {
                eprintln!("  {n:6} {}", demangle(&ex.m.fns[f].name));
            }
        }
        for v in &ex.violations {
            eprintln!("VIOL {} {} {} {:?}", v.kind, v.id, v.msg, inputs_text(&v.inputs, &v.model));
        }
    }
    match status {
        "held" => 0,
        "violated" => 1,
        _ => 3,
    }
}
