//! SMT back end: z3 through a pipe, incremental, with optional cvc5 cross-check.
use crate::bv::Bv;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Smt {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    defined: HashSet<T>,
    cache: HashMap<Vec<T>, Option<Model>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub timeout_ms: u64,
    pub cross: bool,
    pub crossed: u64,
    pub log: Option<std::fs::File>,
}

fn op_name(op: Op) -> &'static str {
    match op {
        Op::Add => "bvadd",
        Op::Sub => "bvsub",
        Op::Mul => "bvmul",
        Op::UDiv => "bvudiv",
        Op::URem => "bvurem",
        Op::SDiv => "bvsdiv",
        Op::SRem => "bvsrem",
        Op::Shl => "bvshl",
        Op::LShr => "bvlshr",
        Op::AShr => "bvashr",
        Op::And => "bvand",
        Op::Or => "bvor",
        Op::Xor => "bvxor",
        Op::Eq | Op::Ult | Op::Slt => unreachable!(),
    }
}

fn rf(t: T) -> String {
    match as_const(t) {
        Some(b) => b.smt(),
        None => format!("t{t}"),
    }
}

fn tab_smt(bits: &[Bit], tab: &[u64], w: u32) -> String {
    if tab.iter().all(|x| *x == tab[0]) {
        return Bv::new(w, tab[0]).smt();
    }
    let k = bits.len() - 1;
    let h = tab.len() / 2;
    let (lo, hi) = (&tab[..h], &tab[h..]);
    if lo == hi {
        return tab_smt(&bits[..k], lo, w);
    }
    let b = &bits[k];
    format!(
        "(ite (= ((_ extract {} {}) t{}) #b1) {} {})",
        b.i,
        b.i,
        b.t,
        tab_smt(&bits[..k], hi, w),
        tab_smt(&bits[..k], lo, w)
    )
}

pub fn def_smt(t: T) -> String {
    let ww = w(t);
    let body = match kind(t) {
        K::Const(b) => b.smt(),
        K::Sym(_) => return format!("(declare-const t{t} (_ BitVec {ww}))\n"),
        K::Ext(a, lo) => format!("((_ extract {} {}) t{})", lo + ww - 1, lo, a),
        K::Cat(v) => {
            format!("(concat {})", v.iter().map(|x| rf(*x)).collect::<Vec<_>>().join(" "))
        }
        K::Tab(b, tab) => tab_smt(&b, &tab, ww),
        K::Lin(c, cols) => {
            let mut s = String::from("(bvxor");
            s.push(' ');
            s.push_str(&Bv::new(ww, c).smt());
            let z = Bv::zero(ww).smt();
            for (b, m) in cols.iter() {
                s.push_str(&format!(
                    " (ite (= ((_ extract {} {}) t{}) #b1) {} {})",
                    b.i,
                    b.i,
                    b.t,
                    Bv::new(ww, *m).smt(),
                    z
                ));
            }
            s.push(')');
            s
        }
        K::Bin(op, a, b) => match op {
            Op::Eq => format!("(ite (= {} {}) #b1 #b0)", rf(a), rf(b)),
            Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", rf(a), rf(b)),
            Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", rf(a), rf(b)),
            _ => format!("({} {} {})", op_name(op), rf(a), rf(b)),
        },
        K::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", rf(c), rf(a), rf(b)),
    };
    format!("(define-fun t{t} () (_ BitVec {ww}) {body})\n")
}

fn collect(roots: &[T], seen: &HashSet<T>, out: &mut Vec<T>) {
    let mut done: HashSet<T> = HashSet::new();
    let mut stack: Vec<(T, bool)> = roots.iter().map(|t| (*t, false)).collect();
    while let Some((t, fin)) = stack.pop() {
        if seen.contains(&t) || done.contains(&t) || as_const(t).is_some() {
            continue;
        }
        if fin {
            done.insert(t);
            out.push(t);
        } else {
            stack.push((t, true));
            for c in children(t) {
                stack.push((c, false));
            }
        }
    }
}

pub fn parse_values(s: &str) -> Vec<(T, Bv)> {
    let mut out = vec![];
    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(id) = toks[i].strip_prefix('t') {
            if let Ok(id) = id.parse::<T>() {
                let v = toks[i + 1];
                let ww = w(id);
                if let Some(h) = v.strip_prefix("#x") {
                    let mut b = Bv::zero(ww);
                    for c in h.chars() {
                        b = b.shl(4).or(&Bv::new(ww, c.to_digit(16).unwrap() as u64));
                    }
                    out.push((id, b));
                } else if let Some(h) = v.strip_prefix("#b") {
                    let mut b = Bv::zero(ww);
                    for c in h.chars() {
                        b = b.shl(1).or(&Bv::new(ww, (c == '1') as u64));
                    }
                    out.push((id, b));
                }
                i += 2;
                continue;
            }
        }
        i += 1;
    }
    out
}

pub fn axioms(syms: &[T]) -> String {
    let mut s = String::new();
    let mut gens: std::collections::BTreeMap<u32, Vec<T>> = Default::default();
    for t in syms {
        if let K::Sym(i) = kind(*t) {
            let si = &ts().syms[i as usize];
            if si.class == Class::Gen && si.w == 256 {
                s.push_str(&format!("(assert (bvult t{t} {}))\n(assert (not (= t{t} {})))\n", Bv::from_be(&N_BE).smt(), Bv::zero(256).smt()));
            }
            if matches!(si.class, Class::Gen | Class::GenW) && si.w >= 64 {
                gens.entry(si.w).or_default().push(*t);
            }
        }
    }
    for gens in gens.values().filter(|g| g.len() > 1) {
        s.push_str("(assert (distinct");
        for g in gens {
            s.push_str(&format!(" t{g}"));
        }
        s.push_str("))\n");
    }
    s
}

impl Smt {
    pub fn new() -> Smt {
        Smt {
            child: None,
            defined: HashSet::new(),
            cache: HashMap::new(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cached: 0,
            secs: 0.0,
            max_secs: 0.0,
            timeout_ms: 120_000,
            cross: false,
            crossed: 0,
            log: None,
        }
    }
    fn start(&mut self) {
        if self.child.is_some() && self.defined.len() < 200_000 {
            return;
        }
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
        self.defined.clear();
        let bin = std::env::var("SLX_Z3").unwrap_or_else(|_| {
            if std::path::Path::new("/usr/local/bin/z3-new").exists() { "/usr/local/bin/z3-new".into() } else { "z3".into() }
        });
        let mut c = Command::new(bin)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("start z3");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, i, o));
        let t = self.timeout_ms;
        self.send(&format!("(set-option :print-success false)\n(set-option :timeout {t})\n(set-logic QF_BV)\n"));
    }
    fn send(&mut self, s: &str) {
        if let Some(l) = &mut self.log {
            let _ = l.write_all(s.as_bytes());
        }
        let (_, i, _) = self.child.as_mut().unwrap();
        i.write_all(s.as_bytes()).expect("z3 write");
        i.flush().unwrap();
    }
    fn line(&mut self) -> String {
        let (_, _, o) = self.child.as_mut().unwrap();
        let mut s = String::new();
        o.read_line(&mut s).expect("z3 read");
        if s.is_empty() {
            panic!("solver process ended");
        }
        s
    }
    fn sexpr(&mut self) -> String {
        let mut s = String::new();
        let mut d = 0i64;
        loop {
            let l = self.line();
            for c in l.chars() {
                if c == '(' {
                    d += 1;
                }
                if c == ')' {
                    d -= 1;
                }
            }
            s.push_str(&l);
            if d <= 0 {
                return s;
            }
        }
    }
    /// is the conjunction satisfiable?
    pub fn check(&mut self, conj: &[T]) -> Res {
        let mut key: Vec<T> = conj.iter().copied().filter(|t| !is_true(*t)).collect();
        key.sort();
        key.dedup();
        if key.iter().any(|t| is_false(*t)) {
            return Res::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        self.start();
        let t0 = Instant::now();
        let mut defs = vec![];
        collect(&key, &self.defined, &mut defs);
        let mut s = String::new();
        for d in &defs {
            s.push_str(&def_smt(*d));
            self.defined.insert(*d);
        }
        let mut syms: Vec<T> = key.iter().flat_map(|t| leaves(*t).to_vec()).collect();
        syms.sort();
        syms.dedup();
        s.push_str("(push 1)\n");
        s.push_str(&axioms(&syms));
        for k in &key {
            s.push_str(&format!("(assert (= {} #b1))\n", rf(*k)));
        }
        s.push_str("(check-sat)\n");
        self.send(&s);
        let mut r = self.line();
        while r.trim().is_empty() {
            r = self.line();
        }
        self.queries += 1;
        let out = match r.trim() {
            "sat" => {
                self.sat += 1;
                let mut m = Model::new();
                if !syms.is_empty() {
                    let q = format!("(get-value ({}))\n", syms.iter().map(|t| format!("t{t}")).collect::<Vec<_>>().join(" "));
                    self.send(&q);
                    let v = self.sexpr();
                    for (t, b) in parse_values(&v) {
                        m.insert(t, b);
                    }
                }
                self.cache.insert(key.clone(), Some(m.clone()));
                Res::Sat(m)
            }
            "unsat" => {
                self.unsat += 1;
                self.cache.insert(key.clone(), None);
                Res::Unsat
            }
            "unknown" | "timeout" => {
                self.unknown += 1;
                Res::Unknown
            }
            e => panic!("z3: {e}"),
        };
        self.send("(pop 1)\n");
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        if dt > self.max_secs {
            self.max_secs = dt;
        }
        match out {
            Res::Unknown => {
                // second opinion with a stand-alone solver
                match self.standalone(&key, &syms, &["cvc5", "--lang=smt2", "--tlimit=120000"]) {
                    Some(false) => {
                        self.unknown -= 1;
                        self.unsat += 1;
                        self.cache.insert(key, None);
                        return Res::Unsat;
                    }
                    _ => return Res::Unknown,
                }
            }
            Res::Unsat if self.cross => {
                if let Some(true) = self.standalone(&key, &syms, &["cvc5", "--lang=smt2", "--tlimit=60000"]) {
                    panic!("solver disagreement: z3 unsat, cvc5 sat");
                }
                self.crossed += 1;
                Res::Unsat
            }
            o => o,
        }
    }
    fn standalone(&mut self, key: &[T], syms: &[T], cmd: &[&str]) -> Option<bool> {
        let mut defs = vec![];
        collect(key, &HashSet::new(), &mut defs);
        let mut s = String::from("(set-logic QF_BV)\n");
        for d in &defs {
            s.push_str(&def_smt(*d));
        }
        s.push_str(&axioms(syms));
        for k in key {
            s.push_str(&format!("(assert (= {} #b1))\n", rf(*k)));
        }
        s.push_str("(check-sat)\n");
        let mut c = Command::new(cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let mut i = c.stdin.take().unwrap();
        let th = std::thread::spawn(move || {
            let _ = i.write_all(s.as_bytes());
        });
        let o = c.wait_with_output().ok()?;
        let _ = th.join();
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        if t.starts_with("sat") {
            Some(true)
        } else if t.starts_with("unsat") {
            Some(false)
        } else {
            None
        }
    }
}
