//! Harness primitives. In the symbolic build the `slx_*` symbols are interpreted by the engine;
//! in the native replay build they are provided by `native` below (see `runtime!`).
#[cfg(panic = "unwind")]
extern "C-unwind" {
    fn slx_bytes(p: *mut u8, n: usize);
    fn slx_generic(p: *mut u8, n: usize);
    fn slx_scalar(p: *mut u8);
    fn slx_choice(n: u32) -> u32;
    fn slx_assume(c: bool);
    fn slx_assert(c: bool, id: u32);
    fn slx_cover(id: u32);
    fn slx_trace(p: *const u8, n: usize);
}
#[cfg(not(panic = "unwind"))]
extern "C" {
    fn slx_bytes(p: *mut u8, n: usize);
    fn slx_generic(p: *mut u8, n: usize);
    fn slx_scalar(p: *mut u8);
    fn slx_choice(n: u32) -> u32;
    fn slx_assume(c: bool);
    fn slx_assert(c: bool, id: u32);
    fn slx_cover(id: u32);
    fn slx_trace(p: *const u8, n: usize);
}
/// N arbitrary bytes
#[inline(never)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    unsafe { slx_bytes(a.as_mut_ptr(), N) };
    a
}
/// n arbitrary bytes
#[inline(never)]
pub fn bytes_v(n: usize) -> Vec<u8> {
    let mut a = vec![0u8; n];
    unsafe { slx_bytes(a.as_mut_ptr(), n) };
    a
}
/// N bytes in general position: different from everything else the run produces
#[inline(never)]
pub fn generic<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    unsafe { slx_generic(a.as_mut_ptr(), N) };
    a
}
/// a secret scalar in general position (1..n-1)
#[inline(never)]
pub fn scalar() -> [u8; 32] {
    let mut a = [0u8; 32];
    unsafe { slx_scalar(a.as_mut_ptr()) };
    a
}
/// arbitrary integer below n
#[inline(never)]
pub fn choice(n: u32) -> u32 {
    unsafe { slx_choice(n) }
}
#[inline(never)]
pub fn flag() -> bool {
    unsafe { slx_choice(2) == 1 }
}
pub fn u8_any() -> u8 {
    bytes::<1>()[0]
}
pub fn u32_any() -> u32 {
    u32::from_le_bytes(bytes::<4>())
}
pub fn u64_any() -> u64 {
    u64::from_le_bytes(bytes::<8>())
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { slx_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: u32) {
    unsafe { slx_assert(c, id) }
}
#[inline(never)]
pub fn cover(id: u32) {
    unsafe { slx_cover(id) }
}
#[inline(never)]
pub fn trace(b: &[u8]) {
    unsafe { slx_trace(b.as_ptr(), b.len()) }
}

/// Native runtime used by the replay binary.
pub mod native {
    use std::cell::RefCell;
    pub enum In {
        B(Vec<u8>),
        G(Vec<u8>),
        S([u8; 32]),
        C(u32),
    }
    #[derive(Default)]
    pub struct Rt {
        pub fixed: Vec<In>,
        pub pos: usize,
        /// random source; used for generic values when `randomize`, and for everything past `fixed`
        pub rng: u64,
        pub randomize: bool,
        pub free_inputs: bool,
        pub log: Vec<String>,
        pub used: Vec<String>,
    }
    thread_local! { pub static RT: RefCell<Rt> = RefCell::new(Rt::default()); }
    pub struct AssumeFailed;
    pub struct AssertFailed(pub u32);
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    impl Rt {
        fn next(&mut self) -> u64 {
            // splitmix64
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn fill(&mut self, b: &mut [u8]) {
            for x in b.iter_mut() {
                *x = (self.next() >> 24) as u8;
            }
        }
        fn rand_scalar(&mut self) -> [u8; 32] {
            let mut a = [0u8; 32];
            self.fill(&mut a);
            a[0] &= 0x7f;
            a[31] |= 1;
            a
        }
        fn diverged(&self) -> ! {
            std::panic::panic_any(Diverged)
        }
    }
    pub struct Diverged;
    pub fn bytes(b: &mut [u8]) {
        RT.with(|r| {
            let r = &mut *r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            if p < r.fixed.len() {
                match &r.fixed[p] {
                    In::B(v) if v.len() == b.len() => b.copy_from_slice(v),
                    _ => r.diverged(),
                }
            } else {
                // mix of random and small values
                let m = r.next() % 4;
                r.fill(b);
                if m == 0 {
                    for x in b.iter_mut() {
                        *x &= 3;
                    }
                }
            }
            r.used.push(format!("bytes {}", hex(b)));
        })
    }
    pub fn generic(b: &mut [u8]) {
        RT.with(|r| {
            let r = &mut *r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            if p < r.fixed.len() && !r.randomize {
                match &r.fixed[p] {
                    In::G(v) if v.len() == b.len() => b.copy_from_slice(v),
                    _ => r.diverged(),
                }
            } else {
                r.fill(b);
            }
            r.used.push(format!("generic {}", hex(b)));
        })
    }
    pub fn scalar(b: &mut [u8]) {
        RT.with(|r| {
            let r = &mut *r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            if p < r.fixed.len() && !r.randomize {
                match &r.fixed[p] {
                    In::S(v) => b.copy_from_slice(v),
                    _ => r.diverged(),
                }
            } else {
                let s = r.rand_scalar();
                b.copy_from_slice(&s);
            }
            r.used.push(format!("scalar {}", hex(b)));
        })
    }
    pub fn choice(n: u32) -> u32 {
        RT.with(|r| {
            let r = &mut *r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            let c = if p < r.fixed.len() {
                match &r.fixed[p] {
                    In::C(v) if *v < n => *v,
                    _ => r.diverged(),
                }
            } else {
                (r.next() % n as u64) as u32
            };
            r.used.push(format!("choice {c}"));
            c
        })
    }
    pub fn log(s: String) {
        RT.with(|r| r.borrow_mut().log.push(s))
    }
    pub fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub fn parse(text: &str) -> Vec<In> {
        text.lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| {
                let mut it = l.split_whitespace();
                let k = it.next().unwrap();
                let v = it.next().unwrap_or("");
                match k {
                    "bytes" => In::B(unhex(v)),
                    "generic" => In::G(unhex(v)),
                    "scalar" => In::S(unhex(v).try_into().unwrap()),
                    _ => In::C(v.parse().unwrap()),
                }
            })
            .collect()
    }
    pub enum Outcome {
        Pass,
        Assume,
        Assert(u32),
        Panic(String),
        Diverged,
    }
    thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
    pub fn run(f: fn(), rt: Rt) -> (Outcome, Rt) {
        RT.with(|r| *r.borrow_mut() = rt);
        let res = std::panic::catch_unwind(f);
        let rt = RT.with(|r| std::mem::take(&mut *r.borrow_mut()));
        let o = match res {
            Ok(()) => Outcome::Pass,
            Err(e) => {
                if e.downcast_ref::<AssumeFailed>().is_some() {
                    Outcome::Assume
                } else if let Some(a) = e.downcast_ref::<AssertFailed>() {
                    Outcome::Assert(a.0)
                } else if e.downcast_ref::<Diverged>().is_some() {
                    Outcome::Diverged
                } else {
                    Outcome::Panic(LAST.with(|l| l.borrow().clone()))
                }
            }
        };
        (o, rt)
    }
    /// command line of a replay binary:
    ///   ENTRY replay FILE TRIALS SEED   - FILE holds inputs; trial 0 uses them as given, later trials
    ///                                     redraw the general-position values
    ///   ENTRY random N SEED DIR         - N random runs; inputs and traces are written to DIR
    pub fn main(entries: &[(&str, fn())]) {
        std::panic::set_hook(Box::new(|i| {
            LAST.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "));
        }));
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 3 {
            for (n, _) in entries {
                println!("{n}");
            }
            return;
        }
        let f = entries.iter().find(|e| e.0 == a[1]).expect("entry").1;
        let f = f;
        let seed: u64 = a.get(5).or(a.get(4)).and_then(|s| s.parse().ok()).unwrap_or(1);
        if a[2] == "replay" {
            let trials: u64 = a[4].parse().unwrap();
            let seed: u64 = a[5].parse().unwrap();
            let text = std::fs::read_to_string(&a[3]).unwrap();
            let mut other = String::new();
            for t in 0..trials.max(1) {
                let rt = Rt {
                    fixed: parse(&text),
                    randomize: t > 0,
                    rng: seed.wrapping_mul(1_000_003).wrapping_add(t),
                    ..Default::default()
                };
                let (o, rt) = run(f, rt);
                match o {
                    Outcome::Assert(id) => {
                        println!("REPRODUCED assert {id} trial {t}");
                        for u in rt.used {
                            println!("INPUT {u}");
                        }
                        return;
                    }
                    Outcome::Panic(m) => {
                        println!("REPRODUCED panic {m} trial {t}");
                        for u in rt.used {
                            println!("INPUT {u}");
                        }
                        return;
                    }
                    Outcome::Pass => other = "pass".into(),
                    Outcome::Assume => other = "assume".into(),
                    Outcome::Diverged => other = "diverged".into(),
                }
            }
            println!("NOT-REPRODUCED {other}");
            return;
        }
        // random
        let n: u64 = a[3].parse().unwrap();
        let dir = a.get(5).cloned();
        let seed: u64 = if dir.is_some() { a[4].parse().unwrap() } else { seed };
        let mut done = 0;
        for t in 0..n * 100 {
            if done == n {
                break;
            }
            let rt = Rt { rng: seed.wrapping_mul(7_000_003).wrapping_add(t), free_inputs: true, ..Default::default() };
            let (o, rt) = run(f, rt);
            if let Outcome::Assume = o {
                continue;
            }
            let t = done;
            done += 1;
            let w = match &o {
                Outcome::Pass => "pass".to_string(),
                Outcome::Assume => "assume".into(),
                Outcome::Assert(i) => format!("assert {i}"),
                Outcome::Panic(_) => "panic".to_string(),
                Outcome::Diverged => "diverged".into(),
            };
            let mut log = rt.log.clone();
            log.push(format!("END {w}"));
            if let Some(d) = &dir {
                std::fs::write(format!("{d}/in{t}"), rt.used.join("\n")).unwrap();
                std::fs::write(format!("{d}/out{t}"), log.join("\n")).unwrap();
            } else {
                println!("{w}");
            }
        }
    }
}

/// Defines the native `slx_*` symbols (only in replay binaries).
#[macro_export]
macro_rules! runtime {
    () => {
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_bytes(p: *mut u8, n: usize) {
            $crate::native::bytes(core::slice::from_raw_parts_mut(p, n))
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_generic(p: *mut u8, n: usize) {
            $crate::native::generic(core::slice::from_raw_parts_mut(p, n))
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_scalar(p: *mut u8) {
            $crate::native::scalar(core::slice::from_raw_parts_mut(p, 32))
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_choice(n: u32) -> u32 {
            $crate::native::choice(n)
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_assume(c: bool) {
            if !c {
                std::panic::panic_any($crate::native::AssumeFailed)
            }
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_assert(c: bool, id: u32) {
            if !c {
                std::panic::panic_any($crate::native::AssertFailed(id))
            }
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_cover(id: u32) {
            $crate::native::log(format!("COVER {id}"))
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn slx_trace(p: *const u8, n: usize) {
            let b = core::slice::from_raw_parts(p, n);
            $crate::native::log(format!("TRACE {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()))
        }
    };
}

/// Declares harness entries: `extern "C"` symbols for the engine and a table for the replay binary.
#[macro_export]
macro_rules! entries {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $(
            #[cfg(not(panic = "unwind"))]
            #[no_mangle]
            pub extern "C" fn $n() { $m::$n() }
        )*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $m::$n as fn())),*];
    };
}
