// Runs the sharing schemes and protocols among several parties and records what happens.
#![recursion_limit = "256"]
#[path = "../../common/util.rs"]
mod util;
mod hub;
mod party;
mod delegation;
use hub::*;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use jester_sharing::{BigUint, LinearSharingScheme, ThresholdSecretSharingScheme};
use mashup::*;
use num::{Num, ToPrimitive, Zero};
use party::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use util::*;

/// Types with the names of others, and a prime that has the low word of another.
pub mod twin {
    use jester_maths::prime::*;
    use jester_maths::prime_fields;
    use mashup::*;
    prime_fields!(pub P7("11", 10), pub P11("13", 10), pub P101("103", 10), pub P2p64m59("54ffffffffffffffc5", 16));
}
use twin::{P101 as P101t, P11 as P11t, P2p64m59 as P2p64m59t, P7 as P7t};

prime_fields!(
    pub P3("3", 10), pub P5("5", 10), pub P7("7", 10), pub P7b("7", 10), pub P11("11", 10), pub P11b("11", 10), pub P13("13", 10), pub P17("17", 10),
    pub P19("19", 10), pub P23("23", 10), pub P31("31", 10), pub P101("101", 10), pub P257("257", 10), pub P2p64m59("18446744073709551557", 10),
    pub P2p255m19("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
);

pub fn limbs(n: &BigUint) -> String {
    let (mut acc, mut bits, mut v) = (0u32, 0, vec![]);
    for b in n.to_bytes_le() {
        acc |= (b as u32) << bits;
        bits += 8;
        if bits >= 10 {
            v.push(acc & 1023);
            acc >>= 10;
            bits -= 10;
        }
    }
    v.push(acc);
    while v.last() == Some(&0) {
        v.pop();
    }
    jlist(&v, |x| x.to_string())
}

fn big(s: &str) -> BigUint {
    BigUint::from_str_radix(s, 16).expect("hex number")
}

fn bigs(s: &str) -> Vec<BigUint> {
    if s == "-" || s.is_empty() { vec![] } else { s.split(',').map(big).collect() }
}

fn list(s: &str) -> Vec<usize> {
    if s == "-" || s.is_empty() { vec![] } else { s.split(',').map(|x| x.parse().expect("number")).collect() }
}

macro_rules! call {
    ($fun:ident, $name:ident, ($($a:expr),*)) => { $fun::<$name>($($a),*) };
}
macro_rules! dispatch {
    ($f:expr, $fun:ident, $args:tt, $($name:ident),*) => {
        match $f { $(stringify!($name) => call!($fun, $name, $args),)* x => panic!("scenario: no field {}", x) }
    };
}
macro_rules! fields {
    ($f:expr, $fun:ident $args:tt) => {
        dispatch!($f, $fun, $args, P3, P5, P7, P7b, P11, P11b, P13, P17, P19, P23, P31, P101, P257, P2p64m59, P2p255m19, P7t, P11t, P101t, P2p64m59t,
            Mersenne2, Mersenne3, Mersenne5, Mersenne13, Mersenne17, Mersenne31, Mersenne61, Mersenne89, Mersenne127)
    };
}

struct Args(HashMap<String, String>);
impl Args {
    fn parse(w: &[&str]) -> Args {
        Args(w.iter().filter_map(|x| x.find('=').map(|i| (x[..i].to_string(), x[i + 1..].to_string()))).collect())
    }
    fn get(&self, k: &str) -> &str {
        self.0.get(k).unwrap_or_else(|| panic!("scenario: no {}", k))
    }
    fn or(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str) -> u64 {
        self.get(k).parse().expect("number")
    }
}

fn ops(s: &str) -> Vec<Op> {
    s.split(';')
        .map(|o| {
            let mut it = o.splitn(2, ':');
            Op { name: it.next().unwrap().to_string(), args: list(it.next().unwrap_or("-")) }
        })
        .collect()
}

fn sched(s: &str) -> Sched {
    if s == "waves" {
        Sched::Waves
    } else if s.starts_with("rand:") {
        Sched::Random(s[5..].parse().unwrap())
    } else {
        assert!(s.starts_with("list:"), "scenario: {}", s);
        Sched::List(
            s[5..]
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let v: Vec<usize> = x[1..].split('.').map(|y| y.parse().unwrap()).collect();
                    (x.chars().next().unwrap(), v[0], *v.get(1).unwrap_or(&0), *v.get(2).unwrap_or(&0))
                })
                .collect(),
        )
    }
}

struct Ran<F: Field> {
    hub: Arc<Mutex<Hub<F>>>,
    ins: Vec<Vec<BigUint>>,
    outs: Vec<Option<Regs<F>>>,
    outcome: Outcome,
    rounds: usize,
}
struct Set<F: Field> {
    hub: Arc<Mutex<Hub<F>>>,
    ins: Vec<Vec<BigUint>>,
    engine: Engine<F, Regs<F>>,
}
impl<F: Field> Set<F> {
    fn finish(self, outcome: Outcome) -> Ran<F> {
        Ran { hub: self.hub, ins: self.ins, outs: self.engine.outs, outcome, rounds: self.engine.rounds }
    }
}

/// Shares the inputs among the parties and runs their programs.
fn go<F: Field>(plan: Plan, inputs: &[BigUint], prog: &[Op], ideal: bool, direct: bool, hold: bool, seed: u64, sched: &Sched, stop: usize, keep_log: bool, t: &Trace) -> Ran<F> {
    let mut s = set(plan, inputs, prog, ideal, direct, hold, seed, sched, stop, keep_log);
    let outcome = execute(&mut s.engine, t);
    s.finish(outcome)
}

fn set<F: Field>(plan: Plan, inputs: &[BigUint], prog: &[Op], ideal: bool, direct: bool, hold: bool, seed: u64, sched: &Sched, stop: usize, keep_log: bool) -> Set<F> {
    let n = plan.n;
    let mut h = Hub::<F>::new(plan);
    h.keep_log = keep_log;
    let p = own::p::<F>();
    let ins: Vec<Vec<BigUint>> = inputs
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let mut poly = vec![v.clone()];
            for c in 1..h.plan.t as u64 {
                poly.push(h.draw(6, i as u64 * 64 + c));
            }
            (1..=n).map(|x| own::eval(&poly, x, &p)).collect()
        })
        .collect();
    let hub = Arc::new(Mutex::new(h));
    let tasks: Vec<Task<F>> = (1..=n)
        .map(|id| {
            let regs: Vec<Sh<F>> = ins.iter().map(|s| (id, s[id - 1].clone().into())).collect();
            // every party has randomness of its own
            let s = seed.wrapping_mul(31).wrapping_add(id as u64);
            if ideal {
                program_ideal::<F>(id, hub.clone(), regs, prog.to_vec(), direct, hold, s)
            } else {
                program_real::<F>(id, hub.clone(), regs, prog.to_vec(), direct, hold, s)
            }
        })
        .collect();
    let engine = Engine::new(&hub, tasks, sched, stop);
    Set { hub, ins, engine }
}

fn plan(a: &Args, n: usize, t: usize, seed: u64) -> Plan {
    Plan { n, t, lazy: a.or("send", "eager") == "lazy", seed, blind: bigs(&a.or("blind", "-")), masks: vec![], constant: false }
}

fn run<F: Field>(a: &Args, t: &Trace) -> String {
    let mut s = setup::<F>(a);
    let outcome = execute(&mut s.engine, t);
    report(a, s.finish(outcome))
}

/// A run that others go on beside.
trait Session {
    fn step(&mut self, t: &Trace) -> Step;
    fn stuck(&self) -> Outcome;
    fn report(self: Box<Self>, o: Outcome) -> String;
}
struct Beside<F: Field>(Args, Set<F>);
impl<F: Field> Session for Beside<F> {
    fn step(&mut self, t: &Trace) -> Step {
        self.1.engine.step(t)
    }
    fn stuck(&self) -> Outcome {
        self.1.engine.stuck()
    }
    fn report(self: Box<Self>, o: Outcome) -> String {
        let Beside(a, s) = *self;
        report(&a, s.finish(o))
    }
}
fn session<F: Field>(a: &Args) -> Box<dyn Session> {
    Box::new(Beside(Args(a.0.clone()), setup::<F>(a)))
}
/// Runs that take turns on this thread.  Each begins at its first turn.
fn weave(lines: &[String], order: u64, t: &Trace) -> Vec<String> {
    let mut live: Vec<Option<Box<dyn Session>>> = lines.iter().map(|_| None).collect();
    let mut res: Vec<Option<String>> = vec![None; lines.len()];
    let (mut mix, mut patience) = (Mix(order), Patience::new());
    let mut idle = vec![false; lines.len()];
    loop {
        let open: Vec<usize> = (0..lines.len()).filter(|i| res[*i].is_none()).collect();
        if open.is_empty() {
            return res.into_iter().map(|r| r.unwrap()).collect();
        }
        let i = open[mix.below(open.len() as u64) as usize];
        // some take several steps at a time
        for _ in 0..[1, 1, 2, 10][mix.below(4) as usize] {
            let s = live[i].get_or_insert_with(|| {
                let w: Vec<&str> = lines[i].split_whitespace().collect();
                let a = Args::parse(&w[1..]);
                fields!(a.get("F"), session(&a))
            });
            match s.step(t) {
                Step::Moved => {
                    idle = vec![false; lines.len()];
                    patience.reset();
                }
                Step::Idle => {
                    idle[i] = true;
                    if open.iter().all(|i| idle[*i]) && patience.over() {
                        for k in &open {
                            let s = live[*k].take().unwrap();
                            let o = s.stuck();
                            res[*k] = Some(s.report(o));
                        }
                    }
                    break;
                }
                Step::End(o) => {
                    idle = vec![false; lines.len()];
                    res[i] = Some(live[i].take().unwrap().report(o));
                    break;
                }
            }
        }
    }
}

fn setup<F: Field>(a: &Args) -> Set<F> {
    let (n, th, seed) = (a.num("n") as usize, a.num("t") as usize, a.num("seed"));
    let prog = ops(a.get("ops"));
    let (ideal, direct) = (a.or("rng", "ideal") == "ideal", a.or("via", "delegate") == "direct");
    set::<F>(plan(a, n, th, seed), &bigs(a.get("in")), &prog, ideal, direct, a.or("hold", "0") == "1", a.or("rseed", &seed.to_string()).parse().unwrap(), &sched(&a.or("sched", "waves")), a.or("stop", &usize::MAX.to_string()).parse().unwrap(), true)
}

fn report<F: Field>(a: &Args, r: Ran<F>) -> String {
    let (n, th) = (a.num("n") as usize, a.num("t") as usize);
    let prog = ops(a.get("ops"));
    let (ideal, direct) = (a.or("rng", "ideal") == "ideal", a.or("via", "delegate") == "direct");
    let h = r.hub.lock().unwrap();
    let (outcome, why) = match &r.outcome {
        Outcome::Done => ("done", String::new()),
        Outcome::Abandoned => return format!("{{\"ev\":\"abandoned\",\"field\":\"{}\",\"n\":{},\"ops\":\"{}\"}}", a.get("F"), n, a.get("ops")),
        Outcome::Stuck(v) => ("stuck", format!("{:?}", v)),
        Outcome::Panic(e) => {
            assert!(!e.starts_with("scenario"), "{}", e);
            ("panic", e.clone())
        }
    };
    let done: Vec<&Regs<F>> = r.outs.iter().filter_map(|o| o.as_ref()).collect();
    let out = if done.len() < n {
        "[]".to_string()
    } else {
        let opix: Vec<usize> = (0..prog.len()).collect();
        jlist(&opix, |o| {
            let len = done.iter().map(|d| d[*o].len()).max().unwrap();
            let ix: Vec<usize> = (0..len).collect();
            jlist(&ix, |i| {
                // a party without this result is missing from the lists
                let have: Vec<&Sh<F>> = done.iter().filter_map(|d| d[*o].get(*i)).collect();
                format!("{{\"x\":{},\"y\":{}}}", jlist(&have, |s| s.0.to_string()), jlist(&have, |s| limbs(&s.1.as_uint())))
            })
        })
    };
    let comms = if a.or("log", "1") == "1" {
        jlist(&h.log[1..], |l| {
            jlist(l, |(c, w)| match c {
                Comm::Reveal(x, y) => format!("{{\"k\":\"open\",\"x\":{},\"y\":{},\"w\":{}}}", x, limbs(y), w),
                Comm::Dist(v, ys) => format!("{{\"k\":\"dist\",\"v\":{},\"ys\":{},\"w\":{}}}", limbs(v), jlist(ys, limbs), w),
                Comm::Triples(c) => format!("{{\"k\":\"triples\",\"c\":{},\"w\":{}}}", c, w),
                Comm::Random => format!("{{\"k\":\"random\",\"w\":{}}}", w),
            })
        })
    } else {
        "[]".into()
    };
    format!(
        "{{\"ev\":\"run\",\"group\":\"{}\",\"field\":\"{}\",\"p\":{},\"n\":{},\"t\":{},\"rng\":\"{}\",\"via\":\"{}\",\"sched\":\"{}\",\"in\":{},\"prog\":{},\"outcome\":\"{}\",\"why\":\"{}\",\"out\":{},\"blind\":{},\"comms\":{},\"rounds\":{}}}",
        a.or("group", "-"), a.get("F"), limbs(&own::p::<F>()), n, th, if ideal { "ideal" } else { "real" }, if direct { "direct" } else { "delegate" },
        esc(&a.or("sched", "waves")[..a.or("sched", "waves").len().min(400)]),
        jlist(&r.ins, |s| jlist(s, limbs)),
        jlist(&prog, |o| format!("{{\"op\":\"{}\",\"args\":{}}}", o.name, jlist(&o.args, |x| x.to_string()))),
        outcome, esc(&why), out, jlist(&h.random_values(), limbs), comms, r.rounds
    )
}

/// The opened values of a finished run, in clear.
fn opened<F: Field>(r: &Ran<F>) -> Result<Vec<u32>, String> {
    match &r.outcome {
        Outcome::Done => {}
        Outcome::Stuck(_) | Outcome::Abandoned => return Err("stuck".into()),
        Outcome::Panic(e) => {
            assert!(!e.starts_with("scenario"), "{}", e);
            return Err(e.clone());
        }
    }
    let p = own::p::<F>();
    let h = r.hub.lock().unwrap();
    Ok(h.opened
        .iter()
        .map(|o| {
            let pts: Vec<(usize, BigUint)> = o.iter().enumerate().filter_map(|(i, s)| s.clone().map(|s| (i + 1, s))).collect();
            own::interpolate(&pts, &p).to_u32().unwrap()
        })
        .collect())
}

/// Counts what is opened, over all (or many) choices of the joint random numbers and the masks.
/// mode=all: every choice of both; mode=blind: every choice of the random numbers for each of
/// three choices of the masks, and of the openings only those that no mask changes;
/// mode=sample: random choices, and counts of all pairs of openings
fn bag<F: Field>(a: &Args, t: &Trace) -> String {
    let (n, th, seed) = (a.num("n") as usize, a.num("t") as usize, a.num("seed"));
    let prog = ops(a.get("ops"));
    let inputs = bigs(a.get("in"));
    let p = own::p::<F>().to_u64().unwrap();
    let (nb, nm) = (a.num("blinds") as usize, a.num("masks") as usize);
    let mode = a.get("mode").to_string();
    let one = |blind: Vec<u64>, masks: Vec<u64>, s: u64| -> Result<Vec<u32>, String> {
        let mut pl = plan(a, n, th, s);
        pl.blind = blind.into_iter().map(BigUint::from).collect();
        pl.masks = masks.chunks(2).map(|c| (BigUint::from(c[0]), BigUint::from(c[1]))).collect();
        opened(&go::<F>(pl, &inputs, &prog, true, false, false, s, &Sched::Waves, usize::MAX, false, t))
    };
    let digits = |mut x: u64, base: u64, k: usize| -> Vec<u64> {
        (0..k).map(|_| { let d = x % base; x /= base; d }).collect()
    };
    let head = format!("\"ev\":\"bag\",\"group\":\"{}\",\"mode\":\"{}\",\"field\":\"{}\",\"p\":{},\"prog\":\"{}\",\"in\":{}", a.get("group"), mode, a.get("F"), p, a.get("ops"), jlist(&inputs, |x| x.to_string()));
    let fail = |e: String| format!("{{{},\"failed\":\"{}\"}}", head, esc(&e));
    let blinds = (p - 1).pow(nb as u32);
    let mut rng = Mix(seed);
    if mode == "sample" {
        let runs = a.num("runs");
        let mut vs: Vec<Vec<u32>> = vec![];
        for i in 0..runs {
            let b = (0..nb).map(|_| 1 + rng.below(p - 1)).collect();
            let m = (0..2 * nm).map(|_| rng.below(p)).collect();
            match one(b, m, seed.wrapping_add(i * 7919)) { Ok(v) => vs.push(v), Err(e) => return fail(e) }
        }
        let m = vs[0].len();
        if vs.iter().any(|v| v.len() != m) { return fail("the number of openings varies".into()); }
        let mut pairs = vec![];
        for i in 0..m {
            for j in i..m {
                let mut c = vec![0u32; (p * p) as usize];
                for v in &vs { c[(v[i] as u64 * p + v[j] as u64) as usize] += 1; }
                pairs.push(format!("{{\"i\":{},\"j\":{},\"c\":{}}}", i, j, jlist(&c, |x| x.to_string())));
            }
        }
        return format!("{{{},\"runs\":{},\"width\":{},\"openings\":{},\"pairs\":[{}]}}", head, runs, a.num("width"), m, pairs.join(","));
    }
    let mut bag: BTreeMap<Vec<u32>, u32> = BTreeMap::new();
    let mut positions: Option<Vec<usize>> = None;
    if mode == "all" {
        for b in 0..blinds {
            for m in 0..p.pow(2 * nm as u32) {
                let b = digits(b, p - 1, nb).into_iter().map(|x| x + 1).collect();
                match one(b, digits(m, p, 2 * nm), seed) { Ok(v) => *bag.entry(v).or_insert(0) += 1, Err(e) => return fail(e) }
            }
        }
    } else {
        // other masks differ in every component, so only what no mask changes stays
        let m0: Vec<u64> = (0..2 * nm).map(|_| rng.below(p)).collect();
        let m1: Vec<u64> = m0.iter().map(|x| (x + 1) % p).collect();
        let m2: Vec<u64> = m0.iter().map(|x| (x + 1 + rng.below(p - 1)) % p).collect();
        let ms = vec![m0, m1, m2];
        let mut all: Vec<Vec<Vec<u32>>> = vec![];
        for m in &ms {
            let mut vs = vec![];
            for b in 0..blinds {
                let b = digits(b, p - 1, nb).into_iter().map(|x| x + 1).collect();
                match one(b, m.clone(), seed) { Ok(v) => vs.push(v), Err(e) => return fail(e) }
            }
            all.push(vs);
        }
        let len = all[0][0].len();
        if all.iter().any(|x| x.iter().any(|v| v.len() != len)) { return fail("the number of openings varies".into()); }
        let free: Vec<usize> = (0..len).filter(|i| all.iter().all(|x| x.iter().zip(&all[0]).all(|(v, w)| v[*i] == w[*i]))).collect();
        for v in &all[0] { *bag.entry(free.iter().map(|i| v[*i]).collect()).or_insert(0) += 1; }
        positions = Some(free);
    }
    format!("{{{},\"positions\":{},\"bag\":{}}}", head, positions.map_or("[]".into(), |v| jlist(&v, |x| x.to_string())),
        jlist(&bag.into_iter().collect::<Vec<_>>(), |(v, c)| format!("[{}]", v.iter().chain(std::iter::once(c)).map(|x| x.to_string()).collect::<Vec<_>>().join(","))))
}

/// How often each value, or each pair of successive values, is contributed to joint random numbers.
fn contributions<F: Field>(a: &Args, t: &Trace) -> String {
    let (n, th, seed, runs, per) = (a.num("n") as usize, a.num("t") as usize, a.num("seed"), a.num("runs"), a.num("per") as usize);
    let p = own::p::<F>().to_usize().unwrap();
    let prog = vec![Op { name: "rands".into(), args: vec![0; per] }];
    let mut single = vec![0u32; p];
    let mut within = vec![0u32; p * p]; // successive contributions of one party
    let mut across = vec![0u32; p * p]; // contributions of two parties to one number
    for i in 0..runs {
        let s = seed.wrapping_add(i.wrapping_mul(0x1234567));
        let r = go::<F>(plan(a, n, th, s), &[], &prog, false, false, false, s, &Sched::Waves, usize::MAX, true, t);
        if let Outcome::Done = r.outcome {} else { return "{\"ev\":\"contributions\",\"failed\":true}".into(); }
        let h = r.hub.lock().unwrap();
        let v: Vec<Vec<usize>> = h.log[1..].iter().map(|l| l.iter().filter_map(|(c, _)| if let Comm::Dist(v, _) = c { v.to_usize() } else { None }).filter(|v| *v < p).collect()).collect();
        if v.iter().any(|x| x.len() != per) { return format!("{{\"ev\":\"contributions\",\"failed\":true,\"lengths\":{:?}}}", v.iter().map(|x| x.len()).collect::<Vec<_>>()); }
        for x in &v {
            for y in x { single[*y] += 1; }
            for w in x.windows(2) { within[w[0] * p + w[1]] += 1; }
        }
        for k in 0..per { for w in v.windows(2) { across[w[0][k] * p + w[1][k]] += 1; } }
    }
    let c = |v: &Vec<u32>| format!("{{\"N\":{},\"counts\":{}}}", v.iter().sum::<u32>(), jlist(v, |x| x.to_string()));
    format!("{{\"ev\":\"contributions\",\"field\":\"{}\",\"p\":{},\"n\":{},\"single\":{},\"within\":{},\"across\":{},\"widths\":[{},{},{}]}}", a.get("F"), p, n, c(&single), c(&within), c(&across), a.num("w1"), a.num("w2"), a.num("w3"))
}

/// What the parties contribute to joint random numbers in a large field.
fn contribdraws<F: Field>(a: &Args, t: &Trace) -> String {
    let (n, th, seed, runs, per) = (a.num("n") as usize, a.num("t") as usize, a.num("seed"), a.num("runs"), a.num("per") as usize);
    let prog = vec![Op { name: "rands".into(), args: vec![0; per] }];
    let mut xs: Vec<BigUint> = vec![];
    for i in 0..runs {
        let s = seed.wrapping_add(i.wrapping_mul(0x1234567));
        let r = go::<F>(plan(a, n, th, s), &[], &prog, false, false, false, s, &Sched::Waves, usize::MAX, true, t);
        if let Outcome::Done = r.outcome {} else { return "{\"ev\":\"contributions\",\"failed\":true}".into(); }
        let h = r.hub.lock().unwrap();
        for l in &h.log[1..] {
            for (c, _) in l {
                if let Comm::Dist(v, _) = c { xs.push(v.clone()); }
            }
        }
    }
    format!("{{\"ev\":\"sharedraws\",\"field\":\"{}\",\"p\":{},\"t\":{},\"width\":{},\"distinct\":1,\"xs\":{}}}", a.get("F"), limbs(&own::p::<F>()), th, a.num("width"), jlist(&xs, limbs))
}

// ---- Shamir's scheme by itself -----------------------------------------------------------------
type Any<F> = Party<F, Real>;

fn jshares<F: Field>(v: &[Sh<F>]) -> String {
    jlist(v, |s| format!("{{\"x\":{},\"y\":{}}}", s.0, limbs(&s.1.as_uint())))
}

/// share F= secret= n= t= seed= recs=i.j.k/l.m...   (indices into the shares, from 0)
fn share<F: Field>(a: &Args, _t: &Trace) -> String {
    let (n, t) = (a.num("n") as usize, a.num("t") as usize);
    let secret: F = big(a.get("secret")).into();
    let r = catch(|| {
        let shares = match a.0.get("poly") {
            // shares of a polynomial of our choosing, at points of our choosing
            Some(c) => {
                let mut poly = vec![secret.as_uint()];
                poly.extend(bigs(c));
                list(a.get("xs")).into_iter().map(|x| (x, own::eval(&poly, x, &own::p::<F>()).into())).collect()
            }
            None => Any::<F>::generate_shares(&mut rng(a.num("seed")), &secret, n, t),
        };
        let recs = a.get("recs").split('/').filter(|x| !x.is_empty()).map(|r| {
            let ix: Vec<usize> = r.split('.').map(|x| x.parse().unwrap()).collect();
            let chosen: Vec<Sh<F>> = ix.iter().filter_map(|i| shares.get(*i).cloned()).collect();
            format!("{{\"idx\":{},\"out\":{}}}", jlist(&ix, |x| x.to_string()), limbs(&Any::<F>::reconstruct_secret(&chosen, t).as_uint()))
        }).collect::<Vec<_>>();
        format!("\"shares\":{},\"recs\":[{}]", jshares(&shares), recs.join(","))
    });
    match r {
        Ok(s) => format!("{{\"ev\":\"share\",\"field\":\"{}\",\"p\":{},\"secret\":{},\"n\":{},\"t\":{},\"own\":{},{}}}", a.get("F"), limbs(&own::p::<F>()), limbs(&big(a.get("secret"))), n, t, a.0.contains_key("poly"), s),
        Err(e) => format!("{{\"ev\":\"panic\",\"why\":\"{}\",\"cmd\":\"share F={} secret={} n={} t={}\"}}", esc(&e), a.get("F"), a.get("secret"), n, t),
    }
}

/// Counts the tuples of shares that the parties in `who` get, and those of two successive sharings.
fn sharings<F: Field>(a: &Args, t: &Trace) -> String {
    let (n, th, runs) = (a.num("n") as usize, a.num("t") as usize, a.num("runs"));
    let who = list(a.get("who"));
    let p = own::p::<F>().to_usize().unwrap();
    let secret: F = big(a.get("secret")).into();
    let other: F = big(&a.or("other", a.get("secret"))).into();
    let twice = a.or("pairs", "0") == "1";
    let cells = p.pow(who.len() as u32);
    let mut counts = vec![0u32; if twice { cells * cells } else { cells }];
    let mut source = rng(a.num("seed"));
    let fresh = a.or("fresh", "0") == "1"; // a new source for every sharing
    let r = catch(|| {
        for i in 0..runs {
            if i % 256 == 0 { t.tick(); }
            if fresh { source = rng(a.num("seed").wrapping_add(i)); }
            let mut cell = |s: &F| {
                let shares = Any::<F>::generate_shares(&mut source, s, n, th);
                who.iter().fold(0, |acc, w| acc * p + shares[*w].1.as_uint().to_usize().unwrap())
            };
            let c = cell(&secret);
            let c = if twice { c * cells + cell(&other) } else { c };
            counts[c] += 1;
        }
    });
    match r {
        Ok(()) => format!("{{\"ev\":\"sharings\",\"field\":\"{}\",\"secret\":{},\"n\":{},\"t\":{},\"who\":{},\"N\":{},\"width\":{},\"counts\":{}}}", a.get("F"), limbs(&big(a.get("secret"))), n, th, jlist(&who, |x| x.to_string()), runs, a.num("width"), jlist(&counts, |x| x.to_string())),
        Err(e) => format!("{{\"ev\":\"panic\",\"why\":\"{}\"}}", esc(&e)),
    }
}

/// Shares of many sharings of one secret in a large field.
fn sharingdraws<F: Field>(a: &Args, t: &Trace) -> String {
    let (n, th, runs) = (a.num("n") as usize, a.num("t") as usize, a.num("runs"));
    let secret: F = big(a.get("secret")).into();
    let mut source = rng(a.num("seed"));
    let mut xs: Vec<BigUint> = vec![];
    let r = catch(|| {
        for _ in 0..runs {
            t.tick();
            let s = Any::<F>::generate_shares(&mut source, &secret, n, th);
            xs.extend(s[..(th - 1).min(s.len())].iter().map(|s| s.1.as_uint()));
        }
    });
    match r {
        Ok(()) => format!("{{\"ev\":\"sharedraws\",\"field\":\"{}\",\"p\":{},\"t\":{},\"width\":{},\"distinct\":{},\"xs\":{}}}", a.get("F"), limbs(&own::p::<F>()), th, a.num("width"), a.get("distinct"), jlist(&xs, limbs)),
        Err(e) => format!("{{\"ev\":\"panic\",\"why\":\"{}\"}}", esc(&e)),
    }
}

/// The polynomials of many sharings.
fn polynomials<F: Field>(a: &Args, t: &Trace) -> String {
    let (n, th, runs) = (a.num("n") as usize, a.num("t") as usize, a.num("runs"));
    let secrets = bigs(a.get("secrets"));
    let p = own::p::<F>();
    let mut source = rng(a.num("seed"));
    let fresh = a.or("fresh", "0") == "1";
    let r = catch(|| {
        (0..runs).map(|i| {
            t.tick();
            if fresh { source = rng(a.num("seed").wrapping_add(i)); }
            let s = &secrets[i as usize % secrets.len()];
            let shares = Any::<F>::generate_shares(&mut source, &s.clone().into(), n, th);
            let ys: Vec<BigUint> = shares.iter().map(|s| s.1.as_uint()).collect();
            let c = own::coefficients(&ys[..th.min(ys.len())], &p);
            format!("{{\"secret\":{},\"shares\":{},\"coeffs\":{}}}", limbs(s), jshares(&shares), jlist(&c[1..], limbs))
        }).collect::<Vec<_>>()
    });
    match r {
        Ok(v) => format!("{{\"ev\":\"polynomials\",\"field\":\"{}\",\"p\":{},\"n\":{},\"t\":{},\"width\":{},\"distinct\":{},\"of\":[{}]}}", a.get("F"), limbs(&p), n, th, a.num("width"), a.get("distinct"), v.join(",")),
        Err(e) => format!("{{\"ev\":\"panic\",\"why\":\"{}\"}}", esc(&e)),
    }
}

/// Thresholds that would give the secret away.
fn refuse<F: Field>(a: &Args, _t: &Trace) -> String {
    let (n, th) = (a.num("n") as usize, a.num("t") as usize);
    let secret: F = big(a.get("secret")).into();
    let kind = match catch(|| Any::<F>::generate_shares(&mut rng(a.num("seed")), &secret, n, th).len()) { Ok(_) => "shares", Err(_) => "refused" };
    format!("{{\"ev\":\"refuse\",\"field\":\"{}\",\"n\":{},\"t\":{},\"kind\":\"{}\"}}", a.get("F"), n, th, kind)
}

/// A machine whose registers hold shared values; every instruction is carried out on each party's shares.
/// lin F= n= t= seed= in= ops=add:0,1;muls:2,<hex>;sum:0,1,2;...
fn linear<F: Field>(a: &Args, t: &Trace) -> Vec<String> {
    let (n, th, seed) = (a.num("n") as usize, a.num("t") as usize, a.num("seed"));
    let p = own::p::<F>();
    let mut regs: Vec<Vec<Sh<F>>> = vec![];
    let values = bigs(a.get("in"));
    for (i, v) in values.iter().enumerate() {
        if a.or("own", "0") == "1" {
            let mut poly = vec![v.clone()];
            for c in 1..th as u64 { poly.push(draw(seed, 9, i as u64 * 64 + c, &p)); }
            regs.push((1..=n).map(|x| (x, own::eval(&poly, x, &p).into())).collect());
        } else {
            match catch(|| Any::<F>::generate_shares(&mut rng(seed.wrapping_add(i as u64)), &v.clone().into(), n, th)) {
                Ok(s) => regs.push(s),
                Err(e) => return vec![format!("{{\"ev\":\"panic\",\"why\":\"{}\"}}", esc(&e))],
            }
        }
    }
    let mut out = vec![format!("{{\"ev\":\"lin\",\"field\":\"{}\",\"p\":{},\"n\":{},\"t\":{},\"regs\":{}}}", a.get("F"), limbs(&p), n, th, jlist(&regs, |r| jshares(r)))];
    for o in a.get("ops").split(';') {
        t.tick();
        let mut it = o.splitn(2, ':');
        let (name, rest) = (it.next().unwrap(), it.next().unwrap_or("-"));
        let (args, scalar): (Vec<usize>, BigUint) = if name.ends_with('s') && name != "s" {
            let v: Vec<&str> = rest.split(',').collect();
            (vec![v[0].parse().unwrap()], big(v[1]))
        } else {
            (list(rest), BigUint::zero())
        };
        let sc: F = scalar.clone().into();
        // each party by itself
        let mut res: Vec<Result<Option<Sh<F>>, String>> = vec![];
        for i in 0..n {
            let r = |k: usize| regs[args[k]][i].clone();
            res.push(catch(|| match name {
                "add" => Some(Any::<F>::add_shares(&r(0), &r(1))),
                "sub" => Some(Any::<F>::sub_shares(&r(0), &r(1))),
                "adds" => Some(Any::<F>::add_scalar(&r(0), &sc)),
                "subs" => Some(Any::<F>::sub_scalar(&r(0), &sc)),
                "muls" => Some(Any::<F>::multiply_scalar(&r(0), &sc)),
                "sum" => Any::<F>::sum_shares(&args.iter().map(|a| regs[*a][i].clone()).collect::<Vec<_>>()),
                // shares of different parties
                "badadd" => Some(Any::<F>::add_shares(&regs[args[0]][i], &regs[args[1]][(i + 1) % n])),
                "badsub" => Some(Any::<F>::sub_shares(&regs[args[0]][(i + 1) % n], &regs[args[1]][i])),
                "badsum" => Any::<F>::sum_shares(&args.iter().enumerate().map(|(k, a)| regs[*a][if k + 1 == args.len() { (i + 1) % n } else { i }].clone()).collect::<Vec<_>>()),
                "badmid" => Any::<F>::sum_shares(&args.iter().enumerate().map(|(k, a)| regs[*a][if k == 1 { (i + 1) % n } else { i }].clone()).collect::<Vec<_>>()),
                "badfirst" => Any::<F>::sum_shares(&args.iter().enumerate().map(|(k, a)| regs[*a][if k == 0 { (i + 1) % n } else { i }].clone()).collect::<Vec<_>>()),
                x => panic!("scenario: {}", x),
            }));
        }
        let kinds = jlist(&res, |r| match r { Ok(Some(_)) => "\"share\"".into(), Ok(None) => "\"nothing\"".into(), Err(e) => { assert!(!e.starts_with("scenario"), "{}", e); "\"refused\"".to_string() } });
        let shares: Vec<Sh<F>> = res.iter().filter_map(|r| r.clone().ok().and_then(|x| x)).collect();
        out.push(format!("{{\"ev\":\"linop\",\"op\":\"{}\",\"args\":{},\"scalar\":{},\"kinds\":{},\"out\":{}}}", name, jlist(&args, |x| x.to_string()), limbs(&scalar), kinds, jshares(&shares)));
        if shares.len() == n && !name.starts_with("bad") { regs.push(shares); }
    }
    out
}

/// Whatever escapes is an event that nothing explains.
fn command(line: &str, t: &Trace) -> Vec<String> {
    catch(|| perform(line, t)).unwrap_or_else(|e| {
        assert!(!e.starts_with("scenario"), "{}", e);
        vec![format!("{{\"ev\":\"panic\",\"why\":\"{}\",\"cmd\":\"{}\"}}", esc(&e), esc(line))]
    })
}

fn perform(line: &str, t: &Trace) -> Vec<String> {
    let w: Vec<&str> = line.split_whitespace().collect();
    let a = Args::parse(&w[1..]);
    if w[0] == "delegation" {
        return delegation::probe(a.num("seed"));
    }
    let f = a.get("F").to_string();
    match w[0] {
        "run" => vec![fields!(f.as_str(), run(&a, t))],
        "bag" => vec![fields!(f.as_str(), bag(&a, t))],
        "contributions" => vec![fields!(f.as_str(), contributions(&a, t))],
        "contribdraws" => vec![fields!(f.as_str(), contribdraws(&a, t))],
        "share" => vec![fields!(f.as_str(), share(&a, t))],
        "sharings" => vec![fields!(f.as_str(), sharings(&a, t))],
        "sharedraws" => vec![fields!(f.as_str(), sharingdraws(&a, t))],
        "polynomials" => vec![fields!(f.as_str(), polynomials(&a, t))],
        "refuse" => vec![fields!(f.as_str(), refuse(&a, t))],
        "lin" => fields!(f.as_str(), linear(&a, t)),
        x => panic!("scenario: {}", x),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scenario = std::fs::read_to_string(&args[1]).expect("scenario");
    let t = Arc::new(Trace::create(&args[2], 100));
    let mut par: Option<BTreeMap<String, Vec<String>>> = None;
    let mut woven: Option<(u64, Vec<String>)> = None;
    for l in scenario.lines() {
        if l.trim().is_empty() { continue; }
        if l == "par" {
            par = Some(BTreeMap::new());
        } else if l == "endpar" {
            // every list of commands on a thread of its own
            PARALLEL.store(true, std::sync::atomic::Ordering::SeqCst);
            let gate = Arc::new(std::sync::Barrier::new(par.as_ref().unwrap().len()));
            let hs: Vec<_> = par.take().unwrap().into_iter().map(|(_, ls)| {
                let (t, gate) = (t.clone(), gate.clone());
                std::thread::spawn(move || {
                    gate.wait();
                    ls.iter().flat_map(|l| command(l, &t)).collect::<Vec<_>>()
                })
            }).collect();
            for h in hs { for s in h.join().expect("thread") { t.line(&s); } }
            PARALLEL.store(false, std::sync::atomic::Ordering::SeqCst);
        } else if l.starts_with("weave ") {
            woven = Some((l[6..].parse().expect("number"), vec![]));
        } else if l == "endweave" {
            let (order, ls) = woven.take().unwrap();
            let all = catch(|| weave(&ls, order, &t)).unwrap_or_else(|e| {
                assert!(!e.starts_with("scenario"), "{}", e);
                vec![format!("{{\"ev\":\"panic\",\"why\":\"{}\"}}", esc(&e))]
            });
            for s in all { t.line(&s); }
        } else if let Some((_, ls)) = woven.as_mut() {
            ls.push(l.to_string());
        } else if let Some(p) = par.as_mut() {
            let i = l.find(' ').unwrap();
            p.entry(l[..i].to_string()).or_insert_with(Vec::new).push(l[i + 1..].to_string());
        } else {
            for s in command(l, &t) { t.line(&s); }
        }
    }
    t.flush();
}
