// The parties of a run, the network between them, and the executor that drives both.
use crate::util::*;
use futures::Future;
use jester_maths::prime::PrimeField;
use jester_sharing::beaver_randomization_multiplication::BeaverCommunicationScheme;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::{BigUint, CliqueCommunicationScheme};
use num::Zero;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub trait Field: PrimeField + Send + Sync + 'static {}
impl<T: PrimeField + Send + Sync + 'static> Field for T {}
pub type Sh<F> = (usize, F);

/// Arithmetic of the harness itself, on numbers below the prime; independent of the code under test.
pub mod own {
    use super::*;
    pub fn p<F: Field>() -> BigUint {
        F::field_prime().as_uint()
    }
    pub fn eval(coeffs: &[BigUint], x: usize, p: &BigUint) -> BigUint {
        let x = BigUint::from(x);
        coeffs.iter().rev().fold(BigUint::zero(), |acc, c| (acc * &x + c) % p)
    }
    pub fn inv(a: &BigUint, p: &BigUint) -> BigUint {
        a.modpow(&(p - 2u32), p)
    }
    /// the value at zero of the polynomial through the points
    pub fn interpolate(points: &[(usize, BigUint)], p: &BigUint) -> BigUint {
        let mut acc = BigUint::zero();
        for (i, y) in points {
            let (mut num, mut den) = (BigUint::from(1u32), BigUint::from(1u32));
            for (j, _) in points {
                if i != j {
                    let (bi, bj) = (BigUint::from(*i) % p, BigUint::from(*j) % p);
                    num = num * &bj % p;
                    den = den * ((bj + p - bi) % p) % p;
                }
            }
            acc = (acc + y * num % p * inv(&den, p)) % p;
        }
        acc
    }
    /// the coefficients of the polynomial through the points 1, 2, ...
    pub fn coefficients(ys: &[BigUint], p: &BigUint) -> Vec<BigUint> {
        let n = ys.len();
        let mut d = ys.to_vec(); // divided differences
        for k in 1..n {
            let ik = inv(&BigUint::from(k), p);
            for i in (k..n).rev() {
                d[i] = (&d[i] + p - &d[i - 1]) % p * &ik % p;
            }
        }
        let mut c = vec![BigUint::zero(); n];
        for k in (0..n).rev() {
            // c := c * (x - (k + 1)) + d[k]
            for i in (0..n).rev() {
                let up = if i > 0 { c[i - 1].clone() } else { BigUint::zero() };
                let down = &c[i] * BigUint::from(k + 1) % p;
                c[i] = (up + p - down) % p;
            }
            c[0] = (&c[0] + &d[k]) % p;
        }
        c
    }
}

#[derive(Clone)]
pub enum Payload<F> {
    Share(Sh<F>),
    Triples(Vec<(Sh<F>, Sh<F>, Sh<F>)>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Reveal,
    Dist,
    Triples,
    Random,
}

pub struct Msg<F> {
    pub from: usize, // 0: the dealer
    pub to: usize,
    pub nth: usize, // in the order of sending, per pair of parties
    pub kind: Kind,
    pub k: usize,
    pub payload: Payload<F>,
}

pub enum Comm {
    Reveal(usize, BigUint),
    Dist(BigUint, Vec<BigUint>),
    Triples(usize),
    Random,
}

#[derive(Clone)]
pub struct Plan {
    pub n: usize,
    pub t: usize,
    pub lazy: bool,
    pub seed: u64,
    pub blind: Vec<BigUint>,           // joint random numbers of the ideal generator
    pub masks: Vec<(BigUint, BigUint)>, // of the triples
    pub constant: bool,                // sharings of the dealer use few polynomials (surveys)
}

pub struct Hub<F> {
    pub plan: Plan,
    p: BigUint,
    pub wave: usize,
    pub pending: Vec<Msg<F>>,
    sent: HashMap<(usize, usize), usize>,
    count: HashMap<(usize, Kind), usize>,
    inbox: HashMap<(usize, Kind, usize), Vec<(usize, Payload<F>)>>,
    wakers: HashMap<(usize, Kind, usize), Waker>,
    triples: Vec<(Vec<BigUint>, Vec<BigUint>, Vec<BigUint>)>,
    randoms: Vec<Vec<BigUint>>,
    pub log: Vec<Vec<(Comm, usize)>>, // per party: what it issued, and in which wave
    pub keep_log: bool,
    pub opened: Vec<Vec<Option<BigUint>>>, // per opening: the share of each party
    pub comms: usize,
}

impl<F: Field> Hub<F> {
    pub fn new(plan: Plan) -> Self {
        let n = plan.n;
        Hub {
            plan,
            p: own::p::<F>(),
            wave: 0,
            pending: vec![],
            sent: HashMap::new(),
            count: HashMap::new(),
            inbox: HashMap::new(),
            wakers: HashMap::new(),
            triples: vec![],
            randoms: vec![],
            log: (0..=n).map(|_| vec![]).collect(),
            keep_log: true,
            opened: vec![],
            comms: 0,
        }
    }

    pub fn draw(&self, tag: u64, i: u64) -> BigUint {
        draw(self.plan.seed, tag, i, &self.p)
    }

    fn poly(&self, secret: BigUint, tag: u64, i: u64) -> Vec<BigUint> {
        let mut v = vec![secret];
        for c in 1..self.plan.t as u64 {
            v.push(self.draw(tag, i * 64 + c));
        }
        v
    }

    fn triple(&mut self, k: usize) -> &(Vec<BigUint>, Vec<BigUint>, Vec<BigUint>) {
        while self.triples.len() <= k {
            let i = self.triples.len();
            let (a, b) = match self.plan.masks.get(i) {
                Some(m) => m.clone(),
                None => (self.draw(1, 2 * i as u64), self.draw(1, 2 * i as u64 + 1)),
            };
            let c = &a * &b % &self.p;
            let j = 3 * i as u64;
            let t = (self.poly(a, 2, j), self.poly(b, 2, j + 1), self.poly(c, 2, j + 2));
            self.triples.push(t);
        }
        &self.triples[k]
    }

    fn random(&mut self, k: usize) -> &Vec<BigUint> {
        while self.randoms.len() <= k {
            let i = self.randoms.len();
            let v = match self.plan.blind.get(i) {
                Some(v) => v.clone(),
                None => {
                    let mut j = 0;
                    loop {
                        let v = self.draw(3, i as u64 * 1000 + j);
                        if !v.is_zero() {
                            break v;
                        }
                        j += 1;
                    }
                }
            };
            let poly = self.poly(v, 4, i as u64);
            self.randoms.push(poly);
        }
        &self.randoms[k]
    }

    pub fn random_values(&self) -> Vec<BigUint> {
        self.randoms.iter().map(|p| p[0].clone()).collect()
    }

    pub fn triple_polys(&self) -> &Vec<(Vec<BigUint>, Vec<BigUint>, Vec<BigUint>)> {
        &self.triples
    }

    fn next(&mut self, who: usize, kind: Kind) -> usize {
        self.comms += 1;
        assert!(self.comms < 200_000, "runaway communication");
        let c = self.count.entry((who, kind)).or_insert(0);
        *c += 1;
        *c - 1
    }

    fn note(&mut self, who: usize, c: Comm) {
        let w = self.wave;
        if self.keep_log {
            self.log[who].push((c, w));
        }
    }

    fn send(&mut self, from: usize, to: usize, kind: Kind, k: usize, payload: Payload<F>) {
        let nth = self.sent.entry((from, to)).or_insert(0);
        *nth += 1;
        let m = Msg { from, to, nth: *nth - 1, kind, k, payload };
        if from == to {
            self.arrive(m);
        } else {
            self.pending.push(m);
        }
    }

    pub fn arrive(&mut self, m: Msg<F>) {
        self.inbox.entry((m.to, m.kind, m.k)).or_insert_with(Vec::new).push((m.from, m.payload));
        if let Some(w) = self.wakers.remove(&(m.to, m.kind, m.k)) {
            w.wake();
        }
    }

    fn issue(&mut self, who: usize, kind: Kind, k: usize, what: &Issue<F>) {
        let n = self.plan.n;
        match what {
            Issue::Reveal(share) => {
                for to in 1..=n {
                    self.send(who, to, kind, k, Payload::Share(share.clone()));
                }
            }
            Issue::Dist(shares) => {
                for to in 1..=n {
                    self.send(who, to, kind, k, Payload::Share((to, shares[to - 1].clone().into())));
                }
            }
            Issue::Triples(from, count) => {
                let ts = (*from..*from + *count)
                    .map(|i| {
                        let p = self.p.clone();
                        let t = self.triple(i);
                        let s = |c: &Vec<BigUint>| (who, own::eval(c, who, &p).into());
                        (s(&t.0), s(&t.1), s(&t.2))
                    })
                    .collect();
                self.send(0, who, kind, k, Payload::Triples(ts));
            }
            Issue::Random => {
                let p = self.p.clone();
                let s = own::eval(self.random(k), who, &p);
                self.send(0, who, kind, k, Payload::Share((who, s.into())));
            }
        }
    }
}

/// The i-th number of a stream, uniform below p.
pub fn draw(seed: u64, tag: u64, i: u64, p: &BigUint) -> BigUint {
    let mut m = Mix(seed ^ tag.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i.wrapping_mul(0xD1B5_4A32_D192_ED03));
    m.next();
    let words = (p.bits() + 64) / 32 + 1;
    let v: Vec<u32> = (0..words).map(|_| m.next() as u32).collect();
    BigUint::new(v) % p
}

enum Issue<F> {
    Reveal(Sh<F>),
    Dist(Vec<BigUint>),
    Triples(usize, usize),
    Random,
}

/// Waits for the messages of one communication.
struct Wait<F: Field> {
    hub: Arc<Mutex<Hub<F>>>,
    who: usize,
    kind: Kind,
    k: usize,
    need: usize,
    first: Option<Issue<F>>, // still to be sent
}
impl<F: Field> Unpin for Wait<F> {}
impl<F: Field> Future for Wait<F> {
    type Output = Vec<(usize, Payload<F>)>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let hub = self.hub.clone();
        let mut h = hub.lock().unwrap();
        if let Some(what) = self.first.take() {
            h.issue(self.who, self.kind, self.k, &what);
        }
        let key = (self.who, self.kind, self.k);
        if h.inbox.get(&key).map_or(0, |v| v.len()) >= self.need {
            Poll::Ready(h.inbox.remove(&key).unwrap())
        } else {
            h.wakers.insert(key, cx.waker().clone());
            Poll::Pending
        }
    }
}

pub struct Real;
pub struct Ideal;

pub struct Party<F: Field, R> {
    pub id: usize,
    pub hub: Arc<Mutex<Hub<F>>>,
    pub mark: PhantomData<fn() -> R>,
}

impl<F: Field, R> Party<F, R> {
    fn start(&mut self, kind: Kind, need: usize, comm: Comm, what: impl FnOnce(&mut Hub<F>, usize) -> Issue<F>) -> Wait<F> {
        let mut h = self.hub.lock().unwrap();
        let k = h.next(self.id, kind);
        if let Comm::Reveal(_, y) = &comm {
            while h.opened.len() <= k {
                let n = h.plan.n;
                h.opened.push(vec![None; n]);
            }
            h.opened[k][self.id - 1] = Some(y.clone());
        }
        h.note(self.id, comm);
        let what = what(&mut h, k);
        let first = if h.plan.lazy {
            Some(what)
        } else {
            h.issue(self.id, kind, k, &what);
            None
        };
        Wait { hub: self.hub.clone(), who: self.id, kind, k, need, first }
    }

    pub fn random(&mut self) -> Pin<Box<dyn Future<Output = Sh<F>> + Send>> {
        let w = self.start(Kind::Random, 1, Comm::Random, |_, _| Issue::Random);
        Box::pin(async move {
            match w.await.pop().unwrap().1 {
                Payload::Share(s) => s,
                _ => unreachable!(),
            }
        })
    }
}

impl<F: Field, R: 'static> ShamirSecretSharingScheme<F> for Party<F, R> {}

impl<F: Field, R: 'static> CliqueCommunicationScheme<F, Sh<F>> for Party<F, R> {
    fn reveal_shares(&mut self, share: Sh<F>) -> Pin<Box<dyn Future<Output = F> + Send>> {
        let n = self.hub.lock().unwrap().plan.n;
        let y = share.1.as_uint();
        let w = self.start(Kind::Reveal, n, Comm::Reveal(share.0, y), |_, _| Issue::Reveal(share));
        Box::pin(async move {
            let p = own::p::<F>();
            let pts: Vec<_> = w
                .await
                .into_iter()
                .map(|(from, s)| match s {
                    Payload::Share((_, y)) => (from, y.as_uint() % &p),
                    _ => unreachable!(),
                })
                .collect();
            own::interpolate(&pts, &p).into()
        })
    }

    fn distribute_secret(&mut self, secret: F) -> Pin<Box<dyn Future<Output = Vec<Sh<F>>> + Send>> {
        let (n, id) = (self.hub.lock().unwrap().plan.n, self.id);
        let v = secret.as_uint();
        let p = own::p::<F>();
        let shares: Vec<BigUint> = {
            let h = self.hub.lock().unwrap();
            let k = *h.count.get(&(id, Kind::Dist)).unwrap_or(&0);
            let poly = h.poly(&v % &p, 5 + id as u64, k as u64);
            (1..=n).map(|x| own::eval(&poly, x, &p)).collect()
        };
        let w = self.start(Kind::Dist, n, Comm::Dist(v, shares.clone()), |_, _| Issue::Dist(shares));
        Box::pin(async move {
            w.await
                .into_iter()
                .map(|(_, s)| match s {
                    Payload::Share(s) => s,
                    _ => unreachable!(),
                })
                .collect()
        })
    }
}

impl<F: Field, R: 'static> BeaverCommunicationScheme<Sh<F>> for Party<F, R> {
    fn get_reconstruction_threshold(&self) -> usize {
        self.hub.lock().unwrap().plan.t
    }

    fn obtain_beaver_triples<'a>(&'a mut self, count: usize) -> Pin<Box<dyn Future<Output = Vec<(Sh<F>, Sh<F>, Sh<F>)>> + Send + 'a>> {
        let id = self.id;
        let w = self.start(Kind::Triples, 1, Comm::Triples(count), |h, _| {
            // the triples a party has had so far
            let had = h.log_count(id);
            h.add_count(id, count);
            Issue::Triples(had, count)
        });
        Box::pin(async move {
            match w.await.pop().unwrap().1 {
                Payload::Triples(t) => t,
                _ => unreachable!(),
            }
        })
    }
}

impl<F: Field> Hub<F> {
    fn log_count(&self, id: usize) -> usize {
        *self.sent.get(&(usize::MAX, id)).unwrap_or(&0)
    }
    fn add_count(&mut self, id: usize, c: usize) {
        *self.sent.entry((usize::MAX, id)).or_insert(0) += c;
    }
}

// ---- the executor ---------------------------------------------------------------------------
pub struct Flag(AtomicBool);
impl futures::task::ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Clone)]
pub enum Sched {
    Waves,
    Random(u64),
    List(Vec<(char, usize, usize, usize)>), // p party / d from to nth
}

/// Whether runs are under way on several threads.
pub static PARALLEL: AtomicBool = AtomicBool::new(false);

pub enum Outcome {
    Done,
    Abandoned,
    Stuck(Vec<usize>),
    Panic(String),
}

/// One run under way.
pub struct Engine<F: Field, O> {
    hub: Arc<Mutex<Hub<F>>>,
    tasks: Vec<Pin<Box<dyn Future<Output = O>>>>,
    sched: Sched,
    at: usize, // in the list of the schedule
    stop: usize, // abandon the run after so many polls and deliveries
    flags: Vec<Arc<Flag>>,
    pub outs: Vec<Option<O>>,
    rng: Mix,
    steps: usize,
    pub rounds: usize,
}
pub enum Step {
    Moved,
    Idle,
    End(Outcome),
}

impl<F: Field, O> Engine<F, O> {
    pub fn new(hub: &Arc<Mutex<Hub<F>>>, tasks: Vec<Pin<Box<dyn Future<Output = O>>>>, sched: &Sched, stop: usize) -> Self {
        let n = tasks.len();
        let seed = if let Sched::Random(s) = sched { *s } else { 1 };
        Engine {
            hub: hub.clone(),
            tasks,
            sched: sched.clone(),
            at: 0,
            stop,
            flags: (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect(),
            outs: (0..n).map(|_| None).collect(),
            rng: Mix(seed),
            steps: 0,
            rounds: 0,
        }
    }

    fn poll(&mut self, i: usize, trace: &Trace) -> Result<(), String> {
        self.flags[i].0.store(false, Ordering::SeqCst);
        if self.outs[i].is_some() {
            return Ok(());
        }
        trace.tick();
        self.steps += 1;
        let w = futures::task::waker_ref(&self.flags[i]);
        let mut cx = Context::from_waker(&w);
        let task = &mut self.tasks[i];
        let r = catch(|| task.as_mut().poll(&mut cx))?;
        if let Poll::Ready(o) = r {
            self.outs[i] = Some(o);
        }
        Ok(())
    }

    fn ready(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|i| self.outs[*i].is_none() && self.flags[*i].0.load(Ordering::SeqCst)).collect()
    }

    pub fn stuck(&self) -> Outcome {
        Outcome::Stuck((0..self.tasks.len()).filter(|i| self.outs[*i].is_none()).map(|i| i + 1).collect())
    }

    /// Lets a party go on, or delivers something.
    pub fn step(&mut self, trace: &Trace) -> Step {
        let asked = if let Sched::List(l) = &self.sched { l.get(self.at).cloned() } else { None };
        if let Some((c, a, b, k)) = asked {
            self.at += 1;
            if c == 'p' {
                if self.ready().contains(&(a - 1)) {
                    if let Err(e) = self.poll(a - 1, trace) {
                        return Step::End(Outcome::Panic(e));
                    }
                }
            } else {
                let mut h = self.hub.lock().unwrap();
                if let Some(x) = h.pending.iter().position(|m| m.from == a && m.to == b && m.nth == k) {
                    let m = h.pending.remove(x);
                    h.arrive(m);
                }
            }
            return Step::Moved;
        }
        let now = self.ready();
        let undelivered = self.hub.lock().unwrap().pending.len();
        if self.steps >= self.stop {
            return Step::End(Outcome::Abandoned);
        }
        if self.outs.iter().all(|o| o.is_some()) {
            return Step::End(Outcome::Done);
        }
        if now.is_empty() && undelivered == 0 {
            return Step::Idle;
        }
        if let Sched::Random(_) = self.sched {
            let c = self.rng.below((now.len() + undelivered) as u64) as usize;
            if c < now.len() {
                if let Err(e) = self.poll(now[c], trace) {
                    return Step::End(Outcome::Panic(e));
                }
            } else {
                let mut h = self.hub.lock().unwrap();
                let m = h.pending.remove(c - now.len());
                h.arrive(m);
            }
        } else if !now.is_empty() {
            for i in now {
                if let Err(e) = self.poll(i, trace) {
                    return Step::End(Outcome::Panic(e));
                }
            }
        } else {
            self.rounds += 1;
            let mut h = self.hub.lock().unwrap();
            h.wave += 1;
            let ms: Vec<_> = h.pending.drain(..).collect();
            for m in ms {
                h.arrive(m);
            }
        }
        Step::Moved
    }
}

/// Nothing can go on; a lock held by another thread may still be released.
pub struct Patience(usize);
impl Patience {
    pub fn new() -> Self {
        Patience(0)
    }
    pub fn reset(&mut self) {
        self.0 = 0;
    }
    pub fn over(&mut self) -> bool {
        self.0 += 1;
        if self.0 > if PARALLEL.load(Ordering::SeqCst) { 200_000 } else { 5_000 } {
            return true;
        }
        std::thread::sleep(std::time::Duration::from_micros(100));
        false
    }
}

/// Drives the parties to their end.
pub fn execute<F: Field, O>(engine: &mut Engine<F, O>, trace: &Trace) -> Outcome {
    let mut patience = Patience::new();
    loop {
        match engine.step(trace) {
            Step::Moved => patience.reset(),
            Step::Idle => {
                if patience.over() {
                    return engine.stuck();
                }
            }
            Step::End(o) => return o,
        }
    }
}
