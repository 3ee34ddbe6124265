//! Drives two double ratchet sessions through schedules and records what they do.
//! usage: h_ratchet SCENARIO TRACE
//! A scenario is a list of runs:
//!   run sym|real SEED      starts a session between A (initiator) and B (responder)
//!   send P / burst P COUNT / deliver P I / dup P I / forge P REF PK N PN / flush
//!   end
//! Runs with duplicates or forged headers are run a second time without them; what is observed of
//! the other operations is recorded from both runs.
#[path = "../../common/util.rs"]
mod util;
use jester_double_ratchet::{
    state, ConstantInputKeyRatchet, DecryptionException, DoubleRatchetAlgorithmMessage,
    DoubleRatchetProtocol, KeyDerivationFunction,
};
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use rand::{CryptoRng, RngCore, SeedableRng, StdRng};
use std::cell::RefCell;
use util::*;

/// What the cryptographic stand-ins saw since the last operation.
#[derive(Default, Clone)]
pub struct Log {
    party: usize,
    made: [usize; 2],
    gen: Vec<(String, String)>,
    enc_key: Option<String>,
    dec_key: Option<String>,
}
thread_local!(static LOG: RefCell<Log> = RefCell::new(Log::default()));
fn log<T>(f: impl FnOnce(&mut Log) -> T) -> T {
    LOG.with(|l| f(&mut l.borrow_mut()))
}
const PARTY: [&str; 2] = ["A", "B"];

/// sessions have threads of their own: every call into a primitive lets the others go first
static APART: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn pause() {
    if APART.load(std::sync::atomic::Ordering::Relaxed) {
        std::thread::yield_now();
    }
}

macro_rules! driver {
    () => {
        type Msg = DoubleRatchetAlgorithmMessage<Public, Vec<u8>>;
        type Parts = (Public, usize, usize, Option<Vec<u8>>);
        pub struct Run {
            rng: StdRng,
            texts: Mix,
            a: Option<Proto<state::Initiator>>,
            est: [Option<Proto<state::Established>>; 2],
            handshake: Public,
            sent: [Vec<Option<Parts>>; 2],
            got: [Vec<bool>; 2],
            log: Log,
            pub events: Vec<Event>,
        }
        impl Run {
            pub fn new(seed: u64) -> Run {
                let mut s = [0u8; 32];
                s[..8].copy_from_slice(&seed.to_le_bytes());
                let mut rng = StdRng::from_seed(s);
                log(|l| *l = Log::default());
                let (a, first) = Proto::<state::Initiator>::initialize_sending(&mut rng, generator(), root());
                // the handshake message carries no cipher text and is of a type of its own
                let handshake = first.verif_parts().0;
                log(|l| l.party = 1);
                let b = Proto::<state::Established>::initialize_receiving(&mut rng, generator(), handshake.clone(), root());
                let mut r = Run {
                    rng,
                    texts: Mix(seed),
                    a: Some(a),
                    est: [None, Some(b)],
                    handshake,
                    sent: [vec![], vec![]],
                    got: [vec![], vec![]],
                    log: Log::default(),
                    events: vec![],
                };
                let g = r.gen();
                r.push("start", format!("\"seed\":{}", seed), g, false);
                r.log = log(|l| std::mem::replace(l, Log::default()));
                r
            }
            fn gen(&mut self) -> String {
                let v = log(|l| std::mem::replace(&mut l.gen, vec![]));
                jlist(&v, |(k, g)| format!("{{\"key\":\"{}\",\"with\":\"{}\"}}", k, g))
            }
            fn push(&mut self, ev: &str, fields: String, gen: String, bad: bool) {
                let head = format!("\"ev\":\"{}\",{},\"gen\":{}", ev, fields, gen);
                let obs = esc(&head);
                self.events.push(Event { head, obs, bad });
            }
            fn send(&mut self, p: usize) {
                let n = match self.texts.below(40) { 0 => 200 + self.texts.below(4000) as usize, 1 => 0, _ => self.texts.below(24) as usize };
                let text: Vec<u8> = (0..n).map(|_| self.texts.next() as u8).collect();
                let hex: String = text.iter().map(|b| format!("{:02x}", b)).collect();
                log(|l| { l.party = p; l.enc_key = None; });
                let r = match self.est[p].as_mut() {
                    Some(s) => catch(|| s.encrypt_message(&text)),
                    None => Err("the session is gone".into()),
                };
                let g = self.gen();
                let fields = match r {
                    Ok(m) => {
                        let parts = m.verif_parts();
                        let mk = log(|l| l.enc_key.take()).map_or(String::new(), |k| format!(",\"mk\":{}", k));
                        let f = format!(
                            "\"p\":\"{}\",\"kind\":\"ok\",\"text\":\"{}\",\"pk\":\"{}\",\"n\":{},\"pn\":{}{}",
                            PARTY[p], hex, name(&parts.0), parts.1, parts.2, mk
                        );
                        self.sent[p].push(Some(parts));
                        f
                    }
                    Err(why) => {
                        self.sent[p].push(None);
                        format!("\"p\":\"{}\",\"kind\":\"panic\",\"text\":\"{}\",\"why\":\"{}\"", PARTY[p], hex, esc(&why))
                    }
                };
                self.got[p].push(false);
                self.push("send", fields, g, false);
            }
            /// sends messages that all get lost; equal ones in a row are recorded as one
            fn burst(&mut self, p: usize, count: usize) {
                log(|l| l.party = p);
                let mut runs: Vec<(String, usize, usize, String, usize, usize)> = vec![];
                let mut kind = "ok";
                for _ in 0..count {
                    log(|l| l.enc_key = None);
                    let r = match self.est[p].as_mut() {
                        Some(s) => catch(|| s.encrypt_message(b"")),
                        None => Err("the session is gone".into()),
                    };
                    match r {
                        Ok(m) => {
                            let parts = m.verif_parts();
                            let key = log(|l| l.enc_key.take()).unwrap_or_default();
                            let at = key.rfind(",\"n\":").unwrap_or(0);
                            let (root, mn) = (key[..at].to_string(), key[at..].trim_start_matches(",\"n\":").trim_end_matches('}').parse().unwrap_or(0));
                            match runs.last_mut() {
                                Some(r) if r.0 == name(&parts.0) && parts.1 == r.1 + r.5 && parts.2 == r.2 && root == r.3 && mn == r.4 + r.5 => r.5 += 1,
                                _ => runs.push((name(&parts.0), parts.1, parts.2, root, mn, 1)),
                            }
                        }
                        Err(_) => kind = "panic",
                    }
                }
                let g = self.gen();
                let runs: Vec<_> = runs.into_iter().take(50).collect();
                let v = jlist(&runs, |r| format!("{{\"pk\":\"{}\",\"n\":{},\"pn\":{},\"mk\":{}{},\"count\":{}}}", r.0, r.1, r.2, if r.3.is_empty() { "{\"root\":[]".to_string() } else { r.3.clone() }, format!(",\"n\":{}}}", r.4), r.5));
                self.push("burst", format!("\"p\":\"{}\",\"kind\":\"{}\",\"count\":{},\"runs\":{}", PARTY[p], kind, count, v), g, false);
            }
            fn receive(&mut self, p: usize, parts: Parts) -> String {
                let m: Msg = DoubleRatchetAlgorithmMessage::verif_from_parts(parts);
                log(|l| { l.party = p; l.dec_key = None; });
                let rng = &mut self.rng;
                let hex = |v: &[u8]| v.iter().map(|b| format!("{:02x}", b)).collect::<String>();
                let (kind, text) = if self.est[p].is_some() {
                    let s = self.est[p].as_mut().unwrap();
                    match catch(|| s.decrypt_message(rng, m)) {
                        Ok(Ok(t)) => ("ok", hex(&t)),
                        Ok(Err(DecryptionException::OutOfOrderMessage { decrypted_message })) => ("ooo", hex(&decrypted_message)),
                        Ok(Err(_)) => ("err", String::new()),
                        Err(why) => ("panic", esc(&why)),
                    }
                } else if p == 0 && self.a.is_some() {
                    let a = self.a.take().unwrap();
                    match catch(|| a.decrypt_first_message(rng, m)) {
                        Ok((s, t)) => {
                            self.est[0] = Some(s);
                            ("ok", hex(&t))
                        }
                        Err(why) => ("panic", esc(&why)),
                    }
                } else {
                    ("panic", "the session is gone".into())
                };
                let mk = log(|l| l.dec_key.take()).map_or(String::new(), |k| format!(",\"mk\":{}", k));
                format!("\"kind\":\"{}\",\"text\":\"{}\"{}", kind, text, mk)
            }
            fn deliver(&mut self, p: usize, i: usize, ev: &str) {
                let r = match self.sent[1 - p].get(i - 1).cloned() {
                    Some(Some(parts)) => self.receive(p, parts),
                    _ => "\"kind\":\"lost\",\"text\":\"\"".to_string(),
                };
                if let Some(x) = self.got[1 - p].get_mut(i - 1) {
                    *x = true;
                }
                let g = self.gen();
                self.push(ev, format!("\"p\":\"{}\",\"i\":{},{}", PARTY[p], i, r), g, ev == "dup");
            }
            fn forge(&mut self, p: usize, r: &str, label: &str, n: usize, pn: usize) {
                let pk = match r {
                    "h" => Some(self.handshake.clone()),
                    "x" => Some(unknown()),
                    i => self.sent[1 - p].get(i.parse::<usize>().unwrap() - 1).cloned().unwrap_or(None).map(|m| m.0),
                };
                let c = Some(vec![0x5a; self.texts.clone().below(30) as usize]);
                let res = match pk {
                    Some(k) => self.receive(p, (k, n, pn, c)),
                    None => "\"kind\":\"lost\",\"text\":\"\"".to_string(),
                };
                let g = self.gen();
                self.push("forge", format!("\"p\":\"{}\",\"pk\":\"{}\",\"n\":{},\"pn\":{},{}", PARTY[p], label, n, pn, res), g, true);
            }
            /// delivers what is under way, then lets both parties talk
            fn flush(&mut self) {
                for round in 0..3 {
                    for p in 0..2 {
                        for i in 1..=self.got[1 - p].len() {
                            if !self.got[1 - p][i - 1] {
                                self.deliver(p, i, "deliver");
                            }
                        }
                        if round < 2 && (self.est[p].is_some()) {
                            self.send(p);
                        }
                    }
                }
            }
            pub fn play(&mut self, ops: &[Op], bad: bool) {
                for op in ops {
                    self.step(op, bad);
                }
            }
            pub fn step(&mut self, op: &Op, bad: bool) {
                log(|l| std::mem::swap(l, &mut self.log));
                    match op {
                        Op::Send(p) => self.send(*p),
                        Op::Burst(p, n) => self.burst(*p, *n),
                        Op::Deliver(p, i) => self.deliver(*p, *i, "deliver"),
                        Op::Dup(p, i) if bad => self.deliver(*p, *i, "dup"),
                        Op::Forge(p, r, label, n, pn) if bad => self.forge(*p, r, label, *n, *pn),
                        Op::Dup(..) | Op::Forge(..) => {}
                        Op::Flush => self.flush(),
                    }
                log(|l| std::mem::swap(l, &mut self.log));
            }
        }
        /// several sessions, which take turns or have a thread each
        pub fn together(runs: &[(u64, Vec<Op>)], threads: bool, order: u64) -> Vec<Vec<Event>> {
            APART.store(threads, std::sync::atomic::Ordering::Relaxed);
            if threads {
                let gate = std::sync::Arc::new(std::sync::Barrier::new(runs.len()));
                let hs: Vec<_> = runs.iter().cloned().map(|(seed, ops)| {
                    let gate = gate.clone();
                    std::thread::spawn(move || {
                        gate.wait();
                        let mut r = Run::new(seed);
                        for op in &ops { std::thread::yield_now(); r.step(op, true); }
                        r.events
                    })
                }).collect();
                return hs.into_iter().map(|h| h.join().expect("thread")).collect();
            }
            let mut mix = Mix(order);
            let mut live: Vec<Run> = runs.iter().map(|r| Run::new(r.0)).collect();
            let mut at = vec![0; runs.len()];
            loop {
                let open: Vec<usize> = (0..runs.len()).filter(|i| at[*i] < runs[*i].1.len()).collect();
                if open.is_empty() { break; }
                let i = open[mix.below(open.len() as u64) as usize];
                live[i].step(&runs[i].1[at[i]], true);
                at[i] += 1;
            }
            live.into_iter().map(|r| r.events).collect()
        }
    };
}

/// Symbolic cryptography: every key knows where it comes from.
mod sym {
    use super::*;
    pub struct Dh;
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct Public(pub String);
    /// Different keys may well have the same hash.
    impl std::hash::Hash for Public {
        fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
            self.0.len().hash(state)
        }
    }
    pub struct Private(String);
    pub struct Shared(String, String);
    impl DiffieHellmanKeyExchangeScheme for Dh {
        type PublicKey = Public;
        type PrivateKey = Private;
        type SharedKey = Shared;
        fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(_: &mut R, generator: &Public) -> (Private, Public) {
            pause();
            let name = log(|l| {
                l.made[l.party] += 1;
                let name = format!("{}{}", PARTY[l.party], l.made[l.party]);
                l.gen.push((name.clone(), generator.0.clone()));
                name
            });
            (Private(name.clone()), Public(name))
        }
        fn generate_shared_secret(private: &Private, partner: &Public) -> Shared {
            pause();
            let (a, b) = (private.0.clone(), partner.0.clone());
            if a <= b { Shared(a, b) } else { Shared(b, a) }
        }
    }
    pub struct RootKey(pub String);
    pub struct ChainKey(String, usize);
    pub struct MessageKey(pub String);
    pub struct RootKdf;
    impl KeyDerivationFunction for RootKdf {
        type ChainKey = RootKey;
        type Input = Shared;
        type OutputKey = ChainKey;
        fn derive_key(k: RootKey, dh: Shared) -> (RootKey, ChainKey) {
            pause();
            let sep = if k.0.is_empty() { "" } else { "," };
            let r = format!("{}{}[\"{}\",\"{}\"]", k.0, sep, dh.0, dh.1);
            (RootKey(r.clone()), ChainKey(r, 0))
        }
    }
    pub struct MsgKdf;
    impl KeyDerivationFunction for MsgKdf {
        type ChainKey = ChainKey;
        type Input = ();
        type OutputKey = MessageKey;
        fn derive_key(k: ChainKey, _: ()) -> (ChainKey, MessageKey) {
            pause();
            let mk = format!("{{\"root\":[{}],\"n\":{}}}", k.0, k.1);
            (ChainKey(k.0, k.1 + 1), MessageKey(mk))
        }
    }
    impl ConstantInputKeyRatchet for MsgKdf {
        const INPUT: () = ();
    }
    pub struct Enc;
    impl SymmetricalEncryptionScheme for Enc {
        type Key = MessageKey;
        fn generate_key<R: RngCore + CryptoRng>(_: &mut R) -> MessageKey {
            unreachable!()
        }
        fn encrypt_message(key: &MessageKey, m: &[u8]) -> Vec<u8> {
            pause();
            log(|l| l.enc_key = Some(key.0.clone()));
            let mut c = key.0.clone().into_bytes();
            c.push(0);
            c.extend_from_slice(m);
            c
        }
        fn decrypt_message(key: &MessageKey, c: &[u8]) -> Vec<u8> {
            pause();
            log(|l| l.dec_key = Some(key.0.clone()));
            let at = c.iter().position(|x| *x == 0).unwrap_or(c.len());
            if &c[..at] == key.0.as_bytes() && at < c.len() {
                c[at + 1..].to_vec()
            } else {
                b"(garbage)".to_vec()
            }
        }
    }
    pub type Proto<S> = DoubleRatchetProtocol<Dh, Enc, RootKdf, MsgKdf, Public, Private, Shared, RootKey, ChainKey, MessageKey, S>;
    pub fn generator() -> Public {
        Public("g".into())
    }
    pub fn root() -> RootKey {
        RootKey(String::new())
    }
    pub fn unknown() -> Public {
        Public("X1".into())
    }
    pub fn name(k: &Public) -> String {
        k.0.clone()
    }
    driver!();
}

/// The library's own Diffie-Hellman exchange and key derivation.
mod real {
    use super::*;
    use jester_hashes::{kdf::hkdf_derive_key, sha1::SHA1Hash};
    use jester_maths::prime::{PrimeField, Mersenne127};
    use std::ops::Deref;
    type F = Mersenne127;
    fn derive(key: &[u8], input: &[u8], info: &[u8]) -> (Vec<u8>, Vec<u8>) {
        pause();
        let k = hkdf_derive_key::<SHA1Hash, ()>(&(), key, input, 40, info);
        let k: &[u8] = k.deref();
        (k[..20].to_vec(), k[20..].to_vec())
    }
    pub struct RootKdf;
    impl KeyDerivationFunction for RootKdf {
        type ChainKey = Vec<u8>;
        type Input = F;
        type OutputKey = Vec<u8>;
        fn derive_key(k: Vec<u8>, dh: F) -> (Vec<u8>, Vec<u8>) {
            derive(&k, &dh.as_uint().to_bytes_be(), b"root")
        }
    }
    pub struct MsgKdf;
    impl KeyDerivationFunction for MsgKdf {
        type ChainKey = Vec<u8>;
        type Input = &'static [u8];
        type OutputKey = Vec<u8>;
        fn derive_key(k: Vec<u8>, i: &'static [u8]) -> (Vec<u8>, Vec<u8>) {
            derive(&k, i, b"message")
        }
    }
    impl ConstantInputKeyRatchet for MsgKdf {
        const INPUT: &'static [u8] = b"next";
    }
    pub struct Enc;
    impl Enc {
        fn xor(key: &[u8], m: &[u8]) -> Vec<u8> {
        pause();
            let pad = hkdf_derive_key::<SHA1Hash, ()>(&(), key, b"pad", m.len() + 1, b"");
            let pad: &[u8] = pad.deref();
            m.iter().zip(pad.iter()).map(|(a, b)| a ^ b).collect()
        }
    }
    impl SymmetricalEncryptionScheme for Enc {
        type Key = Vec<u8>;
        fn generate_key<R: RngCore + CryptoRng>(_: &mut R) -> Vec<u8> {
            unreachable!()
        }
        fn encrypt_message(key: &Vec<u8>, m: &[u8]) -> Vec<u8> {
            Self::xor(key, m)
        }
        fn decrypt_message(key: &Vec<u8>, c: &[u8]) -> Vec<u8> {
            Self::xor(key, c)
        }
    }
    pub type Proto<S> = DoubleRatchetProtocol<F, Enc, RootKdf, MsgKdf, F, F, F, Vec<u8>, Vec<u8>, Vec<u8>, S>;
    pub fn generator() -> F {
        F::from(num::BigUint::from(3u32))
    }
    pub fn root() -> Vec<u8> {
        b"the root key agreed before".to_vec()
    }
    pub fn unknown() -> F {
        F::from(num::BigUint::from(123456789u32))
    }
    pub fn name(_: &F) -> String {
        "?".into()
    }
    type Public = F;
    driver!();
}

#[derive(Clone, Debug)]
pub enum Op {
    Send(usize),
    Burst(usize, usize),
    Deliver(usize, usize),
    Dup(usize, usize),
    Forge(usize, String, String, usize, usize),
    Flush,
}
/// ev: the fields of the event besides obs and twin;  obs: what is compared between twins
pub struct Event {
    head: String,
    obs: String,
    bad: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scenario = std::fs::read_to_string(&args[1]).expect("scenario");
    let t = Trace::create(&args[2], 100);
    let mut ops: Vec<Op> = vec![];
    let (mut mode, mut seed) = (String::new(), 0u64);
    let mut group: Option<Vec<(u64, Vec<Op>)>> = None;
    let party = |s: &str| if s == "A" { 0 } else { 1 };
    for line in scenario.lines() {
        let a: Vec<&str> = line.split_whitespace().collect();
        if a.is_empty() {
            continue;
        }
        let num = |i: usize| a[i].parse::<usize>().unwrap();
        match a[0] {
            "run" => {
                mode = a[1].into();
                seed = a[2].parse().unwrap();
                ops.clear();
            }
            "send" => ops.push(Op::Send(party(a[1]))),
            "burst" => ops.push(Op::Burst(party(a[1]), num(2))),
            "deliver" => ops.push(Op::Deliver(party(a[1]), num(2))),
            "dup" => ops.push(Op::Dup(party(a[1]), num(2))),
            "forge" => ops.push(Op::Forge(party(a[1]), a[2].into(), a[3].into(), num(4), num(5))),
            "flush" => ops.push(Op::Flush),
            // together turns|threads ORDER ... apart: the runs in between are sessions side by side,
            // and what is observed of each is compared with what it does alone
            "together" => group = Some(vec![]),
            "end" if group.is_some() => group.as_mut().unwrap().push((seed, ops.clone())),
            "apart" => {
                let runs = group.take().unwrap();
                let (threads, order) = (a[1] == "threads", num(2) as u64);
                let both = catch(|| if mode == "sym" { sym::together(&runs, threads, order) } else { real::together(&runs, threads, order) });
                match both {
                    Err(why) => t.line(&format!("{{\"ev\":\"panic\",\"why\":\"{}\"}}", esc(&why))),
                    Ok(sessions) => for ((seed, ops), events) in runs.iter().zip(sessions) {
                        let alone = catch(|| if mode == "sym" {
                            let mut r = sym::Run::new(*seed); r.play(ops, true); r.events
                        } else {
                            let mut r = real::Run::new(*seed); r.play(ops, true); r.events
                        }).unwrap_or_default();
                        for (i, e) in events.iter().enumerate() {
                            let o = alone.get(i).map_or("(nothing)", |x| x.obs.as_str());
                            t.line(&format!("{{{},\"obs\":\"{}\",\"twin\":\"{}\"}}", e.head, e.obs, o));
                        }
                    },
                }
            }
            "end" => {
                let twin = ops.iter().any(|o| matches!(o, Op::Dup(..) | Op::Forge(..)));
                let go = |bad: bool| -> Result<Vec<Event>, String> {
                    if mode == "sym" {
                        catch(|| { let mut r = sym::Run::new(seed); r.play(&ops, bad); r.events })
                    } else {
                        catch(|| { let mut r = real::Run::new(seed); r.play(&ops, bad); r.events })
                    }
                };
                match go(true) {
                    Err(why) => t.line(&format!("{{\"ev\":\"panic\",\"why\":\"{}\"}}", esc(&why))),
                    Ok(events) => {
                        let other = if twin { go(false).ok() } else { None };
                        let mut it = other.iter().flatten();
                        for e in &events {
                            if twin && !e.bad {
                                let o = it.next().map_or("(nothing)", |x| x.obs.as_str());
                                t.line(&format!("{{{},\"obs\":\"{}\",\"twin\":\"{}\"}}", e.head, e.obs, o));
                            } else {
                                t.line(&format!("{{{}}}", e.head));
                            }
                        }
                    }
                }
            }
            x => panic!("unknown command {}", x),
        }
    }
    t.flush();
}
