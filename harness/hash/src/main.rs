//! Drives jester_hashes through a scenario and records every call with its arguments and result.
//! usage: h_hash SCENARIO TRACE
#[path = "../../common/util.rs"]
mod util;
#[cfg(jester_verif_deep)]
mod deep;
use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{hmac::hmac, kdf::hkdf_derive_key, BlockHashFunction, HashFunction, HashValue};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Barrier};
use util::*;

#[derive(Clone)]
struct Fun {
    alg: String,
    key: Vec<u8>,
    outlen: usize,
}
impl Fun {
    fn json(&self) -> String {
        format!("\"alg\":\"{}\",\"key\":{},\"outlen\":{}", self.alg, jb(&self.key), self.outlen)
    }
}

enum Stream {
    Md5(<MD5Hash as HashFunction>::HashState),
    Sha1(<SHA1Hash as HashFunction>::HashState),
    B2b(<Blake2b as HashFunction>::HashState, Blake2bContext),
    B2s(<Blake2s as HashFunction>::HashState, Blake2sContext),
}

macro_rules! with_fun {
    ($f:expr, $h:ident, $ctx:ident, $body:expr) => {
        match $f.alg.as_str() {
            "md5" => {
                type $h = MD5Hash;
                let $ctx = ();
                $body
            }
            "sha1" => {
                type $h = SHA1Hash;
                let $ctx = ();
                $body
            }
            "blake2b" => {
                type $h = Blake2b;
                let $ctx = Blake2bContext { output_len: $f.outlen, key: $f.key.clone() };
                $body
            }
            "blake2s" => {
                type $h = Blake2s;
                let $ctx = Blake2sContext { output_len: $f.outlen, key: $f.key.clone() };
                $body
            }
            a => panic!("unknown algorithm {}", a),
        }
    };
}

fn digest(f: &Fun, msg: &[u8]) -> Vec<u8> {
    with_fun!(f, H, ctx, H::digest_message(&ctx, msg).raw())
}
fn digest_pieces(f: &Fun, pieces: &mut dyn Iterator<Item = Vec<u8>>) -> Vec<u8> {
    with_fun!(f, H, ctx, {
        let mut st = H::init_hash(&ctx);
        for p in pieces {
            H::update_hash(&mut st, &ctx, &p);
        }
        H::finish_hash(&mut st, &ctx).raw()
    })
}
fn open(f: &Fun) -> Stream {
    match f.alg.as_str() {
        "md5" => Stream::Md5(MD5Hash::init_hash(&())),
        "sha1" => Stream::Sha1(SHA1Hash::init_hash(&())),
        "blake2b" => {
            let c = Blake2bContext { output_len: f.outlen, key: f.key.clone() };
            Stream::B2b(Blake2b::init_hash(&c), c)
        }
        "blake2s" => {
            let c = Blake2sContext { output_len: f.outlen, key: f.key.clone() };
            Stream::B2s(Blake2s::init_hash(&c), c)
        }
        a => panic!("unknown algorithm {}", a),
    }
}
fn update(s: &mut Stream, d: &[u8]) {
    match s {
        Stream::Md5(h) => MD5Hash::update_hash(h, &(), d),
        Stream::Sha1(h) => SHA1Hash::update_hash(h, &(), d),
        Stream::B2b(h, c) => Blake2b::update_hash(h, c, d),
        Stream::B2s(h, c) => Blake2s::update_hash(h, c, d),
    }
}
fn finish(s: &mut Stream) -> Vec<u8> {
    match s {
        Stream::Md5(h) => MD5Hash::finish_hash(h, &()).raw(),
        Stream::Sha1(h) => SHA1Hash::finish_hash(h, &()).raw(),
        Stream::B2b(h, c) => Blake2b::finish_hash(h, c).raw(),
        Stream::B2s(h, c) => Blake2s::finish_hash(h, c).raw(),
    }
}

/// "-" empty, "@seed:len" pseudo-random bytes, "=xx:len" one byte repeated, "a+b" one after the
/// other, otherwise hex
fn bytes(s: &str) -> Vec<u8> {
    if s.contains('+') {
        s.split('+').flat_map(bytes).collect()
    } else if let Some(r) = s.strip_prefix('@') {
        let mut it = r.split(':');
        let mut m = Mix(it.next().unwrap().parse().unwrap());
        let n: usize = it.next().unwrap().parse().unwrap();
        (0..n).map(|_| (m.next() >> 24) as u8).collect()
    } else if let Some(r) = s.strip_prefix('=') {
        let mut it = r.split(':');
        let b = u8::from_str_radix(it.next().unwrap(), 16).unwrap();
        vec![b; it.next().unwrap().parse().unwrap()]
    } else {
        unhex(s)
    }
}
fn fun(a: &[&str]) -> Fun {
    Fun { alg: a[0].into(), key: bytes(a[1]), outlen: a[2].parse().unwrap() }
}

fn md_pad(alg: &str, len: u64) -> Vec<u8> {
    let mut p = vec![0x80u8];
    while (len + p.len() as u64) % 64 != 56 {
        p.push(0);
    }
    let bits = len * 8;
    if alg == "md5" {
        p.extend_from_slice(&bits.to_le_bytes());
    } else {
        p.extend_from_slice(&bits.to_be_bytes());
    }
    p
}

/// `len` bytes in pieces of `chunk` bytes, made on the fly
struct Pattern {
    left: u64,
    chunk: u64,
    piece: Vec<u8>,
}
impl Iterator for Pattern {
    type Item = Vec<u8>;
    fn next(&mut self) -> Option<Vec<u8>> {
        if self.left == 0 {
            return None;
        }
        let n = self.left.min(self.chunk);
        self.left -= n;
        Some(self.piece[..n as usize].to_vec())
    }
}
fn pattern(len: u64, chunk: u64) -> Pattern {
    Pattern { left: len, chunk, piece: vec![0x61; chunk as usize] }
}

/// Carries out one line of a scenario; the event it makes, if any.
fn command(line: &str, streams: &mut HashMap<String, (Fun, Stream)>, t: &Trace) -> Option<String> {
        let a: Vec<&str> = line.split_whitespace().collect();
        let r: Result<Option<String>, String> = match a[0] {
            // digest ALG KEY OUTLEN MSG
            "digest" => {
                let (f, m) = (fun(&a[1..]), bytes(a[4]));
                catch(|| {
                    Some(format!("{{\"ev\":\"digest\",{},\"msg\":{},\"out\":{}}}", f.json(), jb(&m), jb(&digest(&f, &m))))
                })
            }
            // hmac ALG KEY OUTLEN HKEY MSG
            "hmac" => {
                let (f, k, m) = (fun(&a[1..]), bytes(a[4]), bytes(a[5]));
                catch(|| {
                    let out = with_fun!(f, H, ctx, hmac::<H, _>(&ctx, &k, &m));
                    Some(format!("{{\"ev\":\"hmac\",{},\"hkey\":{},\"msg\":{},\"out\":{}}}", f.json(), jb(&k), jb(&m), jb(&out)))
                })
            }
            // hkdf ALG KEY OUTLEN SALT IKM INFO LEN
            "hkdf" => {
                let (f, s, k, i) = (fun(&a[1..]), bytes(a[4]), bytes(a[5]), bytes(a[6]));
                let n: usize = a[7].parse().unwrap();
                catch(|| {
                    let out = with_fun!(f, H, ctx, hkdf_derive_key::<H, _>(&ctx, &s, &k, n, &i));
                    Some(format!(
                        "{{\"ev\":\"hkdf\",{},\"salt\":{},\"ikm\":{},\"info\":{},\"len\":{},\"out\":{}}}",
                        f.json(), jb(&s), jb(&k), jb(&i), n, jb(&out)
                    ))
                })
            }
            // sizes ALG KEY OUTLEN
            "sizes" => {
                let f = fun(&a[1..]);
                catch(|| {
                    let (b, o) = with_fun!(f, H, ctx, (H::block_size(&ctx), H::output_size(&ctx)));
                    Some(format!("{{\"ev\":\"sizes\",{},\"block\":{},\"output\":{}}}", f.json(), b, o))
                })
            }
            // open ID ALG KEY OUTLEN / update ID DATA / finish ID
            "open" => {
                let f = fun(&a[2..]);
                catch(|| open(&f)).map(|s| {
                    let e = format!("{{\"ev\":\"open\",\"id\":{},{}}}", a[1], f.json());
                    streams.insert(a[1].into(), (f, s));
                    Some(e)
                })
            }
            "update" => {
                let d = bytes(a[2]);
                match streams.get_mut(a[1]) {
                    Some((_, s)) => catch(|| update(s, &d))
                        .map(|_| Some(format!("{{\"ev\":\"update\",\"id\":{},\"data\":{}}}", a[1], jb(&d)))),
                    None => Ok(None),
                }
            }
            "finish" => match streams.remove(a[1]) {
                Some((_, mut s)) => catch(|| finish(&mut s))
                    .map(|o| Some(format!("{{\"ev\":\"finish\",\"id\":{},\"out\":{}}}", a[1], jb(&o)))),
                None => Ok(None),
            },
            // pieces ALG KEY OUTLEN MSG CUTS(comma separated lengths): one-shot against streamed
            "pieces" => {
                let (f, m) = (fun(&a[1..]), bytes(a[4]));
                let mut rest = m.clone();
                let mut ps = vec![];
                for c in a[5].split(',') {
                    let n = c.parse::<usize>().unwrap().min(rest.len());
                    ps.push(rest.drain(..n).collect::<Vec<_>>());
                }
                ps.push(rest);
                catch(|| {
                    let (x, y) = (digest(&f, &m), digest_pieces(&f, &mut ps.into_iter()));
                    Some(format!("{{\"ev\":\"agree\",{},\"len\":{},\"cuts\":\"{}\",\"a\":{},\"b\":{}}}", f.json(), m.len(), a[5], jb(&x), jb(&y)))
                })
            }
            // extend ALG LEN CHUNK TAIL: the digest of a long message M is a chaining value from
            // which the digest of M || pad(M) || TAIL can be finished
            "extend" => {
                let f = Fun { alg: a[1].into(), key: vec![], outlen: 0 };
                let (len, chunk): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
                let tail = bytes(a[4]);
                let pad = md_pad(a[1], len);
                catch(|| {
                    let h = digest_pieces(&f, &mut pattern(len, chunk));
                    t.tick();
                    let out = digest_pieces(
                        &f,
                        &mut pattern(len, chunk).chain(vec![pad.clone(), tail.clone()].into_iter()),
                    );
                    Some(format!(
                        "{{\"ev\":\"resume\",{},\"h\":{},\"total\":{},\"tail\":{},\"out\":{}}}",
                        f.json(), jb(&h), limbs16(len as u128 + pad.len() as u128, 4), jb(&tail), jb(&out)
                    ))
                })
            }
            // longagree ALG KEY OUTLEN LEN CHUNK1 CHUNK2: one long message in two partitions
            "longagree" => {
                let f = fun(&a[1..]);
                let v: Vec<u64> = a[4..7].iter().map(|x| x.parse().unwrap()).collect();
                catch(|| {
                    let x = digest_pieces(&f, &mut pattern(v[0], v[1]));
                    t.tick();
                    let y = digest_pieces(&f, &mut pattern(v[0], v[2]));
                    Some(format!("{{\"ev\":\"agree\",{},\"len\":\"{}\",\"cuts\":\"{}/{}\",\"a\":{},\"b\":{}}}", f.json(), v[0], v[1], v[2], jb(&x), jb(&y)))
                })
            }
            #[cfg(jester_verif_deep)]
            "deep" => {
                let f = fun(&a[1..]);
                catch(|| deep::deep(&f, &a[4..]))
            }
            #[cfg(jester_verif_deep)]
            "deepreal" => {
                let f = fun(&a[1..]);
                catch(|| deep::real(&t, &f, &a[4..]))
            }
            #[cfg(not(jester_verif_deep))]
            "deep" | "deepreal" => Ok(Some("{\"ev\":\"note\",\"what\":\"deep hook not available\"}".into())),
            x => panic!("unknown command {}", x),
        };
        match r {
            Ok(e) => e,
            Err(why) => Some(format!("{{\"ev\":\"panic\",\"op\":\"{}\",\"why\":\"{}\"}}", esc(line), esc(&why))),
        }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scenario = std::fs::read_to_string(&args[1]).expect("scenario");
    let t = Arc::new(Trace::create(&args[2], 120));
    let mut streams: HashMap<String, (Fun, Stream)> = HashMap::new();
    let mut par: Option<BTreeMap<String, Vec<String>>> = None;
    for line in scenario.lines().filter(|l| !l.trim().is_empty()) {
        if line == "par" {
            par = Some(BTreeMap::new());
        } else if line == "endpar" {
            // every list of commands on a thread of its own, with streams of its own
            let lists = par.take().unwrap();
            let gate = Arc::new(Barrier::new(lists.len()));
            let hs: Vec<_> = lists.into_iter().map(|(_, ls)| {
                let (t, gate) = (t.clone(), gate.clone());
                std::thread::spawn(move || {
                    let mut streams = HashMap::new();
                    gate.wait();
                    ls.iter().filter_map(|l| { std::thread::yield_now(); command(l, &mut streams, &t) }).collect::<Vec<_>>()
                })
            }).collect();
            for h in hs { for e in h.join().expect("thread") { t.line(&e); } }
        } else if let Some(p) = par.as_mut() {
            let i = line.find(' ').unwrap();
            p.entry(line[..i].to_string()).or_insert_with(Vec::new).push(line[i + 1..].to_string());
        } else if let Some(e) = command(line, &mut streams, &t) {
            t.line(&e);
        }
    }
    t.flush();
}
