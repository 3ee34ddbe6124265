// Executes scenarios of field and public-key operations and records what the code does.
#![recursion_limit = "256"]
#[path = "../../common/util.rs"]
mod util;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::rsa::{RSACryptoSystem, RSAPrivateKey, RSAPublicKey};
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{BigUint, Num, Zero};
use rand::{rngs::StdRng, SeedableRng};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use util::*;

macro_rules! custom {
    ($($name:ident($prime:literal, $radix:literal)),*) => {
        prime_fields!($(pub $name($prime, $radix)),*);
        const CUSTOM: &[(&str, &str, u32)] = &[$((stringify!($name), $prime, $radix)),*];
    };
}
custom!(
    P2("10", 2), P5("12", 3), P11("11", 10), P13("d", 16), P17("H", 36), P19("201", 3), P23("27", 8), P29("29", 10),
    P101("101", 10), P257("101", 16), P65537("10001", 16), P2p32m5("4294967291", 10),
    P2p64m59("18446744073709551557", 10), P2p64p13("1000000000000000d", 16),
    P2p255m19("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16),
    P36("zzt", 36)
);

fn limbs(n: &BigUint) -> String {
    let bytes = n.to_bytes_le();
    let (mut acc, mut bits, mut v) = (0u32, 0, vec![]);
    for b in bytes {
        acc |= (b as u32) << bits;
        bits += 8;
        if bits >= 10 {
            v.push(acc & 1023);
            acc >>= 10;
            bits -= 10;
        }
    }
    if acc > 0 {
        v.push(acc);
    }
    while v.last() == Some(&0) {
        v.pop();
    }
    jlist(&v, |x| x.to_string())
}

fn big(s: &str) -> BigUint {
    BigUint::from_str_radix(s, 16).expect("hex number")
}

fn digits(s: &str) -> String {
    jlist(&s.chars().map(|c| c.to_digit(36).unwrap_or(36)).collect::<Vec<_>>(), |x| x.to_string())
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn rng(seed: u64) -> StdRng {
    let mut m = Mix(seed);
    let mut s = [0u8; 32];
    for c in s.chunks_mut(8) {
        let w = m.next();
        for (i, b) in c.iter_mut().enumerate() {
            *b = (w >> (8 * i)) as u8;
        }
    }
    StdRng::from_seed(s)
}

fn opt<F: PrimeField>(x: Option<F>) -> String {
    match x {
        Some(x) => format!("[{}]", limbs(&x.as_uint())),
        None => "[]".into(),
    }
}

struct Run<'a> {
    t: &'a Trace,
    name: String,
}

fn block<F: PrimeField + Hash>(r: &Run, lines: &[Vec<String>]) {
    let t = r.t;
    let u = |x: &F| limbs(&x.as_uint());
    let start = catch(|| (u(&F::field_prime()), F::from(BigUint::from(0u32))));
    let (prime, zero) = match start {
        Ok(x) => x,
        Err(e) => return t.line(&format!("{{\"ev\":\"panic\",\"cmd\":\"field {}\",\"why\":\"{}\"}}", r.name, esc(&e))),
    };
    match CUSTOM.iter().find(|c| c.0 == r.name) {
        Some(c) => t.line(&format!("{{\"ev\":\"field\",\"name\":\"{}\",\"digits\":{},\"radix\":{},\"prime\":{}}}", c.0, digits(c.1), c.2, prime)),
        None => t.line(&format!("{{\"ev\":\"field\",\"name\":\"{}\",\"prime\":{}}}", r.name, prime)),
    }
    let el = |s: &str| if s == "P" { F::field_prime() } else { F::from(big(s)) };
    let mut reg: Vec<F> = vec![zero; 8];
    for w in lines {
        t.tick();
        let w: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
        // computed inside catch: a panic of the code is an event that nothing explains
        let mut next: Option<(usize, F)> = None;
        let res = catch(|| -> String {
            let two = |op: &str, a: &F, b: &F, out: String| format!("\"op\":\"{}\",\"a\":{},\"b\":{},\"out\":{}", op, u(a), u(b), out);
            match w[0] {
                "prime" => format!("\"ev\":\"prime\",\"name\":\"{}\",\"k\":{}", r.name, w[1]),
                "add" => { let (a, b) = (el(w[1]), el(w[2])); two("add", &a, &b, u(&(a.clone() + b.clone()))) }
                "sub" => { let (a, b) = (el(w[1]), el(w[2])); two("sub", &a, &b, u(&(a.clone() - b.clone()))) }
                "mul" => { let (a, b) = (el(w[1]), el(w[2])); two("mul", &a, &b, u(&(a.clone() * b.clone()))) }
                "pow" => { let (a, b) = (el(w[1]), el(w[2])); two("pow", &a, &b, u(&a.pow(&b))) }
                "sum" | "prod" => {
                    let xs: Vec<F> = w[1..].iter().map(|s| el(s)).collect();
                    let out: F = if w[0] == "sum" { xs.iter().cloned().sum() } else { xs.iter().cloned().product() };
                    format!("\"op\":\"{}\",\"xs\":{},\"out\":{}", w[0], jlist(&xs, u), u(&out))
                }
                "inv" => { let a = el(w[1]); format!("\"op\":\"inv\",\"a\":{},\"out\":{}", u(&a), u(&a.inverse())) }
                "egcd" => {
                    let (a, b) = (el(w[1]), el(w[2]));
                    let (d, s, c) = F::extended_greatest_common_divisor(&a, &b);
                    format!("\"op\":\"egcd\",\"a\":{},\"b\":{},\"d\":{},\"s\":{},\"t\":{}", u(&a), u(&b), u(&d), u(&s), u(&c))
                }
                "powmod" => {
                    let (a, b, m) = (el(w[1]), el(w[2]), el(w[3]));
                    format!("\"op\":\"powmod\",\"a\":{},\"b\":{},\"m\":{},\"out\":{}", u(&a), u(&b), u(&m), u(&a.modpow(&b, &m)))
                }
                "eq" => {
                    let (a, b) = (el(w[1]), el(w[2]));
                    format!("\"op\":\"eq\",\"a\":{},\"b\":{},\"eq\":{},\"hash\":{}", u(&a), u(&b), a == b, hash(&a) == hash(&b))
                }
                "int" => {
                    let v: i128 = w[2].parse().unwrap();
                    let out = match w[1] {
                        "i8" => F::from_i8(v as i8),
                        "i16" => F::from_i16(v as i16),
                        "i32" => F::from_i32(v as i32),
                        "i64" => F::from_i64(v as i64),
                        "isize" => F::from_isize(v as isize),
                        "u8" => F::from_u8(v as u8),
                        "u16" => F::from_u16(v as u16),
                        "u32" => F::from_u32(v as u32),
                        "u64" => F::from_u64(v as u64),
                        "usize" => F::from_usize(v as usize),
                        "i128" => F::from_i128(v),
                        "u128" => F::from_u128(v as u128),
                        x => panic!("scenario: {}", x),
                    };
                    format!("\"op\":\"int\",\"type\":\"{}\",\"neg\":{},\"mag\":{},\"out\":{}", w[1], v < 0,
                        limbs(&BigUint::from_str_radix(&v.to_string().replace('-', ""), 10).unwrap()), opt(out))
                }
                "big" => { let a = big(w[1]); let o: F = a.clone().into(); format!("\"op\":\"big\",\"a\":{},\"out\":{}", limbs(&a), u(&o)) }
                "str" => {
                    let radix: u32 = w[1].parse().unwrap();
                    format!("\"op\":\"str\",\"radix\":{},\"digits\":{},\"text\":\"{}\",\"out\":{}", radix, digits(w[2]), w[2], opt(F::from_str_radix(w[2], radix).ok()))
                }
                // a text given by its bytes
                "text" => {
                    let radix: u32 = w[1].parse().unwrap();
                    let s = String::from_utf8(unhex(w[2])).expect("utf8");
                    format!("\"op\":\"str\",\"radix\":{},\"digits\":{},\"text\":\"\",\"out\":{}", radix, digits(&s), opt(F::from_str_radix(&s, radix).ok()))
                }
                "frombytes" => {
                    let b = unhex(w[2]);
                    let o = if w[1] == "le" { F::from_bytes_le(&b) } else { F::from_bytes_be(&b) };
                    format!("\"op\":\"frombytes\",\"order\":\"{}\",\"bytes\":{},\"out\":{}", w[1], jb(&b), opt(o))
                }
                "tobytes" => {
                    let a = el(w[1]);
                    let (le, be) = (a.as_bytes_le(), a.as_bytes_be());
                    format!("\"op\":\"tobytes\",\"a\":{},\"le\":{},\"be\":{},\"backle\":{},\"backbe\":{}", u(&a), jb(&le), jb(&be), opt(F::from_bytes_le(&le)), opt(F::from_bytes_be(&be)))
                }
                "consts" => {
                    let (z, o) = (F::zero(), F::one());
                    format!("\"op\":\"consts\",\"zero\":{},\"one\":{},\"iszero\":[{},{}],\"isone\":[{},{}]", u(&z), u(&o), z.is_zero(), o.is_zero(), z.is_one(), o.is_one())
                }
                "dh" => {
                    let (g, a, b) = (el(w[1]), el(w[2]), el(w[3]));
                    // private keys are chosen here, public keys are what anyone derives from them
                    let pa = F::generate_shared_secret(&a, &g);
                    let pb = F::generate_shared_secret(&b, &g);
                    let sa = F::generate_shared_secret(&a, &pb);
                    let sb = F::generate_shared_secret(&b, &pa);
                    format!("\"op\":\"dh\",\"g\":{},\"a\":{},\"b\":{},\"pa\":{},\"pb\":{},\"sa\":{},\"sb\":{}", u(&g), u(&a), u(&b), u(&pa), u(&pb), u(&sa), u(&sb))
                }
                // dhmulti g keys paths: the parties of each path add their keys in turn
                "dhmulti" => {
                    let g = el(w[1]);
                    let keys: Vec<F> = w[2].split(',').map(|s| el(s)).collect();
                    let outs: Vec<F> = w[3].split('/').map(|path| {
                        path.split(',').fold(g.clone(), |x, i| F::generate_shared_secret(&keys[i.parse::<usize>().unwrap()], &x))
                    }).collect();
                    format!("\"op\":\"dhmulti\",\"g\":{},\"keys\":{},\"outs\":{}", u(&g), jlist(&keys, u), jlist(&outs, u))
                }
                "dhkeys" => {
                    // the exchange with generated key pairs
                    let g = el(w[2]);
                    let mut rng = rng(w[1].parse().unwrap());
                    let (a, pa) = F::generate_asymmetrical_key_pair(&mut rng, &g);
                    let (b, pb) = F::generate_asymmetrical_key_pair(&mut rng, &g);
                    let sa = F::generate_shared_secret(&a, &pb);
                    let sb = F::generate_shared_secret(&b, &pa);
                    format!("\"op\":\"dh\",\"g\":{},\"a\":{},\"b\":{},\"pa\":{},\"pb\":{},\"sa\":{},\"sb\":{}", u(&g), u(&a), u(&b), u(&pa), u(&pb), u(&sa), u(&sb))
                }
                "keypair" => {
                    let g = el(w[2]);
                    let (a, pa) = F::generate_asymmetrical_key_pair(&mut rng(w[1].parse().unwrap()), &g);
                    format!("\"op\":\"keypair\",\"g\":{},\"private\":{},\"public\":{}", u(&g), u(&a), u(&pa))
                }
                "member" => format!("\"op\":\"member\",\"out\":{}", u(&F::generate_random_member(&mut rng(w[1].parse().unwrap())))),
                // surveys: kind source seed N width [generator]
                "survey" | "pairs" | "draws" => {
                    let (seed, n, width) = (w[2].parse::<u64>().unwrap(), w[3].parse::<usize>().unwrap(), w[4]);
                    let mut rng = rng(seed);
                    let mut k = 0u64;
                    let mut draw = || {
                        if k % 1000 == 0 { t.tick(); }
                        k += 1;
                        match w[1] {
                            "member" => F::generate_random_member(&mut rng),
                            "key" => F::generate_asymmetrical_key_pair(&mut rng, &F::from(BigUint::from(2 + k % 3))).0,
                            // the first draws of many sources
                            "firstmember" => F::generate_random_member(&mut util_rng(seed, k)),
                            "firstkey" => F::generate_asymmetrical_key_pair(&mut util_rng(seed, k), &F::from(BigUint::from(2u32))).0,
                            x => panic!("scenario: {}", x),
                        }
                    };
                    if w[0] == "draws" {
                        let xs: Vec<F> = (0..n).map(|_| draw()).collect();
                        format!("\"op\":\"draws\",\"source\":\"{}\",\"distinct\":{},\"width\":{},\"xs\":{}", w[1], w[5], width, jlist(&xs, u))
                    } else {
                        let p = num::ToPrimitive::to_usize(&F::field_prime().as_uint()).unwrap();
                        let to = |x: F| num::ToPrimitive::to_usize(&x.as_uint()).unwrap();
                        let mut counts = vec![0u32; if w[0] == "pairs" { p * p } else { p }];
                        for _ in 0..n {
                            let i = if w[0] == "pairs" { let a = to(draw()); a * p + to(draw()) } else { to(draw()) };
                            if i >= counts.len() { counts.resize(i + 1, 0); }
                            counts[i] += 1;
                        }
                        format!("\"op\":\"{}\",\"source\":\"{}\",\"N\":{},\"width\":{},\"counts\":{}", w[0], w[1], n, width, jlist(&counts, |x| x.to_string()))
                    }
                }
                // dependence source seed n least
                "dependence" => {
                    let (seed, n) = (w[2].parse::<u64>().unwrap(), w[3].parse::<u64>().unwrap());
                    let draw = |s: u64| match w[1] {
                        "member" => F::generate_random_member(&mut util_rng(seed, s)),
                        _ => F::generate_asymmetrical_key_pair(&mut util_rng(seed, s), &F::from(BigUint::from(2u32))).0,
                    };
                    let a: Vec<F> = (0..n).map(&draw).collect();
                    let b: Vec<F> = (0..n).map(&draw).collect();
                    format!("\"op\":\"dependence\",\"same\":{},\"different\":{},\"least\":{}", a == b, (1..a.len()).filter(|i| a[*i] != a[*i - 1]).count(), w[4])
                }
                // rsa enc|dec n e msg
                "rsa" => {
                    let (n, e, m) = (el(w[2]), el(w[3]), unhex(w[4]));
                    let (nn, ee) = (u(&n), u(&e));
                    let o = if w[1] == "enc" {
                        let k = RSAPublicKey { e, n };
                        catch(|| RSACryptoSystem::<F>::encrypt_message(&k, &m))
                    } else {
                        let k = RSAPrivateKey { d: e, n };
                        catch(|| RSACryptoSystem::<F>::decrypt_message(&k, &m))
                    };
                    format!("\"op\":\"rsa\",\"dir\":\"{}\",\"n\":{},\"e\":{},\"msg\":{},\"out\":{}", w[1], nn, ee, jb(&m),
                        match o { Ok(o) => format!("[{}]", jb(&o)), Err(_) => "[]".into() })
                }
                // rsapair n e d msg
                "rsapair" => {
                    let (n, e, d, m) = (el(w[1]), el(w[2]), el(w[3]), unhex(w[4]));
                    let (nn, ee) = (u(&n), u(&e));
                    let public = RSAPublicKey { e, n: n.clone() };
                    let private = RSAPrivateKey { d, n };
                    let cipher = RSACryptoSystem::<F>::encrypt_message(&public, &m);
                    let back = RSACryptoSystem::<F>::decrypt_message(&private, &cipher);
                    format!("\"op\":\"rsapair\",\"n\":{},\"e\":{},\"msg\":{},\"cipher\":{},\"back\":{}", nn, ee, jb(&m), jb(&cipher), jb(&back))
                }
                // programs: step f d a b v
                "step" => {
                    let d: usize = w[2].parse().unwrap();
                    let (ia, ib): (usize, usize) = (w[3].parse().unwrap(), w[4].parse().unwrap());
                    let (a, b) = (reg[ia].clone(), reg[ib].clone());
                    let (mut neg, mut v) = (false, BigUint::zero());
                    let out: F = match w[1] {
                        "load" => {
                            v = big(w[6]);
                            match w[5] {
                                "str10" => F::from_str_radix(&v.to_str_radix(10), 10).ok().unwrap(),
                                "str36" => F::from_str_radix(&v.to_str_radix(36), 36).ok().unwrap(),
                                "le" => F::from_bytes_le(&v.to_bytes_le()).unwrap(),
                                "be" => F::from_bytes_be(&v.to_bytes_be()).unwrap(),
                                _ => v.clone().into(),
                            }
                        }
                        "loadint" => {
                            let i: i64 = w[5].parse().unwrap();
                            neg = i < 0;
                            v = BigUint::from_str_radix(&i.to_string().replace('-', ""), 10).unwrap();
                            F::from_i64(i).unwrap()
                        }
                        "add" => a + b,
                        "sub" => a - b,
                        "mul" => a * b,
                        "pow" => a.pow(&b),
                        "inv" => a.inverse(),
                        "sum" => vec![a.clone(), b, a].into_iter().sum(),
                        "prod" => vec![a, b.clone(), b].into_iter().product(),
                        "prime" => F::field_prime().as_uint().into(),
                        "one" => F::one(),
                        "zero" => F::zero(),
                        "random" => F::generate_random_member(&mut rng(w[5].parse().unwrap())),
                        x => panic!("scenario: {}", x),
                    };
                    let held = |i: usize| if i == d { &out } else { &reg[i] };
                    let same: Vec<usize> = (0..8).filter(|i| *held(*i) == out).collect();
                    let hashes: Vec<usize> = (0..8).filter(|i| hash(held(*i)) == hash(&out)).collect();
                    let s = format!("\"ev\":\"step\",\"f\":\"{}\",\"d\":{},\"a\":{},\"b\":{},\"v\":{},\"neg\":{},\"out\":{},\"same\":{},\"hashes\":{}",
                        w[1], d, ia, ib, limbs(&v), neg, u(&out), jlist(&same, |x| x.to_string()), jlist(&hashes, |x| x.to_string()));
                    next = Some((d, out));
                    s
                }
                x => panic!("scenario: {}", x),
            }
        });
        match res {
            Ok(s) if s.starts_with("\"ev\"") => t.line(&format!("{{{}}}", s)),
            Ok(s) => t.line(&format!("{{\"ev\":\"call\",{}}}", s)),
            Err(e) => {
                assert!(!e.starts_with("scenario"), "{}", e);
                t.line(&format!("{{\"ev\":\"panic\",\"cmd\":\"{}\",\"why\":\"{}\"}}", esc(&w.join(" ")), esc(&e)));
            }
        }
        if let Some((d, x)) = next {
            reg[d] = x;
        }
    }
}

fn util_rng(seed: u64, i: u64) -> StdRng {
    rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i))
}

macro_rules! dispatch {
    ($r:expr, $l:expr, $($name:ident),*) => {
        match $r.name.as_str() {
            $(stringify!($name) => block::<$name>($r, $l),)*
            x => panic!("no field {}", x),
        }
    };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scenario = std::fs::read_to_string(&args[1]).expect("scenario");
    let t = Trace::create(&args[2], 100);
    let mut blocks: Vec<(String, Vec<Vec<String>>)> = vec![];
    for l in scenario.lines() {
        let w: Vec<String> = l.split_whitespace().map(|x| x.to_string()).collect();
        if w.is_empty() { continue; }
        if w[0] == "field" { blocks.push((w[1].clone(), vec![])); } else { blocks.last_mut().unwrap().1.push(w); }
    }
    for (name, lines) in blocks {
        let r = Run { t: &t, name };
        dispatch!(&r, &lines, Mersenne2, Mersenne3, Mersenne5, Mersenne13, Mersenne17, Mersenne19, Mersenne31, Mersenne61, Mersenne89,
            Mersenne107, Mersenne127, IetfGroup1, IetfGroup2, IetfGroup3,
            P2, P5, P11, P13, P17, P19, P23, P29, P101, P257, P65537, P2p32m5, P2p64m59, P2p64p13, P2p255m19, P36);
    }
    t.flush();
}
