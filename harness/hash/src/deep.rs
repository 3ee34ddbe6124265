//! Starts hash states at arbitrary message lengths, through the hook cfg(jester_verif_deep).
use crate::util::*;
use crate::*;
use jester_hashes::blake::blake2b::Blake2bState;
use jester_hashes::blake::blake2s::Blake2sState;
use jester_hashes::md5::MD5HashState;
use jester_hashes::sha1::SHA1HashState;

fn parts(s: &Stream) -> (Vec<u8>, u128, Vec<u8>) {
    match s {
        Stream::Md5(h) => h.verif_parts(),
        Stream::Sha1(h) => h.verif_parts(),
        Stream::B2b(h, _) => h.verif_parts(),
        Stream::B2s(h, _) => h.verif_parts(),
    }
}
fn from_parts(f: &Fun, h: &[u8], n: u128) -> Stream {
    match f.alg.as_str() {
        "md5" => Stream::Md5(MD5HashState::verif_from_parts(h, n)),
        "sha1" => Stream::Sha1(SHA1HashState::verif_from_parts(h, n)),
        "blake2b" => Stream::B2b(
            Blake2bState::verif_from_parts(h, n),
            Blake2bContext { output_len: f.outlen, key: f.key.clone() },
        ),
        _ => Stream::B2s(
            Blake2sState::verif_from_parts(h, n),
            Blake2sContext { output_len: f.outlen, key: f.key.clone() },
        ),
    }
}
fn block(f: &Fun) -> usize {
    if f.alg == "blake2b" { 128 } else { 64 }
}
fn width(f: &Fun) -> usize {
    if f.alg == "blake2b" { 8 } else { 4 }
}
fn keyed(f: &Fun) -> u128 {
    if f.key.is_empty() { 0 } else { block(f) as u128 }
}

/// The hook reads private fields; this checks, on short messages, that they still mean what the
/// hook takes them for.  If not, the hook is not used.
pub fn calibrated(f: &Fun) -> bool {
    catch(|| {
        (0..6usize).all(|i| {
            let n = i * block(f) + 7 * i + 1;
            let data: Vec<u8> = (0..n).map(|x| (x * 7 + i) as u8).collect();
            let mut a = open(f);
            update(&mut a, &data);
            let (h, total, buf) = parts(&a);
            if total + buf.len() as u128 != n as u128 + keyed(f) || total % block(f) as u128 != 0 {
                return false;
            }
            if !data.ends_with(&buf) && n >= block(f) {
                return false;
            }
            let mut b = from_parts(f, &h, total);
            update(&mut b, &buf);
            let p = parts(&b);
            p == (h, total, buf) && finish(&mut a) == finish(&mut b)
        })
    })
    .unwrap_or(false)
}

fn resume(f: &Fun, h: &[u8], total: u128, tail: &[u8], out: &[u8]) -> Option<String> {
    Some(format!(
        "{{\"ev\":\"resume\",{},\"h\":{},\"total\":{},\"tail\":{},\"out\":{}}}",
        f.json(), jb(h), limbs16(total, width(f)), jb(tail), jb(out)
    ))
}
fn note(what: &str) -> Option<String> {
    Some(format!("{{\"ev\":\"note\",\"what\":\"{}\"}}", what))
}

/// deep ALG KEY OUTLEN CHAINING COMPRESSED CUTS DATA
pub fn deep(f: &Fun, a: &[&str]) -> Option<String> {
    if !calibrated(f) {
        return note("deep hook not usable");
    }
    let hl = match f.alg.as_str() { "md5" => 16, "sha1" => 20, "blake2b" => 64, _ => 32 };
    let h: Vec<u8> = bytes(&format!("{}:{}", a[0], hl));
    let total: u128 = a[1].parse().unwrap();
    let data = bytes(a[3]);
    let mut s = from_parts(f, &h, total);
    let mut rest = data.clone();
    for c in a[2].split(',') {
        let n = c.parse::<usize>().unwrap().min(rest.len());
        let piece: Vec<u8> = rest.drain(..n).collect();
        update(&mut s, &piece);
    }
    update(&mut s, &rest);
    resume(f, &h, total, &data, &finish(&mut s))
}

/// deepreal ALG KEY OUTLEN LEN CHUNK TAIL: a message that really is that long
pub fn real(t: &Trace, f: &Fun, a: &[&str]) -> Option<String> {
    if !calibrated(f) {
        return note("deep hook not usable");
    }
    let (len, chunk): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let tail = bytes(a[2]);
    let mut s = open(f);
    for p in pattern(len, chunk) {
        update(&mut s, &p);
        t.tick();
    }
    let (h, _, mut buf) = parts(&s);
    let total = len as u128 + keyed(f) - buf.len() as u128;
    update(&mut s, &tail);
    buf.extend_from_slice(&tail);
    resume(f, &h, total, &buf, &finish(&mut s))
}
