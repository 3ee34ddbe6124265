// Delegation by itself: implementations that record how they were called, called directly and through
// the forwarding implementations that the library's macro generates.
use crate::hub::Sh;
use crate::util::*;
use crate::{limbs, P2p64m59 as F};
use futures::Future;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::*;
use jester_sharing_proc::delegatable_protocol;
use std::pin::Pin;

type S = Sh<F>;
pub struct Probe(Vec<String>);
pub struct Recorder;

impl ShamirSecretSharingScheme<F> for Probe {}
impl CliqueCommunicationScheme<F, S> for Probe {
    fn reveal_shares(&mut self, _: S) -> Pin<Box<dyn Future<Output = F> + Send>> {
        unreachable!()
    }
    fn distribute_secret(&mut self, _: F) -> Pin<Box<dyn Future<Output = Vec<S>> + Send>> {
        unreachable!()
    }
}

fn show(s: &S) -> String {
    format!("({};{})", s.0, limbs(&s.1.as_uint()))
}
fn shows(s: &[S]) -> String {
    s.iter().map(show).collect::<Vec<_>>().join(" ")
}
fn number<R: RngCore>(r: &mut R) -> usize {
    (r.next_u64() >> 40) as usize
}

macro_rules! delegated {
    ($($marker:ident $delegate:ident;)*) => { $(
        impl $marker for Probe { type Marker = Delegate; }
        impl $delegate<F, S, Probe> for Probe { type Delegate = Recorder; }
    )* };
}
delegated! {
    MultiplicationSchemeMarker MultiplicationSchemeDelegate;
    UnboundedMultiplicationSchemeMarker UnboundedMultiplicationSchemeDelegate;
    InversionSchemeMarker InversionSchemeDelegate;
    UnboundedInversionSchemeMarker UnboundedInversionSchemeDelegate;
    OrFunctionSchemeMarker OrFunctionSchemeDelegate;
    UnboundedOrFunctionSchemeMarker UnboundedOrFunctionSchemeDelegate;
    ConditionalSelectionSchemeMarker ConditionalSelectionSchemeDelegate;
    RandomNumberGenerationSchemeMarker RandomNumberGenerationSchemeDelegate;
    RandomBitGenerationSchemeMarker RandomBitGenerationSchemeDelegate;
}

impl MultiplicationScheme<F, S, Probe> for Recorder {
    fn multiply<'a>(protocol: &'a mut Probe, lhs: &S, rhs: &S) -> Pin<Box<dyn Future<Output = S> + Send + 'a>> {
        protocol.0.push(format!("multiply {} {}", show(lhs), show(rhs)));
        let s = (lhs.0 * 3 + rhs.0, lhs.1.clone() - rhs.1.clone());
        Box::pin(async move { protocol.0.push("multiply ran".into()); s })
    }
}
impl UnboundedMultiplicationScheme<F, S, Probe> for Recorder {
    fn unbounded_multiply<'a>(protocol: &'a mut Probe, pairs: &[(S, S)]) -> Pin<Box<dyn Future<Output = Vec<S>> + Send + 'a>> {
        protocol.0.push(format!("unbounded_multiply {}", pairs.iter().map(|(a, b)| show(a) + &show(b)).collect::<Vec<_>>().join(" ")));
        let s = pairs.iter().map(|(a, b)| (a.0 * 3 + b.0, a.1.clone() - b.1.clone())).collect();
        Box::pin(async move { protocol.0.push("unbounded_multiply ran".into()); s })
    }
}
impl InversionScheme<F, S, Probe> for Recorder {
    fn inverse<'a, R>(rng: &'a mut R, protocol: &'a mut Probe, share: &S) -> Pin<Box<dyn Future<Output = S> + 'a>>
    where R: RngCore + CryptoRng {
        protocol.0.push(format!("inverse {}", show(share)));
        let s = share.clone();
        Box::pin(async move { protocol.0.push("inverse ran".into()); (number(rng), s.1) })
    }
}
impl UnboundedInversionScheme<F, S, Probe> for Recorder {
    fn unbounded_inverse<'a, R>(rng: &'a mut R, protocol: &'a mut Probe, shares: &[S]) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>>
    where R: RngCore + CryptoRng {
        protocol.0.push(format!("unbounded_inverse {}", shows(shares)));
        let s = shares.to_vec();
        Box::pin(async move { protocol.0.push("unbounded_inverse ran".into()); s.into_iter().map(|x| (number(rng), x.1)).collect() })
    }
}
impl OrFunctionScheme<F, S, Probe> for Recorder {
    fn shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut Probe, bits: &S) -> Pin<Box<dyn Future<Output = S> + 'a>>
    where R: RngCore + CryptoRng {
        protocol.0.push(format!("shared_or {}", show(bits)));
        let s = bits.clone();
        Box::pin(async move { protocol.0.push("shared_or ran".into()); (number(rng), s.1) })
    }
}
impl UnboundedOrFunctionScheme<F, S, Probe> for Recorder {
    fn unbounded_shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut Probe, bits: &[S]) -> Pin<Box<dyn Future<Output = S> + 'a>>
    where R: RngCore + CryptoRng {
        protocol.0.push(format!("unbounded_shared_or {}", shows(bits)));
        let s = bits[0].clone();
        Box::pin(async move { protocol.0.push("unbounded_shared_or ran".into()); (number(rng), s.1) })
    }
}
impl ConditionalSelectionScheme<F, S, Probe> for Recorder {
    fn joint_conditional_selection<'a>(protocol: &'a mut Probe, condition: &S, lhs: &S, rhs: &S) -> Pin<Box<dyn Future<Output = S> + 'a>> {
        protocol.0.push(format!("joint_conditional_selection {} {} {}", show(condition), show(lhs), show(rhs)));
        let s = (condition.0 * 9 + lhs.0 * 3 + rhs.0, lhs.1.clone());
        Box::pin(async move { protocol.0.push("joint_conditional_selection ran".into()); s })
    }
}
impl RandomNumberGenerationScheme<F, S, Probe> for Recorder {
    fn generate_random_number_sharing<R>(rng: &mut R, protocol: &mut Probe) -> Pin<Box<dyn Future<Output = S> + Send>>
    where R: RngCore + CryptoRng {
        protocol.0.push("generate_random_number_sharing".into());
        let s = (number(rng), BigUint::from(7u32).into());
        Box::pin(async move { s })
    }
}
impl RandomBitGenerationScheme<F, S, Probe> for Recorder {
    fn generate_random_bit<'a, R>(rng: &mut R, protocol: &'a mut Probe) -> Pin<Box<dyn Future<Output = S> + Send + 'a>>
    where R: RngCore + CryptoRng {
        protocol.0.push("generate_random_bit".into());
        let s = (number(rng), BigUint::from(8u32).into());
        Box::pin(async move { protocol.0.push("generate_random_bit ran".into()); s })
    }
}

// ---- schemes that the library does not have, made delegatable by the same macro -----------------
#[delegatable_protocol]
pub trait ManyArguments<T, S, P>
where
    T: Clone,
{
    fn four(a: u32, b: u32, c: u32, d: u32) -> Vec<u32>;
    fn reversed(d: u32, c: u32, b: u32, a: u32) -> Vec<u32>;
    fn mixed(z: &str, first: u32, p: &mut P, second: u32, t: T) -> (String, T);
}
#[delegatable_protocol]
pub trait Siblings<T, S, P>
where
    S: Clone,
{
    fn left<'a>(protocol: &'a mut P, x: &S, y: &S) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>>;
    fn right<'a>(protocol: &'a mut P, x: &S, y: &S) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>>;
    fn none() -> u64;
}
/// methods with a default, which a delegate may replace
#[delegatable_protocol]
pub trait Defaults<T, S, P>
where
    S: Clone,
{
    fn plain(a: u32, b: u32) -> Vec<u32>;
    fn replaced(a: u32, b: u32) -> Vec<u32> {
        vec![1000, a, b]
    }
    fn kept(a: u32, b: u32) -> Vec<u32> {
        vec![2000, b, a]
    }
}
delegated! { ManyArgumentsMarker ManyArgumentsDelegate; SiblingsMarker SiblingsDelegate; DefaultsMarker DefaultsDelegate; }
impl Defaults<F, S, Probe> for Recorder {
    fn plain(a: u32, b: u32) -> Vec<u32> {
        vec![6, a, b]
    }
    fn replaced(a: u32, b: u32) -> Vec<u32> {
        vec![7, a, b]
    }
}
impl ManyArguments<F, S, Probe> for Recorder {
    fn four(a: u32, b: u32, c: u32, d: u32) -> Vec<u32> {
        vec![4, a, b, c, d]
    }
    fn reversed(d: u32, c: u32, b: u32, a: u32) -> Vec<u32> {
        vec![5, d, c, b, a]
    }
    fn mixed(z: &str, first: u32, p: &mut Probe, second: u32, t: F) -> (String, F) {
        p.0.push("mixed".into());
        (format!("{} {} {}", z, first, second), t)
    }
}
impl Siblings<F, S, Probe> for Recorder {
    fn left<'a>(protocol: &'a mut Probe, x: &S, y: &S) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>> {
        let v = vec![x.clone(), y.clone(), x.clone()];
        Box::pin(async move { protocol.0.push("left".into()); v })
    }
    fn right<'a>(protocol: &'a mut Probe, x: &S, y: &S) -> Pin<Box<dyn Future<Output = Vec<S>> + 'a>> {
        let v = vec![y.clone(), x.clone(), y.clone()];
        Box::pin(async move { protocol.0.push("right".into()); v })
    }
    fn none() -> u64 {
        77
    }
}

pub fn probe(seed: u64) -> Vec<String> {
    let mut m = Mix(seed);
    let mut share = |x: usize| -> S { (x, BigUint::from(m.next()).into()) };
    let (a, b, c) = (share(1), share(2), share(3));
    let list = vec![a.clone(), b.clone(), c.clone(), share(4)];
    let pairs = vec![(a.clone(), b.clone()), (c.clone(), a.clone())];


    let mut out = vec![];
    macro_rules! both {
        ($name:expr, |$p:ident, $r:ident| $D:ident => $e:expr) => {{
            let direct = { type $D = Recorder; one(seed, |$p, $r| $e) };
            let delegated = { type $D = Probe; one(seed, |$p, $r| $e) };
            out.push(format!("{{\"ev\":\"delegation\",\"scheme\":\"{}\",\"direct\":{},\"delegated\":{}}}", $name, direct, delegated));
        }};
    }
    use futures::executor::block_on;
    both!("multiply", |p, _r| X => show(&block_on(<X as MultiplicationScheme<F, S, Probe>>::multiply(p, &a, &b))));
    both!("unbounded_multiply", |p, _r| X => shows(&block_on(<X as UnboundedMultiplicationScheme<F, S, Probe>>::unbounded_multiply(p, &pairs))));
    both!("inverse", |p, r| X => show(&block_on(<X as InversionScheme<F, S, Probe>>::inverse(r, p, &a))));
    both!("unbounded_inverse", |p, r| X => shows(&block_on(<X as UnboundedInversionScheme<F, S, Probe>>::unbounded_inverse(r, p, &list))));
    both!("shared_or", |p, r| X => show(&block_on(<X as OrFunctionScheme<F, S, Probe>>::shared_or(r, p, &b))));
    both!("unbounded_shared_or", |p, r| X => show(&block_on(<X as UnboundedOrFunctionScheme<F, S, Probe>>::unbounded_shared_or(r, p, &list))));
    both!("joint_conditional_selection", |p, _r| X => show(&block_on(<X as ConditionalSelectionScheme<F, S, Probe>>::joint_conditional_selection(p, &a, &b, &c))));
    both!("generate_random_number_sharing", |p, r| X => show(&block_on(<X as RandomNumberGenerationScheme<F, S, Probe>>::generate_random_number_sharing(r, p))));
    both!("generate_random_bit", |p, r| X => show(&block_on(<X as RandomBitGenerationScheme<F, S, Probe>>::generate_random_bit(r, p))));
    both!("four", |_p, _r| X => format!("{:?}", <X as ManyArguments<F, S, Probe>>::four(1, 2, 3, 4)));
    both!("reversed", |_p, _r| X => format!("{:?}", <X as ManyArguments<F, S, Probe>>::reversed(1, 2, 3, 4)));
    both!("mixed", |p, _r| X => { let (s, t) = <X as ManyArguments<F, S, Probe>>::mixed("z", 8, p, 9, a.1.clone()); format!("{} {}", s, limbs(&t.as_uint())) });
    both!("plain", |_p, _r| X => format!("{:?}", <X as Defaults<F, S, Probe>>::plain(1, 2)));
    both!("replaced", |_p, _r| X => format!("{:?}", <X as Defaults<F, S, Probe>>::replaced(1, 2)));
    both!("kept", |_p, _r| X => format!("{:?}", <X as Defaults<F, S, Probe>>::kept(1, 2)));
    both!("left", |p, _r| X => shows(&block_on(<X as Siblings<F, S, Probe>>::left(p, &a, &b))));
    both!("right", |p, _r| X => shows(&block_on(<X as Siblings<F, S, Probe>>::right(p, &a, &b))));
    both!("none", |_p, _r| X => format!("{}", <X as Siblings<F, S, Probe>>::none()));
    out
}

/// the result, what was recorded, and the state of the random source afterwards
fn one(seed: u64, f: impl FnOnce(&mut Probe, &mut rand::rngs::StdRng) -> String) -> String {
    let (mut p, mut r) = (Probe(vec![]), crate::party::rng(seed));
    match catch(|| f(&mut p, &mut r)) {
        Ok(s) => format!("{{\"out\":\"{}\",\"calls\":{},\"after\":\"{}\"}}", esc(&s), jlist(&p.0, |c| format!("\"{}\"", esc(c))), r.next_u64()),
        Err(e) => format!("{{\"out\":\"panic: {}\",\"calls\":[],\"after\":\"\"}}", esc(&e)),
    }
}
