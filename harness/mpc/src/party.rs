// The protocol types under test: every scheme is delegated, or called directly on the implementation.
use crate::hub::*;
use crate::util::*;
use futures::Future;
use jester_sharing::beaver_randomization_multiplication::BeaverRerandomizationMultiplication as Mul;
use jester_sharing::joint_conditional_selection::JointConditionalSelection as Sel;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction as Or;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration as Sum;
use jester_sharing::unbounded_inversion::JointUnboundedInversion as Inv;
use jester_sharing::*;
use rand::{rngs::StdRng, SeedableRng};
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub args: Vec<usize>,
}

pub fn rng(seed: u64) -> StdRng {
    let mut m = Mix(seed);
    let mut s = [0u8; 32];
    for c in s.chunks_mut(8) {
        let w = m.next();
        for (i, b) in c.iter_mut().enumerate() {
            *b = (w >> (8 * i)) as u8;
        }
    }
    StdRng::from_seed(s)
}

pub type Regs<F> = Vec<Vec<Sh<F>>>; // the results of each operation
pub type Task<F> = Pin<Box<dyn Future<Output = Regs<F>>>>;

pub struct IdealNumbers;

/// A future that its owner leaves alone for a while before polling it for the first time.
struct Held<T: ?Sized>(Pin<Box<T>>, u64);
impl<T: Future + ?Sized> Future for Held<T> {
    type Output = T::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<T::Output> {
        if self.1 > 0 {
            self.1 -= 1;
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        self.0.as_mut().poll(cx)
    }
}

macro_rules! protocol {
    ($mark:ty, $rngmarker:ty, $program:ident) => {
        impl<F: Field> RandomNumberGenerationSchemeMarker for Party<F, $mark> {
            type Marker = $rngmarker;
        }
        impl<F: Field> MultiplicationSchemeMarker for Party<F, $mark> {
            type Marker = Delegate;
        }
        impl<F: Field> MultiplicationSchemeDelegate<F, Sh<F>, Party<F, $mark>> for Party<F, $mark> {
            type Delegate = Mul<F, Sh<F>, Party<F, $mark>>;
        }
        impl<F: Field> UnboundedMultiplicationSchemeMarker for Party<F, $mark> {
            type Marker = Delegate;
        }
        impl<F: Field> UnboundedMultiplicationSchemeDelegate<F, Sh<F>, Party<F, $mark>> for Party<F, $mark> {
            type Delegate = Mul<F, Sh<F>, Party<F, $mark>>;
        }
        impl<F: Field> InversionSchemeMarker for Party<F, $mark> {
            type Marker = Delegate;
        }
        impl<F: Field> InversionSchemeDelegate<F, Sh<F>, Party<F, $mark>> for Party<F, $mark> {
            type Delegate = Inv<F, Sh<F>, Party<F, $mark>>;
        }
        impl<F: Field> UnboundedInversionSchemeMarker for Party<F, $mark> {
            type Marker = Delegate;
        }
        impl<F: Field> UnboundedInversionSchemeDelegate<F, Sh<F>, Party<F, $mark>> for Party<F, $mark> {
            type Delegate = Inv<F, Sh<F>, Party<F, $mark>>;
        }
        impl<F: Field> OrFunctionSchemeMarker for Party<F, $mark> {
            type Marker = Delegate;
        }
        impl<F: Field> OrFunctionSchemeDelegate<F, Sh<F>, Party<F, $mark>> for Party<F, $mark> {
            type Delegate = Or<F, Sh<F>, Party<F, $mark>>;
        }
        impl<F: Field> UnboundedOrFunctionSchemeMarker for Party<F, $mark> {
            type Marker = Delegate;
        }
        impl<F: Field> UnboundedOrFunctionSchemeDelegate<F, Sh<F>, Party<F, $mark>> for Party<F, $mark> {
            type Delegate = Or<F, Sh<F>, Party<F, $mark>>;
        }
        impl<F: Field> ConditionalSelectionSchemeMarker for Party<F, $mark> {
            type Marker = Delegate;
        }
        impl<F: Field> ConditionalSelectionSchemeDelegate<F, Sh<F>, Party<F, $mark>> for Party<F, $mark> {
            type Delegate = Sel<F, Sh<F>, Party<F, $mark>>;
        }

        /// One party's program, from its shares of the inputs to its shares of all results.
        pub fn $program<F: Field>(id: usize, hub: Arc<Mutex<Hub<F>>>, mut regs: Vec<Sh<F>>, ops: Vec<Op>, direct: bool, hold: bool, seed: u64) -> Task<F> {
            type P<F> = Party<F, $mark>;
            Box::pin(async move {
                let mut party: P<F> = Party { id, hub, mark: std::marker::PhantomData };
                let mut rng = rng(seed);
                let mut pause = Mix(seed ^ 0x5a5a);
                let mut results = vec![];
                let mut under_way = std::collections::VecDeque::new();
                for op in ops {
                    // an operation may be begun and dropped, or left alone for a while
                    let lost = op.name.starts_with("lost_");
                    let k = if hold { pause.below(4) } else { 0 };
                    #[allow(unused_macros)]
                    macro_rules! go {
                        ($f:expr) => {{
                            let f = $f;
                            if lost { None } else { Some(Held(f, k).await) }
                        }};
                    }
                    let a: Vec<Sh<F>> = if op.name == "rands" { vec![] } else { op.args.iter().map(|i| regs[*i].clone()).collect() };
                    // an operand that is given twice is sometimes given as the same reference
                    let at = |i: usize| if results.len() % 2 == 0 { &regs[op.args[i]] } else { &a[i] };
                    let pairs: Vec<(Sh<F>, Sh<F>)> = a.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].clone())).collect();
                    let out: Vec<Sh<F>> = match (op.name.trim_start_matches("lost_"), direct) {
                        ("mul", false) => go!(<P<F> as MultiplicationScheme<F, Sh<F>, P<F>>>::multiply(&mut party, at(0), at(1))).into_iter().collect(),
                        ("mul", true) => go!(<Mul<F, Sh<F>, P<F>> as MultiplicationScheme<F, Sh<F>, P<F>>>::multiply(&mut party, at(0), at(1))).into_iter().collect(),
                        ("umul", false) => go!(<P<F> as UnboundedMultiplicationScheme<F, Sh<F>, P<F>>>::unbounded_multiply(&mut party, &pairs)).unwrap_or_default(),
                        ("umul", true) => go!(<Mul<F, Sh<F>, P<F>> as UnboundedMultiplicationScheme<F, Sh<F>, P<F>>>::unbounded_multiply(&mut party, &pairs)).unwrap_or_default(),
                        ("inv", false) => go!(<P<F> as InversionScheme<F, Sh<F>, P<F>>>::inverse(&mut rng, &mut party, at(0))).into_iter().collect(),
                        ("inv", true) => go!(<Inv<F, Sh<F>, P<F>> as InversionScheme<F, Sh<F>, P<F>>>::inverse(&mut rng, &mut party, at(0))).into_iter().collect(),
                        ("uinv", false) => go!(<P<F> as UnboundedInversionScheme<F, Sh<F>, P<F>>>::unbounded_inverse(&mut rng, &mut party, &a)).unwrap_or_default(),
                        ("uinv", true) => go!(<Inv<F, Sh<F>, P<F>> as UnboundedInversionScheme<F, Sh<F>, P<F>>>::unbounded_inverse(&mut rng, &mut party, &a)).unwrap_or_default(),
                        ("or", false) => go!(<P<F> as OrFunctionScheme<F, Sh<F>, P<F>>>::shared_or(&mut rng, &mut party, at(0))).into_iter().collect(),
                        ("or", true) => go!(<Or<F, Sh<F>, P<F>> as OrFunctionScheme<F, Sh<F>, P<F>>>::shared_or(&mut rng, &mut party, at(0))).into_iter().collect(),
                        ("uor", false) => go!(<P<F> as UnboundedOrFunctionScheme<F, Sh<F>, P<F>>>::unbounded_shared_or(&mut rng, &mut party, &a)).into_iter().collect(),
                        ("uor", true) => go!(<Or<F, Sh<F>, P<F>> as UnboundedOrFunctionScheme<F, Sh<F>, P<F>>>::unbounded_shared_or(&mut rng, &mut party, &a)).into_iter().collect(),
                        ("sel", false) => go!(<P<F> as ConditionalSelectionScheme<F, Sh<F>, P<F>>>::joint_conditional_selection(&mut party, at(0), at(1), at(2))).into_iter().collect(),
                        ("sel", true) => go!(<Sel<F, Sh<F>, P<F>> as ConditionalSelectionScheme<F, Sh<F>, P<F>>>::joint_conditional_selection(&mut party, at(0), at(1), at(2))).into_iter().collect(),
                        ("rand", false) => go!(<P<F> as RandomNumberGenerationScheme<F, Sh<F>, P<F>>>::generate_random_number_sharing(&mut rng, &mut party)).into_iter().collect(),
                        ("rand", true) => go!(<Sum<F, Sh<F>, P<F>> as RandomNumberGenerationScheme<F, Sh<F>, P<F>>>::generate_random_number_sharing(&mut rng, &mut party)).into_iter().collect(),
                        // several numbers under way at once
                        ("rands", d) => {
                            let mut fs = vec![];
                            for _ in 0..op.args.len() {
                                fs.push(if d { <Sum<F, Sh<F>, P<F>> as RandomNumberGenerationScheme<F, Sh<F>, P<F>>>::generate_random_number_sharing(&mut rng, &mut party) } else { <P<F> as RandomNumberGenerationScheme<F, Sh<F>, P<F>>>::generate_random_number_sharing(&mut rng, &mut party) });
                            }
                            futures::future::join_all(fs).await
                        }
                        // a number that is under way during later operations
                        ("start", d) => {
                            under_way.push_back(if d { <Sum<F, Sh<F>, P<F>> as RandomNumberGenerationScheme<F, Sh<F>, P<F>>>::generate_random_number_sharing(&mut rng, &mut party) } else { <P<F> as RandomNumberGenerationScheme<F, Sh<F>, P<F>>>::generate_random_number_sharing(&mut rng, &mut party) });
                            vec![]
                        }
                        // the oldest, the newest, or none of those under way is awaited
                        ("finish", _) => vec![under_way.pop_front().unwrap().await],
                        ("finishlast", _) => vec![under_way.pop_back().unwrap().await],
                        ("drop", _) => {
                            under_way.pop_front();
                            vec![]
                        }
                        ("add", _) => vec![<P<F> as LinearSharingScheme<F, Sh<F>>>::add_shares(at(0), at(1))],
                        ("sub", _) => vec![<P<F> as LinearSharingScheme<F, Sh<F>>>::sub_shares(at(0), at(1))],
                        (x, _) => panic!("scenario: {}", x),
                    };
                    regs.extend(out.iter().cloned());
                    results.push(out);
                }
                results
            })
        }
    };
}

impl<F: Field> RandomNumberGenerationSchemeDelegate<F, Sh<F>, Party<F, Real>> for Party<F, Real> {
    type Delegate = Sum<F, Sh<F>, Party<F, Real>>;
}
impl<F: Field> RandomNumberGenerationSchemeImpl<F, Sh<F>, Party<F, Ideal>, IdealNumbers> for Party<F, Ideal> {
    fn generate_random_number_sharing<R>(_rng: &mut R, protocol: &mut Party<F, Ideal>) -> Pin<Box<dyn Future<Output = Sh<F>> + Send>>
    where
        R: RngCore + CryptoRng,
    {
        protocol.random()
    }
}

protocol!(Real, Delegate, program_real);
protocol!(Ideal, IdealNumbers, program_ideal);
