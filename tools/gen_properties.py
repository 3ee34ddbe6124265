#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

DR = "jester_double_ratchet/src/lib.rs"
drtests = "The crate has no passing test at all: its only test is an unimplemented stub, so no history of sends and deliveries is ever executed."
HOOKM = "read and rebuild the header of a message object (cfg jester_verif), to duplicate messages and to forge headers"
prop("R01", "Every delivered ratchet message decrypts to what was sent",
 "Once a session exists, the first delivery of any message the peer encrypted yields exactly the plaintext that was sent, whatever other messages were lost, delayed or reordered before it, inside one sending chain or across changes of direction. A message is returned as a normal result if nothing the peer sent after it has arrived before it; otherwise it is returned flagged as out of order.",
 ["histories", "schedules"], "all interleavings of sends by both parties with losses, delays and reorderings by the network",
 drtests, [DR], [("missed-message key store", DR+" decrypt_message"), ("missing-message detection", DR+" detect_missing_messages")],
 ["result of decrypt_message for every delivery"], HOOKM,
 [("receiving chain", "chain key and number of messages consumed", DR), ("missed messages", "keys of skipped messages", DR)])
prop("R02", "A ratchet message is decrypted at most once",
 "Delivering a message again after it was decrypted, at once or after any number of further messages and key changes, is rejected with an error and yields no plaintext. The duplicate has no effect on the session: every genuine message is still decrypted afterwards as if the duplicate had never arrived.",
 ["histories", "schedules", "fault_sequences"], "all histories with duplicated deliveries at any later point",
 drtests, [DR], [("one-time removal of stored keys", DR+" decrypt_message"), ("rejection of old counters and retired keys", DR+" detect_missing_messages")],
 ["result of decrypt_message for every delivery"], HOOKM)
prop("R03", "A rejected ratchet header leaves the session unharmed",
 "A message whose header cannot belong to the session (a number of a known chain that is not pending, a retired or handshake key, or a new key that claims a shorter previous chain than was already received) is rejected with an error and never crashes the receiver. Afterwards every genuine message, in flight or future, in either direction, is handled exactly as if the rejected one had never arrived.",
 ["histories", "fault_sequences", "inputs"], "all reachable session states and all such forged headers",
 drtests, [DR], [("header validation before any state change", DR+" detect_missing_messages")],
 ["error returned for the forged header", "results of all later deliveries"], HOOKM)
prop("R04", "No two ratchet messages share an encryption key",
 "Over the whole life of a session, in both directions, every message is encrypted under a message key that is used for no other message and that is never identical to a key handed to the other chain. The receiver decrypts each message under exactly the key it was encrypted with.",
 ["histories", "schedules"], "all histories of sends and deliveries",
 drtests, [DR], [("symmetric chain step per message", DR+" encrypt_message"), ("receiving chain step", DR+" decrypt_message")],
 ["key given to the encryption scheme for every message"], None)
prop("R05", "Every change of direction mixes a fresh key pair into the session",
 "Whenever a party accepts a message that carries a partner key it has not seen, it generates exactly one new key pair from the session's generator, and all its following messages carry the new public key and are encrypted under keys that depend on the Diffie-Hellman secret of that new pair and the partner's new key, chained on all earlier secrets. Messages carrying an already known partner key trigger no key generation.",
 ["histories", "schedules"], "all histories of sends and deliveries",
 drtests, [DR], [("Diffie-Hellman ratchet step", DR+" decrypt_message / decrypt_first_message / initialize_receiving")],
 ["key pairs generated", "secrets entering key derivation", "key of every message"], None)
prop("R06", "Ratchet headers number messages truthfully",
 "Within a sending chain messages are numbered 0, 1, 2, ... without gaps or repeats and all carry the same public key; a new chain starts at 0 again under a key never used before. Every header states the exact number of messages the sender sent in its previous chain.",
 ["histories", "schedules"], "all histories of sends and deliveries",
 drtests, [DR], [("sending counters", DR+" encrypt_message / decrypt_message")],
 ["header of every message"], HOOKM)
prop("R07", "A session establishes from whichever first message arrives",
 "The initiator can establish its session from any message of the responder's first chain, whichever arrives first, obtaining that message's plaintext. Afterwards the messages of that chain that were overtaken still decrypt when they arrive, and both directions work.",
 ["histories", "schedules"], "all choices of the first delivered message and all continuations",
 drtests, [DR], [("session establishment", DR+" decrypt_first_message")],
 ["result of decrypt_first_message and of later deliveries"], HOOKM)

prop("R08", "Ratchet sessions do not influence one another",
 "However many sessions a process holds, and however their operations are interleaved on one thread or run on several, every session shows exactly what it would show alone: the same headers, keys, plaintexts, orderings and errors, in both directions. This holds for genuine, duplicated and forged messages alike.",
 ["histories", "schedules"], "all interleavings of all histories of several sessions",
 drtests, [DR], [("all session state is held by the protocol object", DR+" DoubleRatchetProtocol")],
 ["headers, keys and results of every session in company and alone"], HOOKM)

MP = "jester_maths/src/prime.rs"
prop("F01", "Field arithmetic is exact arithmetic modulo the prime",
 "For every prime field type, addition, subtraction, multiplication, sums and products of any field elements equal the integer result modulo the prime. Results are always canonical, i.e. between 0 and the prime minus 1, so equal field elements compare equal and hash alike.",
 ["inputs", "configurations"], "all operands of all field types, from the smallest to 2048 bits",
 "Two tests sample one addition and one subtraction in a single field.",
 [MP], [("operator implementations of the field macro", MP+" prime_fields!")], ["results of +, -, *, sum, product"])
prop("F02", "Multiplicative inverses and the extended Euclid are exact",
 "Every non-zero field element multiplied by its computed inverse gives one, in every prime field. The extended Euclidean algorithm returns a common divisor together with coefficients that combine the two inputs to it modulo the prime.",
 ["inputs", "configurations"], "all non-zero elements of all field types",
 "No test calls the inverse directly; the protocol tests only touch the field of 7 elements.",
 [MP], [("extended Euclid over field elements", MP+" PrimeField::inverse")], ["results of inverse and extended gcd"])
prop("F03", "Conversions into a field agree with the integer they denote",
 "Converting signed or unsigned machine integers, big integers or digit strings in any radix yields the element congruent to that integer, for every value including the extremes. A text that is empty or contains a character that is no digit of the radix (other than a sign or a separator) is refused. Decoding bytes, in either byte order, succeeds exactly when the number is smaller than the prime, and encoding an element and decoding it again returns the same element.",
 ["inputs", "configurations"], "all integers, strings, byte strings and field types",
 "Tests convert three decimal strings and a few small unsigned integers.",
 [MP], [("From/FromPrimitive/Num implementations, byte codecs", MP)], ["conversion results"])
prop("F04", "Exponentiation is exact modular exponentiation",
 "Raising a field element to a field element's integer value equals repeated multiplication modulo the prime, and the variant with an explicit modulus equals repeated multiplication modulo that modulus (for moduli up to the prime). This includes exponents 0 and 1 and base 0.",
 ["inputs", "configurations"], "all bases, exponents, moduli, fields",
 "No test calls exponentiation directly.",
 [MP], [("pow / modpow", MP+" PrimeField")], ["results of pow, modpow"])
prop("F05", "Random field members are uniform over the whole field",
 "A randomly generated field member is always a canonical element, every element of the field including 0 and the prime minus 1 can be produced, and with a uniform random source all elements are equally likely. Successive members are independent draws.",
 ["inputs", "configurations"], "all outputs of the random source",
 "Tests use a few random members and never look at their distribution.",
 [MP], [("rejection sampling below the prime", MP+" generate_random_member")], ["generated members"])
prop("F06", "The shipped moduli are the documented primes",
 "Each shipped Mersenne field has exactly the modulus two to the power of the number in its name minus one, and that number is prime. The three standard groups have exactly the 1024-bit and 2048-bit primes of RFC 5114.",
 ["configurations"], "all shipped field types",
 "Tests exercise two shipped fields and would pass with any other large odd modulus of similar size.",
 [MP], [("field declarations", MP+" bottom")], ["field_prime of every shipped field"])

SS = "jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs"
prop("S01", "Any threshold-many shares reconstruct the secret",
 "For every secret, every number of shares below the field size and every threshold from two up to that number, any selection of at least threshold-many distinct shares, in any order, reconstructs exactly the shared secret. Supplying more shares than the threshold gives the same result.",
 ["inputs", "configurations"], "all secrets, share counts, thresholds, subsets and orders, random coefficients, fields",
 "The one reconstruction test uses a single secret with count = threshold = 5 and the shares in order.",
 [SS], [("polynomial evaluation and Lagrange interpolation", SS)], ["shares and reconstructed secret"])
prop("S02", "Fewer shares than the threshold reveal nothing",
 "For every set of fewer shares than the threshold, every secret is equally likely given those shares: each sharing is a uniformly random polynomial of degree below the threshold through the secret, independent of the secret and of every other sharing. In particular no coefficient is ever fixed, skipped, repeated or reused, and a threshold below two is refused.",
 ["inputs", "configurations"], "all secrets, thresholds, share subsets, outputs of the random source",
 "Tests only check that shares reconstruct; a sharing with constant coefficients passes them (the test protocol itself does that).",
 [SS], [("random coefficients per sharing", SS+" generate_shares")], ["joint distribution of shares"])
prop("S03", "Local arithmetic on shares is arithmetic on the secrets",
 "Adding, subtracting and summing shares held by the same parties, and adding, subtracting or multiplying by public scalars, gives shares of the corresponding result of the secrets, for any combination of such steps. Summing no shares gives nothing, and combining shares of different parties is refused.",
 ["inputs", "programs"], "all expressions over shared secrets and scalars, thresholds, fields",
 "One test adds two sharings by hand without using the scheme's operations.",
 [SS], [("linear share operations", SS)], ["shares after any sequence of operations"])
ML = "jester_sharing/src/multiplication/beaver_randomization_multiplication.rs"
prop("S04", "Secret multiplication yields shares of the product",
 "When all parties multiply shared secrets, singly or in a batch of any length, each party obtains its share of the exact product of each pair, a valid sharing with the original threshold, for all inputs and all valid precomputed triples. The order of a batch is preserved.",
 ["inputs", "configurations", "schedules"], "all secrets, batches, triples, party counts, thresholds, delivery orders",
 "Tests run a single party on constant polynomials with the fixed triple (1,1,1).",
 [ML], [("Beaver re-randomisation", ML)], ["output shares of all parties"])
prop("S05", "Multiplication opens only perfectly masked values",
 "The values opened during secret multiplication are uniformly distributed and independent of the secrets being multiplied, for every pair of inputs and jointly over a whole batch. Each product consumes exactly one fresh triple that no other product uses.",
 ["inputs", "configurations"], "all secrets and batches, with triples ranging over all masks",
 "Tests never look at opened values and use one constant triple.",
 [ML], [("masking by fresh triples", ML)], ["opened values", "triples requested"])
RN = "jester_sharing/src/random_number_generation/sum_random_number_generation.rs"
prop("S06", "A jointly generated random number is the sum of all contributions",
 "When all parties jointly generate a random number, their results are a valid sharing, with the original threshold, of exactly the sum of one value contributed by each party. Each party contributes exactly one value per number, drawn freshly and uniformly from the whole field, so no coalition that misses one party can predict or influence the number.",
 ["inputs", "configurations", "schedules"], "all contributions, party counts, thresholds, delivery orders",
 "Tests use a one-party test-only variant of the generator; the shipped one is never run.",
 [RN], [("sum of distributed contributions", RN)], ["values distributed", "output shares"])
IV = "jester_sharing/src/inversion/unbounded_inversion.rs"
prop("S07", "Secret inversion yields shares of the inverse",
 "When all parties invert shared non-zero secrets, singly or in a batch of any length, each obtains its share of the exact multiplicative inverse of each secret, in order and with the original threshold, whenever the joint random blinding values are non-zero.",
 ["inputs", "configurations", "schedules"], "all non-zero secrets, batches, blinding values, party counts, delivery orders",
 "Tests invert three fixed values with a single party on constant polynomials.",
 [IV], [("blinding by a joint random number, opening, local inversion", IV)], ["output shares of all parties"])
prop("S08", "Inversion opens only blinded values",
 "Everything opened during secret inversion is, for uniformly random non-zero blinding values and masks, distributed independently of the non-zero secrets, also jointly over a batch. Every secret of a batch is blinded with its own random number.",
 ["inputs", "configurations"], "all non-zero secrets and batches, blinding values and masks ranging over the whole field",
 "Tests never look at opened values.",
 [IV], [("blinding", IV)], ["opened values", "random numbers requested"])
OR = "jester_sharing/src/shared_or_function/joint_unbounded_or.rs"
prop("S09", "The shared OR is one exactly when some bit is one",
 "For every non-empty list of shared bits shorter than the field size, each party obtains its share of 1 if at least one bit is 1 and of 0 otherwise, a valid sharing with the original threshold, whenever the joint random blinding values are non-zero. The single-bit form returns that bit.",
 ["inputs", "configurations", "schedules"], "all bit vectors, lengths, blinding values, fields, party counts, delivery orders",
 "Tests evaluate two bit vectors of length 3 with one party in the field of 7 elements.",
 [OR], [("polynomial through the OR table, inverted Vandermonde matrix, unbounded powers", OR)], ["output shares of all parties"])
prop("S10", "The OR does not depend on what was computed before or alongside",
 "The result of a shared OR is the same whatever other ORs, over other lengths or other fields, were evaluated earlier in the same process, were given up midway (their future dropped), or are being evaluated concurrently on other threads. Concurrent evaluations always finish.",
 ["histories", "schedules"], "all sequences and concurrent mixes of evaluations over lengths and fields",
 "Tests evaluate one length in one field per process, in whatever order the test runner picks, so the process-wide cache is never shared by different evaluations.",
 [OR], [("process-wide coefficient cache keyed by field", OR)], ["results of evaluations in mixed histories"], None,
 [("coefficient cache", "precomputed matrix entries shared by the whole process", OR)])
prop("S11", "The OR opens only blinded values",
 "For every list of shared bits that is at least two shorter than the field size, everything opened while the OR is evaluated is, for uniformly random non-zero blinding values and masks, distributed independently of the bits. Neither the number of ones nor the result can be learned from the opened values.",
 ["inputs", "configurations"], "all bit vectors of equal length; blinding values and masks ranging over the whole field",
 "Tests never look at opened values.",
 [OR], [("telescoping blinding factors", OR)], ["opened values"])
CS = "jester_sharing/src/conditional_selection/joint_conditional_selection.rs"
prop("S12", "Conditional selection returns the chosen operand",
 "For a shared condition of 1 every party obtains a share of the left operand and for 0 of the right operand, a valid sharing with the original threshold, for all operands. What is opened is independent of the condition and of the operands.",
 ["inputs", "configurations", "schedules"], "all operands, conditions, masks, party counts, delivery orders",
 "No test calls conditional selection.",
 [CS], [("multiplication of the difference by the condition", CS)], ["output shares of all parties", "opened values"])
prop("S13", "Parties stay in step under every delivery order",
 "Whatever the order in which parties run and messages are delivered, every protocol run finishes once all messages are delivered, all parties issue the same sequence of communications, and every opening combines shares of one and the same value. Neither the sequence nor the result depends on the schedule.",
 ["schedules", "inputs"], "all interleavings of party steps and message deliveries, all private inputs",
 "Tests run one party whose communication completes instantly, so no future is ever pending.",
 [ML, IV, OR, CS, RN], [("futures joined over communication rounds", "jester_sharing/src")], ["communications issued by each party", "termination and outputs"])
prop("S14", "Batch protocols need a constant number of communication rounds",
 "Multiplying, inverting or OR-ing any number of secrets in one call takes a number of sequential communication rounds that does not depend on how many there are. All openings of one batch step are issued together before any of them is awaited, and inverting a batch waits for two opening rounds.",
 ["schedules", "inputs"], "all batch lengths, all delivery orders",
 "Tests use instantly completing communication, where sequential and parallel rounds cannot be told apart.",
 [ML, IV, OR], [("join_all over the openings of a step", ML)], ["number of rounds in lock-step execution"])
PM = "jester_sharing/jester_sharing_proc/src/lib.rs"
prop("S15", "A delegated protocol behaves as the implementation it names",
 "A protocol type that declares a delegate for a scheme performs exactly what the delegate implementation performs for the same call: same results, same communications, arguments passed in their places. This holds for every scheme that can be delegated.",
 ["programs", "inputs"], "all delegatable schemes, all arguments",
 "Tests use delegation only with symmetric or single arguments and never compare it with the direct implementation.",
 [PM], [("generated forwarding implementations", PM)], ["results and communications of delegated and direct calls"])
prop("S16", "Protocols compose into any program",
 "Products, inverses, ORs, selections, random numbers and local operations can be put together into any program: each operation may use inputs and results of earlier ones, random numbers may be under way during other operations and be awaited in any order or never, operations and whole sessions may be abandoned, and any number of sessions, over equal or different fields, may go on alongside each other in one thread or in several. Every party ends with its share of what each operation is to compute from the values its operands denote.",
 ["programs", "schedules", "inputs"], "all programs, interleavings of sessions, inputs",
 "Tests call one protocol once, in one session, with operands that were just shared.",
 [ML, IV, OR, CS, RN], [("results are shares that further protocols take", ML), ("the future of a random number does not borrow the protocol", RN)], ["results of every operation of a program"])

DH = "jester_encryption/src/diffie_hellman.rs"
RS = "jester_encryption/src/rsa.rs"
prop("E01", "Diffie-Hellman partners derive the same secret",
 "For every field, generator and pair of private keys, both parties of a key exchange compute the same shared secret, and it is the generator raised to the product of the two private keys modulo the prime. Three and more parties who pass their results around in several rounds all arrive at the generator raised to the product of all their keys, whatever the order.",
 ["inputs", "configurations"], "all fields, generators, private keys",
 "One random exchange in one group compares the two sides only with each other, so both could be equally wrong.",
 [DH], [("generate_shared_secret", DH)], ["keys and shared secrets"])
prop("E02", "Diffie-Hellman key pairs match and are fresh",
 "A generated public key is exactly the given generator raised to the generated private key modulo the prime. The private key is drawn freshly and uniformly from the field by the supplied random source for every key pair.",
 ["inputs", "configurations"], "all generators, random source outputs, fields",
 "The test never relates a public key to its private key and generates two pairs.",
 [DH], [("generate_asymmetrical_key_pair", DH)], ["generated key pairs"])
prop("E03", "RSA decryption undoes encryption",
 "For every valid key pair and every message number below the modulus, decrypting the encryption returns the same number in the same little-endian form, and the ciphertext is exactly the message raised to the public exponent modulo the modulus.",
 ["inputs", "configurations"], "all key pairs and messages below the modulus",
 "There is no test of RSA.",
 [RS], [("encrypt_message / decrypt_message", RS)], ["ciphertexts and decrypted messages"])
prop("E04", "RSA refuses messages it could not restore",
 "A message or ciphertext whose number is not below the modulus of the key is refused instead of being silently mapped to a different one. Everything below the modulus is accepted.",
 ["inputs", "configurations"], "all keys, messages and ciphertexts at and above the modulus and at and above the field size",
 "There is no test of RSA.",
 [RS], [("range check before exponentiation", RS)], ["acceptance or refusal"])

M5 = "jester_hashes/src/md5.rs"; S1 = "jester_hashes/src/sha1.rs"; B2 = "jester_hashes/src/blake/blake2b.rs"; B2S = "jester_hashes/src/blake/blake2s.rs"; BM = "jester_hashes/src/blake/mod.rs"
prop("H01", "MD5 digests equal RFC 1321",
 "For every message of every length, the MD5 digest is the one RFC 1321 defines, for one-shot hashing and for finishing a stream.",
 ["inputs"], "all messages; in particular all lengths around block and padding boundaries and beyond 2^32 bits",
 "Tests compare three lengths plus one stream with known digests; no length exercises the extra padding block.",
 [M5], [("compression, padding, length encoding", M5)], ["digests"], "set a hash state's chaining value and length (cfg jester_verif_deep; the check falls back without it)")
prop("H02", "SHA-1 digests equal FIPS 180",
 "For every message of every length, the SHA-1 digest is the one FIPS 180 defines, for one-shot hashing and for finishing a stream.",
 ["inputs"], "all messages; in particular all lengths around block and padding boundaries and beyond 2^32 bits",
 "Tests compare three lengths plus one stream with known digests.",
 [S1], [("compression, padding, length encoding", S1)], ["digests"], "as H01")
prop("H03", "BLAKE2b digests equal RFC 7693",
 "For every message, every key of 0 to 64 bytes and every digest length of 1 to 64 bytes, the BLAKE2b digest is the one RFC 7693 defines.",
 ["inputs", "configurations"], "all messages, keys, digest lengths; in particular full last blocks and counters beyond 64 bits",
 "Tests compare a handful of messages, one key and three digest lengths.",
 [B2, BM], [("parameter block, key block, deferred last block, 128-bit counter", B2)], ["digests"], "as H01")
prop("H04", "BLAKE2s digests equal RFC 7693",
 "For every message, every key of 0 to 32 bytes and every digest length of 1 to 32 bytes, the BLAKE2s digest is the one RFC 7693 defines.",
 ["inputs", "configurations"], "all messages, keys, digest lengths; in particular full last blocks and counters beyond 32 bits",
 "Tests compare a handful of messages, one key and three digest lengths.",
 [B2S, BM], [("parameter block, key block, deferred last block, 64-bit counter", B2S)], ["digests"], "as H01")
prop("H05", "A streamed digest depends only on the concatenated input",
 "Feeding a message to any of the hash functions in any sequence of pieces, including empty ones and pieces larger than several blocks, gives the same digest as hashing it in one call. Any number of streams can be fed in any interleaving, also on several threads, without influencing one another.",
 ["histories", "inputs"], "all partitions of all messages, all interleavings of streams",
 "Tests feed three fixed pieces in one fixed partition per function.",
 [M5, S1, B2, B2S], [("partial block buffering", M5+", "+S1+", "+B2+", "+B2S)], ["digests of streams"], None,
 [("partial block", "bytes not yet compressed", "all hash states")])
HM = "jester_hashes/src/hmac.rs"; KD = "jester_hashes/src/kdf.rs"
prop("H06", "HMAC equals RFC 2104 for every key and message",
 "For every hash function, every message and every key, shorter than, equal to or longer than the block size and also empty, the authentication code is the one RFC 2104 defines.",
 ["inputs", "configurations"], "all keys, messages, hash functions",
 "Two tests use the key 'key' with MD5 and SHA-1; keys of block size or longer are never used.",
 [HM], [("key shortening and padding", HM)], ["authentication codes"])
prop("H07", "HKDF equals RFC 5869 and returns the requested length",
 "For every hash function, salt, key material, context information and output length up to 255 digests, the derived key is exactly the one RFC 5869 defines and has exactly the requested length.",
 ["inputs", "configurations"], "all salts, key materials, infos, output lengths, hash functions",
 "The only test of the derivation has an empty body.",
 [KD], [("extract and expand steps", KD)], ["derived keys"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
