import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ZK=["src/zk/%s.rs"%x for x in ("aff_g","aff_g_star","dec","elog","enc_elg","fac","mod_","prm","sch")]
PROTO=["src/protocols/%s.rs"%x for x in ("key_init","aux_gen","key_refresh","key_resharing","interactive_signing")]

p("C01","Fiat-Shamir challenges bind the whole statement",
 "For every zero-knowledge proof the crate produces or checks, the challenge is derived from all prover commitments, every public input of the statement, the verifier's setup parameters and the caller's auxiliary data. No two runs that differ in any of these share a challenge by construction, and the checker derives the challenge itself from the data it is given rather than trusting a value from the proof.",
 ["inputs"],"all statements, commitments, setups and auxiliary values of all nine proof systems",
 "The unit tests only make honest proofs and check they verify (plus one wrong-aux case); a component left out of the transcript changes nothing for honest runs and is exploitable only by an adaptive prover.",
 ZK+["src/tools/hashing.rs"],
 [("challenge derivation in the prover and the verifier of every proof","src/zk/*.rs new()/verify()"),("hash transcript chaining","src/tools/hashing.rs Hasher, Chain")],["the acceptance decision of a proof verifier"])
p("C02","A proof is accepted only if every verification equation holds",
 "A proof verifier returns success only when every equation of the proof system (each relation between commitments, challenge, responses and public inputs, as published in the CGGMP'24 paper) has been evaluated on the given data and holds, over the groups the paper prescribes: masked randomizers, and the ring-Pedersen bases in Prm, are invertible modulo the modulus they belong to. Every component of the proof takes part in such an equation or in the challenge, so that changing any component of an accepted proof makes it rejected.",
 ["inputs"],"all proofs (honest, malformed, adversarial) and all statements of all nine proof systems",
 "Tests show that honest proofs verify; a missing, weakened or mis-indexed equation accepts all honest proofs too and only shows with a forged proof built for that gap.",
 ZK,[("verification equations","src/zk/*.rs verify()")],["the acceptance decision of a proof verifier"])
p("C03","Proof verifiers enforce the range of every integer response",
 "Every integer response in a range proof is checked to lie in the symmetric interval the protocol prescribes for it (secret size plus slack, in the scheme's security parameters), and the proof is rejected otherwise. The interval checked is exactly the one prescribed for that response, never a wider or a different one.",
 ["inputs","configurations"],"all response values and all scheme parameter sets",
 "Honest responses are always in range, so tests pass without the check or with a wider bound; with small test parameters a wrong bound may not even be distinguishable.",
 ["src/zk/aff_g.rs","src/zk/aff_g_star.rs","src/zk/dec.rs","src/zk/enc_elg.rs","src/zk/fac.rs","src/uint/public_signed.rs","src/uint/secret_signed.rs"],
 [("response range checks","src/zk/*.rs verify()"),("exponent range predicates","src/uint/public_signed.rs, src/uint/secret_signed.rs")],["the acceptance decision of a proof verifier"])
p("C04","All repetitions of a parallel-repetition proof are checked",
 "For proofs made of many parallel repetitions, the verifier accepts only when the number of commitments and of responses it received equals the number of challenge bits or challenges prescribed by the security parameter, and each of these repetitions has been verified. A proof with missing, truncated, empty or surplus repetitions is rejected.",
 ["inputs"],"all proof lengths, including zero, as decoded from a remote message",
 "Tests only use proofs of the right length; the soundness error depends on the number of repetitions checked, which an adversary controls through the serialized length.",
 ["src/zk/prm.rs","src/zk/mod_.rs","src/zk/dec.rs","src/zk/aff_g_star.rs","src/tools/bitvec.rs"],
 [("length checks before element-wise verification","src/zk/{prm,mod_,dec,aff_g_star}.rs verify()")],["the acceptance decision of a proof verifier"])
p("C05","Honest proofs always verify",
 "For every witness in the documented ranges and every randomness, a proof produced by the crate's prover for a statement is accepted by the crate's verifier for the same statement, setup and auxiliary data. The prover's responses satisfy the verifier's equations identically, the prover and the verifier derive the same challenge from the same data, and every interval the verifier enforces contains every response the prover can produce except with negligible probability.",
 ["inputs","configurations"],"all witnesses, all randomness, all parameter sets",
 "Tests run a few random honest proofs with tiny test parameters; a divergence that depends on a sign, on a larger parameter set or on one statement component is not sampled.",
 ZK,[("response computation","src/zk/*.rs new()"),("equations","src/zk/*.rs verify()")],["the acceptance decision on an honestly made proof"])
p("C06","Every secret is masked by fresh randomness of its own",
 "Every proof response that depends on a secret contains a mask sampled for it inside that very proof run from the caller's random generator, with the range prescribed for that response, and no mask is used for two different responses, two repetitions or two commitments that the protocol requires to be independent. Randomizers of ciphertexts and commitments are likewise drawn fresh from the caller's generator at each encryption.",
 ["inputs","histories"],"all proof runs and all random generators",
 "A reused, constant or too narrow mask leaves every honest run verifying; it only leaks secrets over a run or over several runs.",
 ZK+["src/paillier/encryption.rs","src/paillier/ring_pedersen.rs"],
 [("mask sampling","src/zk/*.rs new()"),("randomizers","src/paillier/encryption.rs, src/paillier/ring_pedersen.rs")],["responses and commitments of a proof","ciphertexts"])
p("C07","Hash inputs are unambiguous and domain-separated",
 "Every hash the crate computes starts with a domain tag used for that single purpose, so that hashes of different proofs, protocols or steps never coincide on equal data. Every variable-length input is framed by its length or by fixed structure, so that two different sequences of inputs never produce the same byte stream.",
 ["inputs"],"all pairs of hash computations and all input sequences",
 "Collisions between purposes or between framings need a specific pair of inputs across protocols; no test hashes across purposes.",
 ["src/tools/hashing.rs","src/entities/internal.rs","src/params/traits.rs"]+ZK+PROTO[:4],
 [("domain tags","every Hasher/XofHasher construction"),("length framing","src/tools/hashing.rs chain_bytes")],["hash outputs"])
p("C08","Secrets leave the process only in masked or encrypted form",
 "Secret key shares, Paillier and RSA private material, witnesses and masks flow into a message, a proof, a hash of public data, a log or debug output, or any other non-secret value only through the operations the protocol prescribes for it: encryption, commitment, a masked response, multiplication with a group generator, or the final signature share. There is no other conversion of a secret to a plain value.",
 ["inputs","programs"],"all code paths from a secret to an output",
 "A leak does not change any functional result, so functional tests cannot see it.",
 ["src/tools/secret.rs","src/uint/secret_signed.rs","src/uint/secret_unsigned.rs","src/paillier/keys.rs","src/paillier/rsa.rs"]+ZK+PROTO,
 [("secret wrapper with explicit exposure","src/tools/secret.rs"),("approved exposure sites","uses of expose_secret and of conversions to public integers")],["messages, proofs, logs"])
p("C09","Processing of secrets does not branch or index on their values",
 "Operations on secret integers, secret scalars and private keys execute no branch, no early exit, no memory access and no variable-time arithmetic whose course depends on the value of a secret. Only the bit-length bounds fixed by the parameters and values declared public may influence the course of a computation.",
 ["inputs","programs"],"all secret values, all operations on them",
 "Unit tests compare results, not instruction traces; the optional timing benchmark samples a few operations statistically and is not part of the tests.",
 ["src/uint/secret_signed.rs","src/uint/secret_unsigned.rs","src/uint/traits.rs","src/tools/secret.rs","src/paillier/keys.rs","src/paillier/rsa.rs","src/paillier/encryption.rs","src/curve/arithmetic.rs","src/params/conversion.rs"],
 [("constant-time selection and arithmetic","src/uint/*.rs, src/tools/secret.rs")],["control flow and memory access of secret-processing code"])
p("C10","Secret-holding types erase and never reveal their contents",
 "Every value that holds secret material is overwritten when it is dropped, and its debug or display representation shows a fixed redacted text whatever the content. A type that holds secrets holds them only inside the redacting, self-erasing wrapper, directly or through other such types.",
 ["programs","inputs"],"all types of the crate that hold secrets and all their values",
 "Memory contents after drop and formatting of every composite type are not observed by any test (one debug-format test exists for the wrapper).",
 ["src/tools/secret.rs","src/uint/secret_signed.rs","src/uint/secret_unsigned.rs","src/paillier/keys.rs","src/paillier/rsa.rs","src/entities/full.rs","src/entities/threshold.rs"],
 [("redacted Debug and zeroizing Drop","src/tools/secret.rs"),("composition of secret types","struct definitions")],["Debug output; memory after drop"])
p("C11","Signed integers never exceed their declared bound or wrap",
 "A signed integer carries a bound on its bit length, and every value obtained from a constructor, a decoder, sampling or arithmetic satisfies it. An operation whose result could exceed the capacity of the type fails loudly instead of wrapping, and the bound of a result covers every result possible for operands within their bounds.",
 ["inputs","histories"],"all values, bounds and sequences of operations",
 "Tests exercise selected small values; a bound that is off by one or not propagated shows only for extreme operands or after a chain of operations.",
 ["src/uint/secret_signed.rs","src/uint/public_signed.rs"],
 [("bound checks in constructors and arithmetic","src/uint/secret_signed.rs, src/uint/public_signed.rs")],["value and bound of results"],
 [("bound","number of bits the absolute value may occupy","SecretSigned.bound, PublicSigned.bound")])
p("C12","Paillier operations compute the published scheme",
 "Encrypting m with randomizer r under modulus N yields (1+N)^m r^N modulo N squared with m interpreted as a signed residue; adding, scaling, negating and re-randomizing ciphertexts act on the plaintext and the randomizer exactly as that formula says; decryption and randomizer recovery invert it for every plaintext in the signed interval and every randomizer. ",
 ["inputs"],"all keys, plaintexts (of both signs), randomizers and scaling factors",
 "Tests sample a few random plaintexts with small keys; mistakes at signs, extremes or with particular operand shapes are not sampled.",
 ["src/paillier/encryption.rs","src/paillier/keys.rs","src/paillier/rsa.rs"],
 [("encryption and homomorphic operations","src/paillier/encryption.rs"),("private-key operations","src/paillier/keys.rs, src/paillier/rsa.rs")],["ciphertexts and decrypted values"])
p("C13","Ciphertexts of different keys are never combined",
 "An operation on two ciphertexts, or on a ciphertext and a key, either finds that both belong to the same Paillier key or fails loudly; no result is ever computed from operands of different keys. A ciphertext keeps the key it was made for through every operation.",
 ["inputs","histories"],"all pairs of ciphertexts and keys",
 "Tests only combine ciphertexts of one key.",
 ["src/paillier/encryption.rs","src/zk/aff_g.rs","src/zk/aff_g_star.rs","src/zk/enc_elg.rs","src/zk/dec.rs"],
 [("key equality assertions","src/paillier/encryption.rs; src/zk/*.rs")],["ciphertext operations"])
p("C14","Ring-Pedersen parameters and commitments are well-formed",
 "A ring-Pedersen setup made by the crate has base t a random square modulo a product of two safe primes and s a secret power of t, with the exponent sampled below the group order; a commitment to (x, rho) is s^x t^rho modulo that number. Converting a setup to its wire form and back preserves modulus and both bases.",
 ["inputs"],"all setups and committed values, including negative ones",
 "Tests do not check the algebraic structure of setups; a non-square base or a swapped base in one overload verifies consistently between honest parties.",
 ["src/paillier/ring_pedersen.rs","src/paillier/rsa.rs"],
 [("setup generation and commitments","src/paillier/ring_pedersen.rs")],["setups; commitments"])
p("C15","Paillier and RSA key generation yields strong moduli",
 "Secret primes are generated from the caller's random generator with the exact size the parameters prescribe: for Paillier keys two independent primes congruent to 3 modulo 4, for ring-Pedersen setups two independent safe primes. All derived private values (totients, inverses, square-root and CRT coefficients) are computed from those two primes, and the public modulus is their product. Values restored from storage or from the wire pass through the same derivation.",
 ["inputs","configurations"],"all seeds and parameter sets",
 "Tests use a few tiny keys; a wrong derived value that is used only by one proof branch or a weaker kind of prime is not observed.",
 ["src/paillier/rsa.rs","src/paillier/keys.rs","src/paillier/params.rs"],
 [("prime generation and derived values","src/paillier/rsa.rs, src/paillier/keys.rs")],["key material"])
p("C16","Security parameters are mutually consistent, checked at build time",
 "For every scheme parameter set in the crate, the relations its security and correctness rest on (integer widths versus prime sizes, plaintext range versus exponent bounds and slack, curve order versus range bound, challenge size) are asserted at compile time, so that an inconsistent set does not build.",
 ["configurations"],"all scheme parameter sets, present or added",
 "Tests only run the tiny test parameter set; the production sets are not exercised at all.",
 ["src/params/traits.rs","src/params/dev.rs","src/params/k256.rs","src/paillier/params.rs"],
 [("const assertions","src/params/*.rs, src/paillier/params.rs")],["compilation"])
p("C17","Scalars and integers convert without changing value",
 "Converting a curve scalar to an integer (plain or signed) and back yields the same residue for every value, a negative integer converts to the negation of the scalar of its absolute value, the secret signed form of a scalar is its centred representative, and integers outside the scalar range are reduced modulo the group order rather than truncated. Serialization of scalars and points round-trips and rejects non-canonical or off-curve encodings. An operation on wrapped (secret or public) values is that of the wrapped type, whatever the form of its operands.",
 ["inputs"],"all scalars, all integers of every width and sign, all byte strings",
 "The single curve test round-trips one random scalar; conversions of extremes and of negative values are not covered.",
 ["src/params/conversion.rs","src/curve/arithmetic.rs","src/tools/secret.rs","src/uint/public_uint.rs"],
 [("conversions","src/params/conversion.rs, src/curve/arithmetic.rs")],["converted values"])
p("C18","Decoding rejects values that violate a type's invariants",
 "A value decoded from bytes satisfies the same invariants as one built by the type's constructors: integers within their declared bound, fixed sizes matched exactly, group elements canonical and valid, and no decoder aborts the process on bad input. A type with an invariant has no decoder that bypasses the check.",
 ["inputs"],"all byte strings fed to any decoder of the crate",
 "Tests only decode what the crate itself encoded (with two exceptions for integer bounds).",
 ["src/uint/public_signed.rs","src/uint/secret_signed.rs","src/uint/traits.rs","src/curve/arithmetic.rs","src/tools/bitvec.rs","src/tools/hashing.rs","src/paillier/rsa.rs","src/paillier/encryption.rs","src/paillier/ring_pedersen.rs","src/paillier/keys.rs"],
 [("validated deserialization","serde implementations")],["decoded values"])
p("C19","No remote input can make an honest party panic",
 "Whatever bytes another party sends, processing them ends in success or in a reported error attributed to the sender: no panic, overflow, out-of-range index or failed internal assertion is reachable from data received from the network.",
 ["inputs","histories"],"all messages at all rounds of all protocols",
 "Misbehaviour tests send a handful of hand-made bad messages; the space of malformed inputs is unbounded and the tests of the protocols do not even build here.",
 PROTO+ZK+["src/paillier/rsa.rs","src/paillier/ring_pedersen.rs","src/paillier/keys.rs","src/uint/public_signed.rs","src/tools/bitvec.rs"],
 [("error returns instead of panics","receive_message() and everything it calls")],["process survival"])
p("C20","Shared randomness and commitments are fixed before they are revealed",
 "In key initialization, auxiliary-data generation and key refresh, each party first broadcasts a hash committing to all of its later public contribution, and a revealed contribution is used only after it has been found to match the sender's earlier commitment in full. The commitment covers every field of the revealed data, the sender's identity and the session. The joint random value is the exclusive or of all the contributions, bit by bit.",
 ["schedules","inputs","histories"],"all orders of message arrival and all adversarial contributions",
 "Protocol tests are honest runs and a few misbehaviours; a field missing from the commitment hash is invisible to them.",
 ["src/protocols/key_init.rs","src/protocols/aux_gen.rs","src/protocols/key_refresh.rs","src/entities/internal.rs"],
 [("commit-reveal check","receive_message of the second rounds"),("commitment hash","PublicData::hash")],["acceptance of revealed data"])
p("C21","Every proof received from a peer is verified against that peer's statement",
 "In every protocol round that receives zero-knowledge proofs, each proof in the message is verified, with the statement, keys and setup belonging to the sender and to the receiver as prescribed and with auxiliary data naming the sender and the session, before the message is accepted. A message containing a proof that does not verify is rejected with an error attributed to its sender.",
 ["inputs","schedules"],"all received messages in all rounds of all protocols",
 "Misbehaviour tests corrupt a few proofs; wrong statement components in the check are invisible to honest runs only if both sides err alike, and skipped checks are always invisible.",
 PROTO,[("proof verification at receipt","receive_message / finalize in src/protocols/*.rs")],["acceptance of messages"])
p("C22","Fault evidence is conclusive and never frames an honest party",
 "Whenever a party reports a provable fault, a third party re-evaluating the attached messages reaches the same verdict: evidence for a failed check is accepted exactly when the receiver's own check on the same messages fails, with the same inputs. No sequence of messages an honest party would send can be turned into acceptable evidence against it.",
 ["inputs","histories"],"all messages, all faults, all accusers",
 "Misbehaviour tests check that one corrupted message per error yields some verifiable evidence; they do not try to accuse an honest party.",
 PROTO[:3]+[PROTO[4]],[("evidence verification","verify_messages_constitute_error in src/protocols/*.rs"),("the mirrored check","receive_message in src/protocols/*.rs")],["verdict on evidence"])
p("C23","Evidence is checkable from the messages it declares",
 "For every provable fault, the messages declared as required for its verification include every message (of every round and kind) its verification reads, and each is decoded as the type that was sent in that message. Evidence verification never fails for lack of a message or by decoding a message as another type.",
 ["inputs","histories"],"all fault kinds of all protocols",
 "Only some fault kinds have a misbehaviour test.",
 PROTO[:3]+[PROTO[4]],[("required message tables","required_messages in src/protocols/*.rs")],["verdict on evidence"])
p("C24","Messages indexed by party contain exactly the expected parties",
 "Every per-party table received in a message is checked to have entries for exactly the prescribed set of parties before any entry is used, so no required entry is silently skipped and no surplus entry is accepted.",
 ["inputs"],"all per-party tables received in any round",
 "Honest runs always send full tables; a partial table is sent only by an adversary.",
 PROTO,[("party set checks","receive_message in src/protocols/*.rs")],["acceptance of messages"])
p("C25","Only prescribed message parts are accepted in each round",
 "In each round a party accepts exactly the message parts (echo broadcast, plain broadcast, direct message) that the round prescribes: a prescribed part is decoded and used, any part that is not prescribed leads to rejection, and the tables used to judge invalid messages of a round agree with what the round sends.",
 ["inputs","schedules"],"all rounds of all protocols",
 "Tests send only what rounds prescribe.",
 PROTO,[("assertions on absent parts","receive_message, verify_*_is_invalid in src/protocols/*.rs")],["acceptance of messages"])
p("C26","A signature is released only after it has been verified",
 "The signing protocol returns a signature only if it verifies for the given message digest under the joint public key, and the returned signature is in low-s form with a recovery identifier that recovers exactly that key. A signature share is published only after all the checks on the presigning data have succeeded.",
 ["inputs","schedules"],"all messages, keys, parties and adversarial contributions",
 "Tests verify the outcome of honest runs only.",
 ["src/protocols/interactive_signing.rs","src/curve/ecdsa.rs"],[("final verification","last rounds of src/protocols/interactive_signing.rs"),("normalization and recovery","src/curve/ecdsa.rs")],["returned signature"])
p("C27","Key shares and auxiliary data are mutually consistent when used",
 "Protocols that combine a key share, auxiliary data and a set of parties start only after checking that the owner is the local party and that the party sets agree, and combinations of key shares with changes from a refresh are made only between the same owner and the same set of parties. Public shares recorded for a party always correspond to that party's secret share.",
 ["inputs","configurations"],"all combinations of key shares, auxiliary data and party sets",
 "Tests combine only matching data.",
 ["src/entities/full.rs","src/entities/threshold.rs"]+PROTO,[("consistency checks","entry points and entity constructors")],["errors at construction; resulting shares"])
p("C28","Threshold shares interpolate to the shared secret and key",
 "Splitting a secret with threshold t uses a random polynomial of degree exactly t-1 whose constant term is the secret, gives each party its value at a distinct non-zero point, and the interpolation coefficients used for reconstruction, conversion to additive shares and resharing are the Lagrange coefficients at zero over exactly the participating points. The group-element versions follow the same formulas.",
 ["inputs","configurations"],"all thresholds, party sets and secrets",
 "The tests use one threshold and party set, and do not build here.",
 ["src/tools/sss.rs","src/entities/threshold.rs","src/protocols/key_resharing.rs"],[("polynomials and interpolation","src/tools/sss.rs")],["reconstructed secret and key"])
p("C29","Derived session identifiers bind parameters, parties and randomness",
 "The identifiers that bind proofs to a protocol run are hashes over the scheme parameters, the session randomness, the full set of participants and, where it applies, the public key shares and the public auxiliary data, and every proof and commitment made in a run includes such an identifier and the identity of its maker.",
 ["inputs","histories"],"all sessions, party sets and parameter sets",
 "A proof replayed from another session, party or parameter set is never tried by tests.",
 ["src/entities/internal.rs","src/params/traits.rs","src/entities/full.rs"]+PROTO,[("session id derivation","src/entities/internal.rs; src/protocols/interactive_signing.rs"),("auxiliary data of proofs","src/protocols/*.rs")],["hash inputs"])
p("C30","Random values come only from the caller's generator, within range",
 "Every random value in the crate is drawn from the generator supplied by the caller (or expanded from a hash where the protocol prescribes it), uniformly over the interval its documentation states: symmetric intervals for signed values with the scale applied exactly once, invertible residues for randomizers, non-zero scalars where required.",
 ["inputs"],"all generators and all sampled quantities",
 "A biased, truncated or half-sized range passes every functional test.",
 ["src/uint/secret_signed.rs","src/uint/public_signed.rs","src/paillier/rsa.rs","src/paillier/encryption.rs","src/curve/arithmetic.rs","src/tools/hashing.rs","src/uint/traits.rs"],
 [("samplers","random_* functions; *_from_xof_reader")],["sampled values"])
p("C31","Child key derivation matches between shares and public key",
 "For every derivation path, applying the derived tweak to the parties' secret shares and to the public verifying key gives matching results: the sum or interpolation of derived secret shares is the secret of the derived public key, each step adding the tweak of that step to the result of the previous one.",
 ["inputs"],"all derivation paths and key shares",
 "One fixed path is tested, and that test does not build here.",
 ["src/curve/bip32.rs","src/entities/full.rs","src/entities/threshold.rs"],[("tweak derivation and application","src/curve/bip32.rs and derive_bip32 functions")],["derived keys"])
p("C32","Key refresh and resharing preserve the joint key",
 "A key refresh changes shares by amounts that sum to zero, and resharing distributes a new sharing of the same secret; in both, an honest party accepts contributions only after checking this against public data (sum of changes is the identity, evaluations match the published polynomial, the resulting public key equals the expected one).",
 ["inputs","schedules"],"all adversarial contributions and party sets",
 "Only honest runs check the outcome.",
 ["src/protocols/key_refresh.rs","src/protocols/key_resharing.rs","src/entities/full.rs"],[("checks on contributions","receive_message/finalize of src/protocols/key_refresh.rs and key_resharing.rs")],["joint public key after the protocol"])
p("N01","Honest protocol runs terminate with agreeing outputs",
 "When all parties follow the protocol, every schedule of message delivery leads every party to finish with mutually consistent outputs, and dropping or delaying messages never yields inconsistent outputs.",
 ["schedules","fault_sequences"],"all delivery schedules and party counts",
 "Tests run one in-process schedule, and do not build here.",
 PROTO,[("round state machines","src/protocols/*.rs")],["protocol outputs"])
p("N02","Sampled values are statistically indistinguishable from uniform",
 "Sampled masks and keys have the statistical distance from the prescribed distribution that the security proof requires.",
 ["inputs"],"output distributions of all samplers","Distributions cannot be settled by a handful of samples.",
 ["src/uint/secret_signed.rs","src/tools/hashing.rs"],[("samplers","random_* functions")],["distribution of outputs"])
p("N03","Compiled code runs in constant time on the target machine",
 "The machine code produced for secret-processing operations has execution time independent of the secrets on supported targets.",
 ["inputs","configurations"],"all compilers, optimization levels and machines","No test measures time.",
 ["src/uint/secret_signed.rs","src/paillier/encryption.rs"],[("constant-time primitives of the dependencies","crypto-bigint, elliptic-curve")],["execution time"])
p("N04","Verification equations are sound under the stated assumptions",
 "The proof systems as specified are sound and zero-knowledge under strong RSA, DCR and DDH in the random-oracle model.",
 ["inputs"],"all provers","A cryptographic reduction, not a program fact that tests can sample.",
 ZK,[("proof systems","src/zk/*.rs")],["-"])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
print(len(P))
