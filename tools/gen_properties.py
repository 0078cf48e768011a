#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Encryption round-trips through every decryption path",
  "For every message in the scalar field and each supported chunk size (4, 8 and 16 bits), decrypting an honestly made ciphertext with the matching keys returns exactly that message. Every decryption entry point - plain or prepared keys, with or without precomputed pairing powers, given generators or a SNARK verification key, as a whole message or as chunks - returns the same result. The randomness commitment handed back with the plaintext is the ciphertext's randomness element multiplied by the secret key, so that it pairs consistently with the public decryption key.",
  ["inputs", "configurations"], "all messages, chunk sizes 4/8/16, all keys, all entry points",
  "The tests decrypt one fixed-seed random chunk vector per chunk size, never call the whole-message API, never look at the returned randomness commitment and never see edge values such as 0, 1, p-1 or the largest chunk at every position.",
  ["src/encryption.rs", "src/utils.rs", "src/keygen.rs"],
  [("encrypt / encrypt_decomposed_message / encrypt_given_snark_vk", "src/encryption.rs"), ("decrypt* and brute-force discrete log", "src/encryption.rs"), ("decompose/compose", "src/utils.rs")],
  [("Ciphertext", "X_r, encrypted chunks, commitment", "src/encryption.rs"), ("DecryptionKey", "V_0, V_1, V_2", "src/keygen.rs")],
  ["return values of every public encrypt/decrypt function"])

p("C02", "A ciphertext is exactly the scheme's encryption under the returned randomness",
  "Every component of a ciphertext - the randomness element, each encrypted chunk and the commitment - is exactly the value the scheme prescribes for the message's chunks, the encryption key, the generators and the randomness scalar that encryption hands back. This holds for every encryption entry point, every chunk value and every key shape, whichever party or group made the key. Components come in the same order as the message's chunks, most significant first.",
  ["inputs", "configurations"], "all messages and chunk vectors, all well-shaped keys, all randomness",
  "The tests never recompute a ciphertext; an error that cancels between encryption and verification or decryption is invisible to them.",
  ["src/encryption.rs", "src/saver_groth16.rs"],
  [("encrypt_decomposed_message", "src/encryption.rs"), ("commitment_key", "src/keygen.rs")],
  [("r", "randomness scalar returned to the caller", "src/encryption.rs")],
  ["ciphertext and randomness returned by every encrypt function"])

p("C03", "Decryption never returns a wrong plaintext",
  "For arbitrary, possibly hostile, ciphertexts and keys of compatible shape, decryption returns chunk values only if each of them is the value the ciphertext encodes under those keys and lies within the requested chunk range (both ends included); otherwise it returns an error. Out-of-range, negative or unrelated chunk values and wrong secret or decryption keys therefore yield errors and never some other in-range value. Decryption with the ordinary key, with precomputed powers and after re-encryption all obey this, for every chunk width up to 16 bits.",
  ["inputs"], "all ciphertexts (honest or not), all key combinations, chunk widths 1..16",
  "The tests only decrypt honest ciphertexts with the right keys, so neither the boundary of the searched range nor any rejection is exercised.",
  ["src/encryption.rs"],
  [("decrypt_to_chunks_given_pairing_powers", "src/encryption.rs"), ("decrypt_to_chunks_after_re_encryption", "src/encryption.rs"), ("solve_discrete_log*", "src/encryption.rs")],
  [], ["Ok/Err and chunk values returned by decryption"])

p("C04", "Distributed key generation equals one dealer holding the summed secrets",
  "For any number of parties, the encryption key assembled from their partial keys and shares is exactly the key a single dealer would publish who holds the sum of all parties' secrets, component by component. The result does not depend on the order in which partial keys or shares are combined, and every party computes the same key. Each party's partial key and share match its own secrets exactly, and no party's contribution is dropped, repeated or altered.",
  ["inputs", "schedules", "configurations"], "all party counts, all arrival orders of partial keys and shares, all secrets and chunk sizes",
  "The tests use two parties in one order with one seed and check only vector lengths of the combined key.",
  ["src/keygen.rs"],
  [("FkeygenPartial", "src/keygen.rs"), ("combineEKs", "src/keygen.rs"), ("genP1share / combineP1share", "src/keygen.rs"), ("keygenFinal", "src/keygen.rs")],
  [("SecretKeyST", "a party's secrets s and t", "src/keygen.rs"), ("FEncryptionKeyPartial", "a party's public contribution", "src/keygen.rs")],
  ["keys and shares returned by the key generation functions"])

p("C05", "Group-encrypted messages re-encrypt and decrypt for the destination",
  "For any number of parties and any message, a ciphertext under the group key, once every party has contributed its re-encryption share, decrypts under the destination's secret key to exactly the original chunks. The shares can be combined in any order or grouping with the same result. Each share is exactly the negated party mask on the ciphertext plus the destination blinding announced next to it, and combining changes nothing else.",
  ["inputs", "schedules", "configurations"], "all party counts, share orders and groupings, messages, chunk sizes, destination keys",
  "The tests run two parties, one share order, 4-bit chunks and one seed.",
  ["src/encryption.rs", "src/keygen.rs"],
  [("re_encrypt_share", "src/encryption.rs"), ("combine_re_encrypt_share", "src/encryption.rs"), ("combine_ct_with_w", "src/encryption.rs"), ("decrypt_to_chunks_after_re_encryption", "src/encryption.rs")],
  [("w, g_r", "re-encryption share and its randomness", "src/encryption.rs")],
  ["shares, re-encrypted ciphertext, decrypted chunks"])

p("C06", "Nothing opens without every party's share and the destination key",
  "A ciphertext under a group key does not decrypt to its message if any party's share is missing, repeated in place of another's, made by an outsider, made for a different ciphertext or addressed to a different destination. It does not decrypt with a secret key other than the destination's, nor does any single share, or the original or half-processed ciphertext, expose the message or an unblinded party mask. Decryption reports an error in these cases.",
  ["inputs", "histories", "fault_sequences"], "all party counts, all proper subsets of shares, all substitutions of one share or key",
  "No test attempts a decryption that ought to fail.",
  ["src/encryption.rs", "src/keygen.rs"],
  [("re_encrypt_share blinding with fresh randomness", "src/encryption.rs"), ("combineEKs sums every party's secrets", "src/keygen.rs")],
  [], ["Ok/Err of decryption after incomplete or wrong re-encryption", "the shares themselves"])

p("C07", "Adding ciphertexts adds their messages",
  "The sum of any number of ciphertexts under one key, in any order, decrypts chunk by chunk to the sums of their chunks, both with an ordinary secret key and after distributed re-encryption, provided the sums fit in the range searched. A sum that does not fit yields an error, never a wrapped or truncated value. The sum is itself a well-formed ciphertext whose randomness is the sum of the randomness values, and it passes commitment verification.",
  ["inputs", "histories"], "all tuples of ciphertexts, addition orders, chunk values up to overflow of the searched range",
  "The tests add one pair of ciphertexts and compare a single chunk (index 4) of the result.",
  ["src/encryption.rs"],
  [("add_cts", "src/encryption.rs"), ("decrypt_to_chunks_after_re_encryption with a wider chunk size", "src/encryption.rs")],
  [], ["summed ciphertext components, decrypted chunk sums"])

p("C08", "Commitment verification accepts exactly the consistent ciphertexts",
  "Verifying a ciphertext's commitment succeeds if and only if the commitment equals the combination of the ciphertext's own components that the encryption key's verification elements prescribe. Every honest ciphertext, for single-dealer and group keys alike, is accepted; changing, exchanging, dropping or adding any component, or verifying under another key or other generators, is rejected. Plain and prepared parameters give the same verdict.",
  ["inputs"], "all ciphertexts, honest or tampered, all keys and generators",
  "The tests only verify honest ciphertexts: a verifier that always accepts would pass them.",
  ["src/encryption.rs", "src/keygen.rs", "src/setup.rs"],
  [("verify_ciphertext_commitment / verify_commitment", "src/encryption.rs"), ("pairing operands", "src/encryption.rs")],
  [], ["verdict returned by verification"])

p("C09", "Batch verification is sound and complete",
  "Verifying a batch of ciphertexts with given weights succeeds if and only if the weighted combination of the individual commitment equations holds. So a batch of valid ciphertexts of any size is accepted for every choice of weights, and a batch with one or more invalid ciphertexts with non-zero random weights is rejected wherever the invalid ones stand. A batch of one agrees with individual verification.",
  ["inputs"], "all batch sizes, positions and kinds of invalid members, all weights",
  "Batch verification is never called by a test.",
  ["src/encryption.rs"],
  [("verify_commitments_in_batch", "src/encryption.rs")],
  [], ["verdict returned by batch verification"])

p("C10", "Proofs of encryption verify exactly when they should",
  "For every message, chunk size and single-dealer or group key, the proof made together with a ciphertext is accepted with it. Joint verification of proof and commitment rejects any pair in which the proof was altered (other than by re-randomising it) or made for another message, randomness, ciphertext, key or SNARK setup, in which any component of the ciphertext was altered, exchanged or dropped, or in which an encrypted chunk exceeds the chunk size. Proof verification alone accepts, for a ciphertext with one component per chunk, exactly when the SNARK pairing equation holds for the proof and the sum of the ciphertext's components, and each proof is freshly randomised.",
  ["inputs", "configurations"], "all messages, keys, SRSs; all tampering of proof and ciphertext; all dishonest witnesses",
  "The tests only verify honest proofs with one seed and 4-bit chunks; no rejection is tested and joint verification is never called.",
  ["src/saver_groth16.rs", "src/encryption.rs", "src/circuit.rs"],
  [("create_proof", "src/saver_groth16.rs"), ("verify_proof / verify_qap_proof / calculate_d", "src/saver_groth16.rs"), ("verify_commitment_and_proof", "src/encryption.rs"), ("encrypt_with_proof", "src/encryption.rs")],
  [], ["proof, verdicts"])

p("C11", "The range circuit is satisfied exactly by in-range values",
  "For every bit size and number of values, the circuit's constraints are satisfied by the honest assignment if and only if every value is below two to the bit size, and by no altered assignment when some value is not. Its shape - counts of constraints and of public and private variables - depends only on the bit size, the number of values and their visibility, not on the values or whether they are known. Values appear in order as the first public (or private) variables.",
  ["inputs", "configurations"], "all bit sizes, value counts, visibilities, values around the bound, adversarial witness assignments",
  "The circuit is only ever synthesised with in-range values; no test checks that a single out-of-range value is refused.",
  ["src/circuit.rs"],
  [("BitsizeCheckCircuit::generate_constraints", "src/circuit.rs")],
  [], ["satisfiability and shape of the synthesised constraint system"])

p("C12", "Chunk decomposition is a faithful, canonical encoding",
  "For every element of the scalar field and each supported chunk size, decomposition yields exactly as many chunks as the advertised chunk count, most significant first, each within the chunk size, and is the positional representation of the element's canonical integer. Recomposition inverts decomposition and maps every in-range chunk sequence to its positional value modulo the field order, while chunks outside the chunk size and malformed lengths are refused. Chunk sizes other than 4, 8 and 16 bits are refused in both directions.",
  ["inputs"], "all field elements, all chunk sequences including out-of-range ones, all 256 chunk sizes",
  "No test calls decomposition or recomposition with an expected value.",
  ["src/utils.rs"],
  [("decompose", "src/utils.rs"), ("compose", "src/utils.rs"), ("chunks_count", "src/utils.rs")],
  [], ["returned chunks / field elements / errors"])

p("C13", "The chunked commitment is the Pedersen commitment to the whole message",
  "For every message, blinding and supported chunk size, the chunked commitment equals the plain Pedersen commitment to the message with the same blinding over the same two generators, whether the commitment key is computed on the fly or passed in. The commitment key, for every chunk width from 1 to 255 bits, holds one generator multiple per chunk - descending powers of the chunk radix - followed by the blinding generator. Commitments of the same message and blinding under different chunk sizes are therefore equal, and sums of commitments commit to sums.",
  ["inputs"], "all messages, blindings, generators and chunk sizes",
  "Only the equality of two key-derivation routines is tested; no commitment is ever computed in a test.",
  ["src/commitment.rs"],
  [("ChunkedCommitment::new / get_commitment_given_commitment_key", "src/commitment.rs"), ("commitment_key", "src/commitment.rs")],
  [], ["commitment and key returned"])

p("C14", "Stored objects come back identical and hostile encodings are refused",
  "Every serialisable key, share, ciphertext, generator set, commitment, proof key and multiplication table survives encoding and decoding unchanged, through compressed and uncompressed canonical form and through serde, where each curve or field element is written as its canonical compressed bytes. Decoding refuses truncated data, non-canonical field elements, and points off the curve or outside the prime-order subgroup, in every field of every object. No input makes decoding panic.",
  ["inputs"], "all objects, all byte strings and JSON documents offered for decoding",
  "The serialisation tests are commented out; nothing is ever decoded.",
  ["src/serde_utils.rs", "src/keygen.rs", "src/encryption.rs", "src/setup.rs", "src/commitment.rs", "src/saver_groth16.rs", "src/utils.rs"],
  [("AsCanonical serialize/deserialize", "src/serde_utils.rs"), ("derived canonical serialisation", "src/keygen.rs")],
  [], ["bytes/JSON produced, objects or errors returned"])

p("C15", "Generators derive deterministically from the whole label",
  "The generators derived from a label are the same in every run and process for the same label and hash function, are valid non-identity elements of the prime-order groups, and follow the published hash-and-retry derivation. Labels that differ in any byte or in length give unrelated generators, and the generators of one label differ from each other. Hashing to a group or field element succeeds for every byte string and every hash function whose output is eventually valid.",
  ["inputs", "configurations"], "all labels, all hash functions, any number of failed attempts before success",
  "One test compares three short labels; retries, long labels and subgroup membership are not examined.",
  ["src/setup.rs", "src/utils.rs"],
  [("EncryptionGens::new / ChunkedCommitmentGens::new", "src/setup.rs"), ("*_from_try_and_incr", "src/utils.rs")],
  [], ["generators returned; sequence of hash inputs"])

p("C16", "Malformed shapes are reported as errors, never accepted or a panic",
  "Every operation that can report an error does so - without panicking, accepting or returning a truncated result - when keys, ciphertexts, shares, generator vectors, precomputed tables, batches or chunk sizes have missing, extra or mismatched parts. Key validation and the reported chunk count accept exactly the keys whose vectors have consistent lengths (up to 255 chunks) and report the true count. Well-shaped inputs are never refused for their shape.",
  ["inputs", "fault_sequences"], "all ways of shortening, lengthening or mismatching each vector argument of each fallible operation; all 256 chunk sizes",
  "No test passes a malformed argument.",
  ["src/encryption.rs", "src/keygen.rs", "src/saver_groth16.rs", "src/utils.rs", "src/commitment.rs"],
  [("length checks before use", "src/encryption.rs"), ("supported_chunks_count / validate", "src/keygen.rs"), ("SaverError", "src/error.rs")],
  [], ["Ok/Err/panic of every fallible operation"])

p("C17", "Results do not depend on threads, schedules, build mode or call history",
  "Every operation is a function of its arguments and the random numbers it is given: the serial and the parallel build, any number of worker threads, concurrent callers sharing the same keys, and any order of earlier calls all produce bit-identical keys, ciphertexts, proofs, shares and verdicts. Operations never modify their inputs. Concurrent use is free of data races.",
  ["schedules", "histories", "configurations"], "all interleavings, worker counts, build features and call orders",
  "The tests run one build, one thread count and one call order, and compare nothing between runs.",
  ["src/encryption.rs", "src/keygen.rs", "src/saver_groth16.rs", "src/setup.rs", "src/utils.rs", "src/macros.rs"],
  [("cfg_iter!/cfg_into_iter! data-parallel loops", "src/keygen.rs"), ("parallel and no_std features", "src/lib.rs"), ("join!", "src/macros.rs")],
  [], ["transcripts of all outputs per build, thread count and history"])

p("C18", "Secret keys are wiped from memory when dropped",
  "When a secret key of any kind - single-dealer, destination or a party's share of the group secret - is dropped or explicitly wiped, every word of its secret scalars is overwritten, on the heap as well as in place. This holds for clones, for deserialised keys and for keys dropped during unwinding. Using a key by reference never wipes or alters it.",
  ["inputs", "histories", "crash_points"], "all keys, all ways a key ends its life (drop, move, unwind, explicit wipe)",
  "No test looks at memory after a key is gone.",
  ["src/keygen.rs"],
  [("Zeroize/ZeroizeOnDrop on secret key types", "src/keygen.rs")],
  [("SecretKey, SecretKeyST", "secret scalars", "src/keygen.rs")],
  ["memory of the dropped value and every heap block freed by the drop"])

p("C19", "Generated key sets and setups are internally consistent",
  "For every chunk size, the encryption key, decryption key and secret key produced together satisfy all the pairing relations the scheme relies on, against the generators and SNARK parameters they were made for, and have one component per chunk. The SNARK setup's parameters are consistent with the encryption generators, including the negated gamma element. Per-chunk secrets are independent: no two components of a key coincide or vanish.",
  ["inputs", "configurations"], "all chunk sizes, generators, SNARK parameters and randomness",
  "The tests check vector lengths only, or one end-to-end decryption per chunk size.",
  ["src/keygen.rs", "src/setup.rs", "src/saver_groth16.rs"],
  [("keygen", "src/keygen.rs"), ("setup_for_groth16", "src/setup.rs"), ("generate_srs", "src/saver_groth16.rs")],
  [], ["keys and SRS returned"])

p("C20", "Precomputation and prepared forms never change a value",
  "A prepared key or generator set represents the same elements as the one it was made from, each entry of a precomputed pairing-power table is the stated multiple of the stated pairing, and windowed multiplication of a fixed element gives the exact product for every scalar and every table size. Tables have one row per chunk and one entry per non-zero chunk value. Using them gives the same results as computing directly.",
  ["inputs", "configurations"], "all keys, scalars (including 0, 1 and the largest), table sizes and chunk sizes",
  "The tests compare lengths and one decryption; windowed multiplication is never compared with direct multiplication.",
  ["src/keygen.rs", "src/utils.rs", "src/setup.rs"],
  [("pairing_powers", "src/keygen.rs"), ("WindowTable / multiply_field_elems_with_same_group_elem", "src/utils.rs"), ("From conversions to prepared keys", "src/keygen.rs")],
  [], ["tables, products, prepared elements"])

p("C21", "Secrets and blinding are fresh and full-strength in every call",
  "Every randomised operation - key generation of each kind, setup, encryption, proving, making a re-encryption share - draws its secrets afresh from the supplied random source on every call, so that two calls never share a secret-derived component and no secret is reused for two roles within a call. The secret scalars are spread over the whole field. With the same random source in the same state the operation gives the same result, whatever was called before.",
  ["inputs", "histories"], "all sequences of calls on one or several random sources, all messages",
  "Fixed-seed tests call each operation once or twice and compare nothing, so constant or message-derived randomness passes.",
  ["src/keygen.rs", "src/encryption.rs", "src/saver_groth16.rs", "src/setup.rs"],
  [("scalar sampling from the caller's RNG", "src/keygen.rs"), ("randomness in encrypt, re_encrypt_share, create_proof", "src/encryption.rs")],
  [], ["every returned scalar and group element, per call"])

p("C22", "Exported combinators evaluate every expression once and keep the order",
  "In every build and in a thread pool of any size, join! evaluates each of its one to six expressions exactly once and returns their values in the order written, whatever their types and however long each takes; expressions may work on separate parts of the same data and may contain joins of their own, and a panic in one of them reaches the caller and leaves nothing behind. concat_slices! evaluates each argument once and gives the concatenation of the slices in the order written, empty and repeated ones included. Wrappers made with impl_deref! read and write the value they wrap, and the iterator type macros stand for iterators over the same items in every build.",
  ["inputs", "schedules", "configurations"], "all numbers of expressions, types, run times, thread counts and builds",
  "The tests join constants, so neither a second evaluation, nor another order of work, nor a panic is visible; concat_slices!, impl_deref! and the iterator macros have no tests.",
  ["src/macros.rs"],
  [("join! / unnest_tuple!", "src/macros.rs"), ("concat_slices!", "src/macros.rs"), ("impl_deref!", "src/macros.rs"), ("impl_iter! / impl_into_iter!", "src/macros.rs")],
  [], ["values returned, evaluation log, data behind borrowed parts"])

p("C23", "Histories of the whole protocol deliver exactly what was sent",
  "In any history of the protocol - generators, groups and destinations set up, keys generated with the parties' messages in any order, ciphertexts made, proved, verified, added before or after re-encryption, shares made, combined in stages or taken from the shares of summands, one object delivered to several destinations, and any object stored and restored on the way, in any interleaving - every object keeps holding exactly the sums sent into it: its commitment verifies alone and in a batch under its group's key and under no other group's, its proof verifies with it and with no other ciphertext, and what reaches its destination opens to exactly the integer sums of the messages (an error once a sum exceeds the chunk width), while nothing opens with a share missing or with another destination's key.",
  ["inputs", "histories", "schedules"], "all interleavings of all operations over several groups and destinations",
  "Each test follows one fixed script with one group and one message; an operation that damages what a later one needs, or that only fails on an object with a particular past, is invisible to it.",
  ["src/encryption.rs", "src/keygen.rs", "src/saver_groth16.rs", "src/commitment.rs", "src/setup.rs", "src/serde_utils.rs"],
  [("Enc::encrypt_decomposed_message", "src/encryption.rs"), ("Enc::add_cts", "src/encryption.rs"), ("Enc::re_encrypt_share", "src/encryption.rs"), ("Enc::combine_re_encrypt_share", "src/encryption.rs"), ("Enc::combine_ct_with_w", "src/encryption.rs"), ("Enc::decrypt_to_chunks_after_re_encryption", "src/encryption.rs"), ("FkeygenPartial", "src/keygen.rs"), ("create_proof", "src/saver_groth16.rs")],
  [], ["decrypted chunks", "verdicts", "ciphertext components", "restored objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
