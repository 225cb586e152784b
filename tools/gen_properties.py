#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Any quorum of t+1 or more signers produces one valid Ed25519 signature",
  "For every threshold t, every set of party identifiers, every signer subset of size at least t+1 and every message, a run in which all messages are delivered ends without error at every signer, and all signers obtain the same signature. That signature is accepted by the standard Ed25519 verifier under the group key's Ed25519 form and by the library's own verifier. The same key shares can be used for any number of signings.",
  ["configurations", "inputs", "histories"], "all (n,t), identifier sets, signer subsets >= t+1, messages, key origins (dealer or DKG)",
  "The suite signs once, with n=50, t=49, identifiers 1..n, one message, dealer-generated keys; no strict subset of the parties and no sparse identifiers are ever used.",
  ["pkg/frost/sign/base.go", "pkg/frost/sign/round0.go", "pkg/frost/sign/round1.go", "pkg/frost/sign/round2.go", "pkg/frost/party/id.go", "pkg/eddsa/signature.go"],
  [("Lagrange-normalised additive shares", "sign.NewRound"), ("binding factors, challenge, share computation", "sign round1.GenerateMessages"), ("share aggregation and final verification", "sign round2.GenerateMessages")],
  observe=["sign.Output.Signature", "State.WaitForError", "crypto/ed25519.Verify"])

p("C02", "No signature is released unless it verifies, and t or fewer cannot sign",
  "A signing session exposes a signature only if the session ended without error and the signature verifies for the session's message under the group key. A session run by t or fewer of the key holders ends with an error at every signer and exposes no signature. An unfinished or failed session exposes no signature.",
  ["configurations", "histories", "fault_sequences"], "all (n,t), all signer subsets of size <= t, all prefixes of a run, all message corruptions in the fault menu",
  "No test runs a signing below the threshold or looks at the output of an unfinished or failed session.",
  ["pkg/frost/sign/round2.go", "pkg/frost/sign/base.go", "pkg/eddsa/public_key.go"],
  [("final verification before the output is set", "sign round2.GenerateMessages")],
  observe=["sign.Output.Signature", "State.WaitForError"])

p("C03", "Key generation gives all parties consistent shares of one key with threshold t",
  "When distributed key generation completes among honest parties, all of them hold the same public data (parties, threshold, public shares, group key), each party's secret share matches its own public share, and any t+1 secret shares interpolate to the discrete logarithm of the group key. No t shares do, and the group key is the sum of all parties' independent contributions.",
  ["configurations", "inputs"], "all (n,t) and identifier sets in the bound; all t- and (t+1)-subsets; all randomness streams in the menu",
  "The suite runs one DKG (n=50, t=25, identifiers 1..n) and interpolates only the full set, so the degree of the sharing and sparse identifiers are never examined.",
  ["pkg/frost/keygen/base.go", "pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go", "pkg/internal/polynomial/polynomial.go", "pkg/internal/polynomial/exponent.go"],
  [("Feldman sharing and commitment sum", "keygen rounds 0-2")], observe=["keygen.Output.Public", "keygen.Output.SecretKey"])

p("C04", "Every delivery order completes the protocol with the same result",
  "If every message sent by the honest parties is eventually handed once to its recipients, then every key generation and signing run completes successfully at every party, whatever the order in which messages arrive and however arrivals interleave with processing, including messages that arrive for a later round, or before the recipient has started. Processing once after each arrival (and once to start) is enough. What a party sends and outputs does not depend on the order.",
  ["schedules", "histories"], "all interleavings of deliveries and processing steps, for one party against its environment and for the product of all parties in the bound",
  "Tests deliver each round in lock-step, in one order, with everyone started first; a message is never early.",
  ["pkg/state/state.go", "pkg/helpers/parties.go"],
  [("receivedMessages for the current round and queue for later rounds", "State.HandleMessage / State.ProcessAll")],
  state=[dict(name="receivedMessages", meaning="messages of the current round by sender", where="pkg/state/state.go"), dict(name="queue", meaning="messages of later rounds", where="pkg/state/state.go")],
  observe=["State.HandleMessage result", "messages returned by State.ProcessAll", "outputs"])

p("C05", "Duplicates, strays and conflicting repeats never affect a session",
  "At any point of a session, a message that is a repeat of one already accepted from the same sender for the same round (even with different contents), belongs to a round already completed, is of another protocol, comes from a non-participant or from the party itself, or is addressed to someone else, changes nothing: the session later sends and outputs exactly what it would have without it. The first acceptable message per sender and round is the one used. Repeats, wrong kinds and non-participants are reported to the caller as errors that name the round and the sender correctly where they name them; a party's own or other parties' messages are silently ignored.",
  ["histories", "fault_sequences"], "all histories in the bound, with every stray message kind injected at every point, singly and in pairs",
  "Tests never inject a repeated, conflicting, stray, late or foreign message.",
  ["pkg/state/state.go"], [("admission checks", "State.HandleMessage")],
  observe=["State.HandleMessage result", "messages returned by State.ProcessAll", "outputs"])

p("C06", "Cheating during key generation is detected and blamed on the cheater",
  "If a participant's key generation messages to an honest party are invalid (a proof of knowledge that does not verify or was copied from someone else, commitments of the wrong degree, or a share inconsistent with the sender's commitments), that honest party aborts with an error naming that participant, releases no key material and sends nothing further. Honest participants are never blamed, and any honest party that does complete holds a secret share matching the public data it outputs.",
  ["fault_sequences", "configurations"], "every fault of the menu at every sender, round and recipient, singly and in pairs, in every processing order",
  "No test has a misbehaving participant.",
  ["pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go", "pkg/internal/zk/schnorr.go", "pkg/internal/polynomial/exponent.go", "pkg/state/state.go"],
  [("proof verification", "keygen round1.ProcessMessage"), ("Feldman share check", "keygen round2.ProcessMessage"), ("culprit attribution", "state.NewError")],
  observe=["State.WaitForError", "state.Error.PartyID", "keygen.Output"])

p("C07", "Cheating during signing is detected and blamed on the cheater",
  "If a signer broadcasts an identity commitment or a signature share that is not the one determined by its commitments and key share, every honest signer aborts with an error naming that signer and releases no signature; this also holds when several cheaters' errors cancel out in the total. Honest signers are never blamed. Faulty messages never lead to a signature that fails verification.",
  ["fault_sequences", "configurations"], "every fault of the menu at every signer, singly and in colluding pairs, for every (n,t), in every processing order",
  "No test has a misbehaving signer.",
  ["pkg/frost/sign/round1.go", "pkg/frost/sign/round2.go", "pkg/state/state.go"],
  [("identity check", "sign round1.ProcessMessage"), ("share verification", "sign round2.ProcessMessage")],
  observe=["State.WaitForError", "state.Error.PartyID", "sign.Output"])

p("C08", "No bytes received from the network can crash or wedge a party",
  "Decoding arbitrary bytes as a message and, when decoding succeeds, handing the result to a session in any state and processing it never panics and always returns. Afterwards the session is still in progress, finished or aborted with an error. Bytes that fail to decode as a complete message are reported as an error by decoding, and a message without the content its kind requires is never accepted by a session.",
  ["inputs", "histories"], "all byte strings in the structured alphabet (every truncation, extension, length field, encoding class) at every reachable session state",
  "Tests only decode what the library just encoded.",
  ["pkg/messages/messages.go", "pkg/messages/header.go", "pkg/messages/keygen1.go", "pkg/internal/polynomial/exponent.go", "pkg/internal/zk/schnorr.go", "pkg/state/state.go", "pkg/frost/keygen/round1.go"],
  [("length and canonicity checks", "UnmarshalBinary methods"), ("admission checks", "State.HandleMessage")],
  observe=["Message.UnmarshalBinary", "State.HandleMessage", "State.ProcessAll"])

p("C09", "Every wire message has exactly one encoding and decodes to itself",
  "Encoding any protocol message and decoding it yields an equal message, the announced size is the encoded length, and appending to a buffer leaves its existing contents intact. Decoding succeeds only on the exact encoding that re-encoding the result produces; truncated, extended, non-canonical or inconsistently addressed encodings are rejected. Encoding a message whose kind, addressing or content is inconsistent is an error.",
  ["inputs"], "all message kinds with edge-value fields; all truncations, one-byte extensions and single-byte substitutions of their encodings; all headers",
  "Each kind is round-tripped once with random contents; rejection is tested on nine hand-picked headers only.",
  ["pkg/messages/header.go", "pkg/messages/messages.go", "pkg/messages/keygen1.go", "pkg/messages/keygen2.go", "pkg/messages/sign1.go", "pkg/messages/sign2.go", "pkg/internal/polynomial/exponent.go", "pkg/internal/zk/schnorr.go"],
  [("BytesAppend / UnmarshalBinary / Size / Equal", "pkg/messages")], observe=["MarshalBinary", "UnmarshalBinary", "Size", "Equal"])

p("C10", "A proof of knowledge is valid only for its own prover, context and key",
  "A proof of knowledge made with the secret verifies for the prover identifier, context and public value it was made for. It verifies for no other identifier, context or public value and not after any change to the proof, and cannot be assembled without the secret by choosing proof values freely. The proof's challenge depends on each of: identifier, context, public value and the prover's nonce.",
  ["inputs"], "all single-component deviations over the alphabets (identifiers, every context bit, public values, proof scalars), and all proofs over an alphabet of chosen scalars",
  "One honest proof is verified once; rejection is never tested.",
  ["pkg/internal/zk/schnorr.go", "pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go"],
  [("Fiat-Shamir challenge", "zk.challenge"), ("verification equation", "zk.Schnorr.Verify")], observe=["zk.Schnorr.Verify"])

p("C11", "A session ends exactly once, with a definite and stable outcome",
  "A session is either in progress or over; once over, its completion signal is set, the outcome (success or a specific error) never changes, all further messages are refused with an error, processing sends nothing more and outputs never change. Outputs are present if and only if the session succeeded. An error outcome names the round in which it arose, and the culprit if there is one.",
  ["histories", "schedules"], "all reachable session states and all further operations on finished and aborted sessions in the bound",
  "Tests never act on a session after it has ended and never see an abort.",
  ["pkg/state/state.go", "pkg/state/error.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go"],
  [("done flag, doneChan, err", "State.finish / State.reportError")],
  observe=["State.Done", "State.IsFinished", "State.WaitForError", "State.Err", "outputs"])

p("C12", "A session times out exactly when no valid message arrived for the set time",
  "With a timeout set, a session that is still in progress aborts with a timeout error exactly when that much time has passed since its creation or since the last message it accepted, at whatever stage it is, including before it has started; the abort never crashes the process. Messages that are refused or ignored do not extend the time. With no timeout, or once the session is over, time has no effect.",
  ["schedules", "histories"], "all sequences of clock advances, accepted and refused messages, and processing steps in the bound, on a virtual clock, for key generation and signing",
  "Tests set no timeout, and real time cannot be enumerated.",
  ["pkg/state/state.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go"],
  [("timer, ackMessage, stopTimer", "pkg/state/state.go")], observe=["State.Done", "State.WaitForError"], hook="package time is replaced by a virtual clock in a build overlay generated from the current source")

p("C13", "Sessions are safe for concurrent use",
  "Calls on one session from several goroutines, and its timeout, behave as if executed one at a time in some order consistent with real time: each round is processed once, each outgoing message is returned to exactly one caller, and exactly one outcome is reported. There are no data races and no deadlocks, waiters are always released when the session ends, and outputs are safe to read once waiting returns without error.",
  ["schedules"], "all interleavings of 2-4 goroutines with 1-3 calls each plus the timer, at synchronisation-operation granularity, each with happens-before race detection",
  "Tests call sessions from one goroutine (or free-running ones), exercising one accidental schedule.",
  ["pkg/state/state.go"], [("mutex, doneChan", "pkg/state/state.go")],
  observe=["State methods", "Go race detector"], hook="package sync/time and channel operations are routed to a controlled scheduler in a build overlay generated from the current source")

p("C14", "Sessions share no mutable data with callers, messages or other sessions",
  "Messages a session has returned never change afterwards, whatever the session does next. A session never changes the key shares, public data, identifier lists or message buffers given to it or broadcast messages handed to it, and does not depend on the caller leaving its buffers untouched. Any interleaving of several sessions in one process (same or different keys, messages passed by pointer or as bytes) gives each the result it would have alone.",
  ["histories", "schedules"], "all interleavings of two concurrent runs and all delivery modes in the bound; all points at which a caller may overwrite its buffers",
  "Tests run one protocol at a time, re-encode every message at once and never look at inputs afterwards.",
  ["pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go", "pkg/state/base_round.go", "pkg/messages/keygen1.go"],
  [("copies taken at the session boundary", "NewRound, GenerateMessages, ProcessMessage")], observe=["messages returned earlier", "inputs after each step", "outputs"])

p("C15", "Every secret is drawn fresh and in full from the randomness source",
  "Every nonce, polynomial coefficient and proof nonce of every session is derived from its own 64 bytes of the system randomness source, never reused within or across sessions, even when signing the same message again. A randomness source that returns fewer bytes than asked is read until complete, and if it fails no message depending on it is sent.",
  ["fault_sequences", "histories"], "all single and double departures (short read of any length class, failure) at every read of a session; all pairs of sessions in the bound",
  "Tests use the real source, which never returns short or fails, and compare nothing across sessions.",
  ["pkg/internal/scalar/scalar.go", "pkg/internal/polynomial/polynomial.go", "pkg/internal/zk/schnorr.go", "pkg/frost/sign/round0.go", "pkg/frost/keygen/round0.go"],
  [("SetScalarRandom, NewPolynomial", "pkg/internal")], observe=["messages sent, against the recorded randomness stream"])

p("C16", "Ending a session erases its secrets",
  "Once a session is over, whether it succeeded, detected a fault, or timed out at any stage, the session object no longer holds its nonces, polynomial coefficients or key shares in any form. On success the outputs remain valid and complete; on abort none of these secrets is reachable from the session or its output.",
  ["histories", "fault_sequences"], "every way and point of ending a session in the bound; every secret it drew or was given; the whole object graph reachable from it",
  "No test inspects a session after it ends.",
  ["pkg/frost/keygen/base.go", "pkg/frost/sign/base.go", "pkg/frost/sign/party.go", "pkg/internal/polynomial/polynomial.go", "pkg/state/state.go"],
  [("Reset", "keygen and sign round0"), ("finish", "State.finish")], observe=["object graph of the session"])

p("C17", "Signature shares are bound to message, signers and all nonce commitments",
  "The factor by which a signer's second nonce enters its signature share is different for every signer and changes whenever the message, the signer set, or any single nonce commitment of any signer changes. All signers compute the same factors irrespective of the order in which data arrived. Hence a share is useless in any session other than the one it was made for.",
  ["inputs", "histories"], "all single-component deviations of (message, signer set, each commitment, signer) over the alphabets, and all delivery orders",
  "Tests sign once; a signature verifies just as well if the binding factor ignores some of its inputs.",
  ["pkg/frost/sign/round1.go"], [("computeRhos", "sign round1")], observe=["signature shares sent, with recorded nonces"])

p("C18", "Stored key material survives storage and damaged data is refused",
  "Writing key shares, public data, group keys and signatures out (JSON or binary) and reading them back gives equal values with the derived fields rebuilt. Data that is truncated, out of range, non-canonical, or whose group key does not match its shares or whose threshold does not fit the number of parties is refused with an error. Reading never panics on any input and never silently alters a value.",
  ["inputs"], "all (n,t) and identifier sets in the bound; all field deletions, substitutions from the edge-value menu, truncations and single-byte changes",
  "One round trip per type with one value; no damaged input is read.",
  ["pkg/eddsa/public.go", "pkg/eddsa/public_key.go", "pkg/eddsa/secret_share.go", "pkg/eddsa/signature.go", "pkg/ristretto/ristretto.go", "pkg/frost/party/id.go"],
  [("MarshalJSON/UnmarshalJSON, MarshalBinary/UnmarshalBinary", "pkg/eddsa"), ("group key recomputation", "Public.UnmarshalJSON")], observe=["decode errors", "Equal"])

p("C19", "The library's verifier and standard Ed25519 agree",
  "For every group key, message and signature value, the library accepts the signature if and only if the standard Ed25519 verifier accepts its Ed25519 form under the key's Ed25519 form. The Ed25519 form of a key or nonce does not depend on how the value was computed or transported, and is the standard encoding of the same multiple of the base point.",
  ["inputs"], "all combinations of keys, messages and signatures over the alphabets, valid and altered in each component; all internal representations reachable by arithmetic and transport",
  "Two valid signatures are verified; no invalid one, and no transported (torsion-shifted) representation.",
  ["pkg/eddsa/public_key.go", "pkg/eddsa/signature.go", "pkg/ristretto/ristretto.go"],
  [("ComputeChallenge, Verify", "pkg/eddsa"), ("BytesEd25519", "pkg/ristretto")], observe=["PublicKey.Verify", "crypto/ed25519.Verify"])

p("C20", "Group elements have one canonical encoding and correct arithmetic",
  "A 32-byte string decodes to a group element exactly when it is canonical by the ristretto255 specification; every element encodes to that string and back, and two elements are equal exactly when their encodings are. Addition, subtraction, negation, and every form of scalar multiplication agree with the arithmetic of the prime-order group, also when operands and result share storage. A failed decoding reports an error and leaves the receiver unchanged.",
  ["inputs"], "all encodings over edge alphabets and all single-bit changes of valid ones; all pairs over an alphabet of elements in several representations, and all aliasing patterns",
  "Fixed test vectors and random round trips; arithmetic laws, aliasing and near-valid encodings are not covered.",
  ["pkg/ristretto/ristretto.go"], [("SetCanonicalBytes, Bytes, Equal, scalar multiplications", "pkg/ristretto")], observe=["ristretto.Element methods"])

p("C21", "Identifiers, identifier sets and Lagrange coefficients are exact",
  "Every identifier 0..65535 keeps its value through its scalar, byte and text forms, and text that is not a 16-bit number is refused. Identifier sets are sorted copies with exact membership, subset and equality. For every set of distinct non-zero identifiers and every member, the Lagrange coefficient is the one that interpolates at zero; zero or non-member identifiers give an error. A random identifier is never the invalid one.",
  ["inputs"], "all 65536 identifiers; all subsets of a small universe and of edge identifiers",
  "A handful of identifiers are converted; coefficients are checked only through their sum over 1..16.",
  ["pkg/frost/party/id.go", "pkg/frost/party/idslice.go", "pkg/helpers/parties.go"],
  [("ID conversions, Lagrange", "pkg/frost/party/id.go"), ("sorted slice with binary search", "pkg/frost/party/idslice.go")], observe=["party package functions"])

p("C22", "Secret polynomials and their public commitments agree at every point",
  "For every polynomial and identifier, evaluating the secret polynomial is exact modulo the group order, evaluating the committed polynomial gives the commitment to that value, sums of committed polynomials commit to the sums, and any degree+1 evaluations determine the polynomial. Degree mismatches are reported and leave operands unchanged, copies are independent, and evaluating at zero is refused.",
  ["inputs"], "all polynomials with coefficients from an edge alphabet up to a degree, at all identifiers of the alphabet",
  "Random polynomials at random points; no edge coefficients, degrees 0-2, mismatches or independence of copies.",
  ["pkg/internal/polynomial/polynomial.go", "pkg/internal/polynomial/exponent.go"],
  [("Horner and multi-scalar evaluation", "pkg/internal/polynomial")], observe=["polynomial package functions"])

p("C23", "Invalid configurations are refused up front and valid ones always work",
  "Creating a session fails with an error, and never panics, for a threshold of zero or not below the number of parties (key generation), a party list that is unsorted, has duplicates or contains identifier zero, a list without the party itself, signers that are not all holders of the key, or key material of which a part is missing (the secret share, the public data, the group key, or a signer's public share). Every other configuration is accepted, and a session that was accepted never panics or becomes stuck when run with honest peers.",
  ["configurations"], "all thresholds, self identifiers and identifier lists (including unsorted, duplicate and zero) up to length 4 over a small alphabet, plus edge identifiers",
  "Tests create sessions with one valid configuration each.",
  ["pkg/frost/frost.go", "pkg/frost/keygen/base.go", "pkg/frost/sign/base.go", "pkg/state/base_round.go"],
  [("NewRound, NewBaseRound checks", "pkg/frost, pkg/state")], observe=["NewKeygenState", "NewSignState"])

p("C24", "The command-line tools produce keys and signatures that work",
  "For every valid (t, n), the key generation tool writes a file from which the signing tool produces a signature that standard Ed25519 verification accepts under the printed group key. Neither tool reports success (prints Success, or exits with status 0) when it has not written the file or has not printed a valid signature, invalid parameters write nothing, and a key file that cannot be used is reported, not crashed on.",
  ["configurations", "inputs"], "all (t, n) up to the bound, invalid parameters, all messages of the alphabet, write failures, altered key files",
  "The tools have no tests.",
  ["cmd/keygen/keygen.go", "cmd/signer/signer.go"], [("main", "cmd/keygen, cmd/signer")], observe=["stdout", "keygenout.json"])

p("C25", "Each round sends exactly the prescribed messages, and shares only to their owner",
  "In each session a party sends, exactly once each and in protocol order: one broadcast per broadcast round, and in the second round of key generation one private message to each other participant and nobody else; all carry the sender's identifier. A party's private share for one participant never appears in anything sent to another or broadcast, and no nonce, key share or polynomial coefficient is ever sent in the clear.",
  ["histories", "configurations"], "all local histories in the bound, all (n,t) and identifier sets",
  "Tests forward every message to every party, so wrong addressing, extra copies or leaks go unnoticed.",
  ["pkg/state/state.go", "pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/sign/round0.go", "pkg/frost/sign/round1.go", "pkg/messages/messages.go"],
  [("GenerateMessages", "keygen and sign rounds")], observe=["messages returned by State.ProcessAll"])

p("C26", "Sessions and stored data interoperate with any implementation of the documented protocol",
  "For every configuration, every split of the participants into sessions of this library and independent implementations of the protocol (FROST key generation and signing over ristretto255 with the library's message layout, hash domains and encodings), and every delivery order, key generation and signing complete, and every participant holds the same results, byte for byte those the protocol prescribes. Wire messages, stored key shares, stored public data, group keys and signatures have the established formats: what the library writes an independent reader can read and vice versa, so data and peers of an earlier release keep working.",
  ["configurations", "schedules", "inputs"], "all splits and all (n,t) in the bound; all delivery orders for two participants; stored forms over all identifier sets in the bound",
  "Tests only let the library talk to itself, so that a change of format or derivation made on both sides passes unnoticed.",
  ["pkg/frost/keygen", "pkg/frost/sign", "pkg/messages", "pkg/eddsa/public.go", "pkg/eddsa/secret_share.go", "pkg/internal/zk/schnorr.go"],
  [("HandleMessage/ProcessAll", "rounds of keygen and sign"), ("MarshalJSON/UnmarshalJSON", "eddsa.Public, eddsa.SecretShare"), ("MarshalBinary/UnmarshalBinary", "messages.Message")], observe=["wire messages", "stored forms", "outputs"])

p("C27", "Sessions hold bounded memory and leave nothing behind",
  "The memory a session holds is bounded by its configuration: no number of messages delivered to it (genuine ones, repetitions, strays, malformed ones, from participants or outsiders), at any point of its life, and no number of processing calls makes it grow. Decoding a message or a stored key allocates at most in proportion to the input, whatever sizes the input declares. When a session has ended, in whatever way, or was refused at creation, and the caller lets go of it, its memory, timers and goroutines are released, without waiting for a timeout.",
  ["histories", "inputs", "faults"], "floods in every reachable state of the bound; all endings in the bound; all declared sizes",
  "Tests run a handful of sessions and exit; nothing measures what is retained.",
  ["pkg/state/state.go", "pkg/messages/messages.go", "pkg/messages/keygen1.go", "pkg/internal/polynomial", "pkg/frost/party"],
  [("HandleMessage/ProcessAll", "State"), ("UnmarshalBinary/UnmarshalJSON", "messages and eddsa")], observe=["heap in use after garbage collection", "bytes allocated", "goroutines"])

p("C28", "Values can be read from any number of goroutines at once",
  "Every operation that only reads its operands (verification, encoding, comparison, conversion, decoding into a value of the caller's own, group and scalar arithmetic with a result of the caller's own, Lagrange coefficients, evaluation of polynomials, proofs, creation of messages and sessions, whole protocol runs) may be used from several goroutines at once on the same keys, shares, signatures, messages, identifier lists and elements, and on different ones: each gives the result it gives alone, without data races, also when it is the first use of the library in the process. What a caller is given is its own: overwriting it changes nothing for others.",
  ["schedules", "inputs"], "all pairs of 75 operations, and triples of each, on shared and on different values, all schedules up to a preemption bound, with the race detector",
  "All tests use values from one goroutine.",
  ["pkg/eddsa", "pkg/ristretto", "pkg/frost/party", "pkg/internal", "pkg/messages", "pkg/helpers"],
  [("Verify, ToEd25519, ComputeChallenge", "pkg/eddsa"), ("Lagrange", "pkg/frost/party/id.go"), ("Element methods", "pkg/ristretto")], observe=["results of each call", "data race reports"])

p("C29", "The helper functions drive sessions and deal keys faithfully",
  "Driving a session with the helper (batches of received messages in, messages to send out) is the same as decoding and delivering the messages of each batch in order, processing once and encoding what comes out: for every history and every way of cutting it into batches, the session takes the same course, every batch gives the same messages or the error of the batch, an error of the finished session is reported, and whole groups driven this way generate keys and sign. The dealer gives every party of the set the value at its identifier of a polynomial of the requested degree with the returned secret as its constant term, drawn afresh every time; the public data made from shares belongs to them and shares nothing with them; bad parameters are refused.",
  ["inputs", "histories"], "all sequences of genuine and disturbing messages cut into batches in all ways, twin sessions; all small sets and thresholds for the dealer",
  "The tests use the helpers for whole honest runs only.",
  ["pkg/helpers", "pkg/state", "pkg/messages"],
  [("PartyRoutine, NewPartySlice", "pkg/helpers"), ("GenerateSecrets, GeneratePublic", "pkg/helpers")], observe=["messages out of each batch", "errors", "state of the twin session", "dealt shares and public data"])

p("C30", "A key keeps working through any history of sessions",
  "Whatever the holders of a key have done with it in one process (signings by any allowed signers, also the same ones again, overlapping, aborted by a cheater in either round, timed out, abandoned and taken up later, refused; storing and loading; verifying bad signatures; further key generations by the same parties, successful or not), the key material is exactly what it was, every later signing by honest allowed signers gives all of them one signature valid under the group key, every fault is still detected, other keys made meanwhile work too, and no nonce ever occurs twice.",
  ["histories"], "all sequences of 20 operations up to a depth, executed on the real code, followed by signings of every allowed set",
  "Each test makes one session and throws the key away.",
  ["pkg/frost", "pkg/eddsa", "pkg/state", "pkg/internal"],
  [("NewSignState, NewKeygenState", "pkg/frost/frost.go"), ("signing rounds", "pkg/frost/sign"), ("key generation rounds", "pkg/frost/keygen")], observe=["key material after every operation", "signatures", "nonce commitments", "errors"])

p("C31", "The session engine runs any protocol of rounds as its interface says",
  "For any implementation of the round interface (any number of rounds, any increasing message types, broadcast or addressed, any number of parties) and any order of messages and processing steps: each round is given exactly one message of its type from every other party, once, and no other; then asked for its messages, once; these are returned to the caller in order, also those of the last round; only then the next round starts. The first round that refuses a message or cannot finish ends the session with that error, its culprit and the number of the round, and nothing is called afterwards but reset, which is called exactly once in every session, at its end. Early messages are kept until their round, however many rounds away; everything else is refused or ignored.",
  ["inputs", "histories", "schedules"], "recording rounds driven by the real engine in lockstep with a reference model, over all orders and placements of processing",
  "The tests run the engine only with the two protocols of the library, in lockstep.",
  ["pkg/state"],
  [("State, NewBaseState", "pkg/state/state.go"), ("Round", "pkg/state/round.go"), ("Error", "pkg/state/error.go")], observe=["calls of the round's methods", "messages returned", "errors", "IsFinished, Done, Err, WaitForError"])

p("C32", "Secrets leave the library only where they are meant to",
  "A session's secrets (its drawn polynomial coefficients and nonces and the randomness behind them, the polynomial's values, the key share given to it or being computed, the shares other parties sent it, also wrong, repeated, misaddressed and misplaced ones) leave the library only in two places: a party's polynomial value in the one private message to the party it is for, and the finished share in the secret part of key generation's output. No other message (its encoding or what its object holds), no public output (public data, public key, signature, as objects, encoded or printed), no error (text or error object, of sessions, constructors, decoders or the driver), no panic text and nothing written to standard output or standard error contains them or pieces of them in any usual representation. The same holds for a stored secret share that is read back, intact or damaged in any way, and for a private message that is decoded.",
  ["inputs", "histories", "fault_sequences"], "all ways a session can go in the bounds (orders, processing, timeouts, one faulty or inserted message), all unusable constructor arguments in the menu, all truncations and single-byte damages of stored shares and private messages",
  "The tests look at the outcome of runs, and the text of an error is never looked at; what leaks in the rare branch of a fault or of a damaged file is invisible to them.",
  ["pkg/state", "pkg/frost", "pkg/eddsa", "pkg/messages", "pkg/helpers", "pkg/internal"],
  [("errors of rounds and sessions", "pkg/frost/keygen, pkg/frost/sign, pkg/state/state.go"), ("reading stored shares", "pkg/eddsa/secret_share.go"), ("messages and their decoding", "pkg/messages")], observe=["error texts and objects", "panic texts", "standard output and error", "messages sent", "public outputs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
