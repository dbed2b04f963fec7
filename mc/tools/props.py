#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.
import json, os
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, level="model_checking", claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files.split(), mech=[m.split(" @ ") for m in mech], tech=tech, note=note, level=level, claimed=claimed))

SCHED = "stateless exploration of the real implementation under a controlled scheduler and network (enumerated deviations), oracle on every execution"
PARTY = "internal/party/"
NOTE = ("Exhaustive over the stated finite deviation spaces of the real code (rewritten at build time so that goroutines, channels, locks and sockets are driven by the scheduler); "
        "pairing arithmetic is an exponent-arithmetic stand-in, bound to the code by replaying sample plans of every run with the real library and comparing the outcomes. "
        "Not every interleaving: schedules are the enumerated deviations from two default delivery orders. ")

prop("C01", "A shared secret survives handoffs and is recoverable after them",
 "After a client shares a secret in a committee and that committee hands it over, once or several times, any F+1 shares an honest majority committee ends with determine exactly the secret that was shared, at every stage. This holds whatever the secret is, in every message order and with up to F members of each committee silent.",
 "schedules inputs fault_sequences", "secrets x delivery orders x silent members of either committee, up to the stated bounds",
 "The tests run one share and one handoff on loopback with whatever order the kernel gives and, for most, compare nothing: they print shares.",
 PARTY+"client.go "+PARTY+"VSS.go "+PARTY+"ShareReduce.go "+PARTY+"ProactivizeAndShareDist.go",
 ["dealing of a bivariate sharing @ internal/party/client.go Share", "reduction of shares by the new committee @ internal/party/ShareReduce.go ShareReduceReceive", "refresh and redistribution @ internal/party/ProactivizeAndShareDist.go"],
 SCHED, NOTE)
prop("C02", "Members end a refresh with shares of one polynomial and equal commitments",
 "When the members of a committee complete the refresh half of a handoff, their full shares lie on one polynomial of the full degree whose constant term is the secret, all hold the same commitments, and every share is the one its commitment commits to. This holds in every order in which messages are delivered and steps are taken.",
 "schedules", "message orders, preemptions at synchronisation points, select choices, coins; N=4, 7, 10, 13",
 "A test observes the few schedules the loopback network produces; agreement needs all of them.",
 PARTY+"ProactivizeAndShareDist.go "+PARTY+"main_process.go",
 ["agreement on the set of refresh polynomials @ internal/party/ProactivizeAndShareDist.go", "interpolated commitments @ internal/party/party_utils.go InterpolateComOrWit"],
 SCHED, NOTE)
prop("C03", "A handoff completes for every correct member despite F silent or stopping ones",
 "When up to F members of the old or the new committee are never started, never do anything or stop in the middle of the handoff, every other member still completes it, with consistent shares of the same secret. It completes however slow other links are and however late members start, as long as they deliver and start in the end.",
 "schedules crash_points fault_sequences", "every set of F silent members, every stop point between two messages (links silent or reset) x orders; sets of slow links",
 "No test stops a member; every stop point and every slow link is needed because each quorum wait is a different place to get stuck.",
 PARTY+"ProactivizeAndShareDist.go "+PARTY+"ShareReduce.go pkg/core/send.go pkg/core/receive.go",
 ["quorum waits @ internal/party/ProactivizeAndShareDist.go", "recover phase for members that missed a dealing @ internal/party/ProactivizeAndShareDist.go", "closed connections tolerated @ pkg/core/receive.go"],
 SCHED+"; crash-point enumeration", NOTE)
prop("C04", "F members sending wrong messages cannot break a refresh",
 "While up to F members of the new committee send wrong values, wrong proofs, conflicting or repeated messages, or speak for others, every honest member completes the refresh, and the honest members' shares still lie on one polynomial that hides the same secret, with matching commitments.",
 "inputs fault_sequences schedules", "a grammar of well-formed wrong messages per message type and receiver, single, in pairs and by two members of seven, x delivery orders",
 "The tests have honest parties only (one RBC test excludes a receiver).",
 PARTY+"ProactivizeAndShareDist.go "+PARTY+"RBC.go",
 ["commitment and evaluation checks of dealings @ internal/party/ProactivizeAndShareDist.go", "signed votes for complaint and recover @ internal/party/ProactivizeAndShareDist.go"],
 SCHED+"; enumerated Byzantine deviations", NOTE)
prop("C05", "F members of the old committee cannot corrupt the shares they hand over",
 "While up to F members of the old committee hand over wrong commitments, wrong reduced shares or conflicting versions, in whatever order they come, every member of the new committee obtains the reduced share of the secret that the honest old members hold, and its commitments match.",
 "inputs fault_sequences schedules", "a grammar of wrong Prepare and ShareReduce content per receiver, delivered first, last or in the default orders; one of four, two of seven members",
 "The tests have honest old members only.",
 PARTY+"ShareReduce.go",
 ["majority of equal commitments, verification of each reduced share @ internal/party/ShareReduce.go"],
 SCHED+"; enumerated Byzantine deviations", NOTE)
prop("C06", "A refresh is a fresh random sharing of zero and hides the old shares",
 "The difference between the shares after and before a refresh is a sharing of zero to which at least one honest member contributed randomness, so shares from before the refresh and from after it do not combine. Every completed refresh changes the sharing, whichever members are silent, stop or deviate.",
 "schedules fault_sequences", "orders, silent, stopping and deviating members; the sharing before and after compared in every execution",
 "A handoff that forgot to refresh would pass every existing test: they look at the secret only.",
 PARTY+"ProactivizeAndShareDist.go",
 ["zero-sharing polynomials dealt by every member @ internal/party/ProactivizeAndShareDist.go"],
 SCHED, NOTE)
prop("C07", "Sharing gives every member valid shares of the client's secret",
 "When an honest client shares a secret, and whatever dealings of their own at most F members send under their own numbers, every honest member completes and holds the evaluations of the same bivariate polynomial whose value at zero is the secret, with commitments equal at all members that its shares verify against.",
 "schedules inputs", "delivery orders and pairs of held-back messages, slow links, preemptions, secrets, committee sizes, dealings that members send",
 "The sharing test has one size and the default order.",
 PARTY+"VSS.go "+PARTY+"client.go",
 ["dealing @ internal/party/client.go Share", "verification and interpolation of the full share @ internal/party/VSS.go"],
 SCHED, NOTE)
prop("C08", "A member never accepts an invalid dealing from a client",
 "Whatever well-formed dealing a client sends, a member adopts shares from it only if the commitments are consistent with one another and every evaluation it got matches its commitment; from an invalid dealing it adopts nothing and it does not stop.",
 "inputs", "every single and every pair of the enumerated alterations of a dealing, checked against an independently written validity predicate",
 "The tests deal valid shares only.",
 PARTY+"VSS.go", ["checks on a received dealing @ internal/party/VSS.go VSSShareReceive"],
 SCHED+"; exhaustive alterations against an independent validity oracle", NOTE)
prop("C09", "Reliable broadcast: agreement, validity and totality",
 "If the proposer is honest every honest member delivers its message; with any proposer and up to F members deviating, no two honest members deliver different messages, and if one honest member delivers then all do. A message of any size, including the empty one, is delivered unchanged.",
 "schedules inputs fault_sequences", "orders, pairs of held-back messages, stop points of the proposer; scripts of an equivocating proposer and lying echoers; message lengths",
 "The tests run honest parties on loopback; totality and agreement are about all scripts and orders.",
 PARTY+"RBC.go", ["echo, ready and amplification thresholds @ internal/party/RBC.go", "erasure decoding @ internal/party/RBC.go"],
 SCHED+"; enumerated Byzantine scripts", NOTE)
prop("C10", "Multi-valued agreement: one valid value, proposed by a member",
 "No two honest members decide different values in one instance, and a decided value was proposed by a member and passes the validation, whatever messages up to F deviating members send and in whatever order everything arrives.",
 "schedules inputs fault_sequences", "orders, coins, pairs of held-back classes, scripts of deviating voters and deciders",
 "The tests run one order with honest parties.",
 PARTY+"main_process.go "+PARTY+"pb.go "+PARTY+"spb.go "+PARTY+"message_handler.go",
 ["provable broadcast proofs, votes, halt @ internal/party/main_process.go", "message handlers @ internal/party/message_handler.go"],
 SCHED+"; enumerated Byzantine scripts", NOTE)
prop("C11", "Multi-valued agreement terminates despite F silent or stopping members",
 "Every honest member that takes part decides, and stays available until the others have decided, with up to F members silent, stopping at any message, slow or withholding messages from some, for every outcome of the common coin.",
 "schedules crash_points fault_sequences", "every silent member, every stop point, every set of withheld types and receivers, slow links, coins, types held back, preemptions",
 "A test that passes shows one terminating run; each stop point and coin outcome takes another branch (locks, mixed votes, next round).",
 PARTY+"main_process.go "+PARTY+"message_handler.go",
 ["rounds, votes and halting @ internal/party/main_process.go"], SCHED+"; crash-point enumeration", NOTE)
prop("C12", "A provable broadcast certifies one valid value per sender",
 "A completed provable broadcast yields a proof that verifies for its value only; no two different values of one sender can both be certified in one instance, and receivers endorse only a valid value that came from the designated sender.",
 "inputs schedules fault_sequences", "sender scripts (equivocation, invalid values, other senders, repeats) x receivers x orders; repeated and wrong shares from receivers",
 "The tests run honest senders and receivers.",
 PARTY+"pb.go "+PARTY+"spb.go", ["one endorsement per instance, validation of the value @ internal/party/pb.go"],
 SCHED+"; enumerated Byzantine scripts", NOTE)
prop("C13", "Handoffs can be chained: every committee can hand over in turn",
 "A committee that obtained the secret by a handoff can hand it over again, and so on: after each handoff the new committee's shares verify against its commitments and encode the same secret, with silent or stopping members in every committee.",
 "histories schedules fault_sequences", "chains of two and three handoffs x orders x silent members of each committee x stop points of the middle one",
 "The tests stop after one handoff.",
 PARTY+"ShareReduce.go "+PARTY+"ProactivizeAndShareDist.go",
 ["state a handoff leaves for the next one @ internal/party/ProactivizeAndShareDist.go"], SCHED, NOTE)

TNOTE = ("Exhaustive over the stated finite spaces of segmentations, orders, break points and single preemptions of the real transport code (rewritten at build time: goroutines, channels and sockets are driven by the scheduler; the network is a byte-stream model). "
         "Sample plans of every run are executed again with the unmodified code over kernel sockets and must give the same outcome.")
prop("C14", "Messages arrive intact, once and in order however the bytes are cut",
 "Everything a node sends to another over an open connection is received exactly once, unchanged and in the order sent, for messages of every size and number. It does not matter into which pieces the network cuts the bytes, how little of them it takes at a time, or when the receiver starts to listen or to read.",
 "inputs schedules", "cut positions of the byte stream, piece sizes, room in flight, message sizes and numbers, arrival orders, preemptions",
 "The tests send small messages over loopback, where one read returns one frame.",
 "pkg/core/send.go pkg/core/receive.go",
 ["framing and the sending goroutine @ pkg/core/send.go MakeSendChannel", "reading of frames @ pkg/core/receive.go MakeReceiveChannel"], SCHED, TNOTE)
prop("C15", "A broken or garbage connection harms no other connection",
 "When a peer is not there, closes its connection at any byte, falls silent in the middle of a message, stays connected without reading what it is sent, or sends bytes that are no message, or when connections cannot be accepted for a while, a node keeps running, delivers the complete messages that arrived before, makes up nothing, and goes on receiving from and sending to all others.",
 "inputs fault_sequences schedules", "every break point of a connection x orders and preemptions; an alphabet of undecodable frames; peers that go away, or stop reading, while being sent to; connections that cannot be accepted",
 "No test closes a connection in the middle of a frame.",
 "pkg/core/send.go pkg/core/receive.go",
 ["end of a connection @ pkg/core/receive.go", "undecodable messages @ pkg/core/receive.go", "failed writes @ pkg/core/send.go"], SCHED+"; crash-point enumeration", TNOTE)

prop("C16", "Each message reaches the queue of its type and instance, once",
 "A member hands every received message to whoever asks for its type and instance, and to nobody else, exactly once and in the order its sender sent it. It does not matter whether the question comes before or after the message, how the names resemble each other, or how many messages of other types and instances nobody reads.",
 "inputs schedules histories", "message sequences over confusable types and instances x reading times x orders and preemptions; floods of unread messages",
 "The tests read what they send at once and never overflow a queue.",
 "pkg/core/dispatche.go internal/party/party_utils.go",
 ["the dispatcher @ pkg/core/dispatche.go MakeDispatcheChannels", "asking for a queue @ internal/party/party_utils.go GetMessage"], SCHED, NOTE)

prop("C26", "Malformed messages stop nobody and break nothing",
 "While up to F members of a committee put anything into the fields of their messages - missing, truncated, overlong or undecodable contents, numbers out of range, bytes that are no group element - every honest member keeps running, completes the handoff or the agreement, and ends with consistent shares of the same secret. A member that gets a malformed dealing from a client adopts nothing from it and completes the sharing.",
 "inputs fault_sequences schedules", "every field of every message type x a fixed alphabet of malformations x senders x delivery orders",
 "The tests send well-formed messages only; one missing length or error check anywhere stops the process of every honest member at once.",
 PARTY+"ProactivizeAndShareDist.go "+PARTY+"ShareReduce.go "+PARTY+"VSS.go "+PARTY+"RBC.go "+PARTY+"message_handler.go "+PARTY+"party_utils.go",
 ["decoding of commitments, evaluations and votes @ internal/party/ProactivizeAndShareDist.go", "decoding of a dealing @ internal/party/party_utils.go SetFromVSSMessage", "senders of agreement messages @ internal/party/message_handler.go"],
 SCHED+"; enumerated malformations", NOTE)

prop("C27", "A committee can hand over to itself, again and again",
 "When one committee hands the secret over to itself several times in a row, every honest member completes every handoff, whatever is still going on of the ones before; after each of them the members' shares are consistent, hold the same secret, and have no coefficient in common with their shares before. This holds with up to F members silent, stopped or deviating, also when they use in a handoff what they learnt in an earlier one.",
 "schedules fault_sequences crash_points histories", "number of handoffs x delays x silent, stopping and deviating members x preemptions",
 "The tests run one handoff; the state and the messages that one handoff leaves behind meet the next one only under particular delays.",
 PARTY+"ProactivizeAndShareDist.go "+PARTY+"ShareReduce.go "+PARTY+"party.go",
 ["shares and commitments kept between handoffs @ internal/party/party.go HonestParty", "goroutines of a handoff that outlive it @ internal/party/ProactivizeAndShareDist.go"],
 SCHED, NOTE)

prop("C28", "The program completes a handoff, whenever its processes start",
 "Started by the documented commands, or in its one-committee role, in any order and at any times, with up to F members of each committee never started or killed, the program completes a handoff: every other member stays up, ends with a consistent share of the value the client shared, and records its latencies. This holds whatever the waiting intervals, however late messages arrive, and for list files with exactly the members' lines or with more.",
 "schedules fault_sequences crash_points configurations", "start times of the processes x absent and killed members x delays x intervals x forms of the list files",
 "No test runs the program; scripts run it with all processes started at once on one machine.",
 "cmd/DyCAPs/main.go "+PARTY+"client.go "+PARTY+"party_utils.go "+"pkg/core/send.go", ["roles and their order of calls @ cmd/DyCAPs/main.go main", "lists of addresses @ cmd/DyCAPs/main.go ReadIpList", "connections to nodes that are not up @ pkg/core/send.go MakeSendChannel"],
 SCHED, NOTE)

prop("C29", "No two goroutines of a member use the same memory unordered",
 "While a member broadcasts, agrees, hands shares over or receives a dealing, no two of its goroutines access the same memory, at least one of them writing, unless synchronisation between them orders the two accesses. This holds whatever the order of messages and goroutines, and with up to F members silent, stopped or deviating.",
 "schedules fault_sequences", "preemptions x delays x silent, stopping and deviating members",
 "The tests run without the race detector, and even with it they see the few schedules of one machine; many of these accesses come close to each other only when a goroutine is stopped at a particular point.",
 PARTY+"RBC.go "+PARTY+"ProactivizeAndShareDist.go "+PARTY+"main_process.go "+PARTY+"message_handler.go "+PARTY+"spb.go "+PARTY+"VSS.go "+PARTY+"party.go",
 ["maps of echoes and ready messages @ internal/party/RBC.go rbcReceive", "recovered values and signatures @ internal/party/ProactivizeAndShareDist.go ProactivizeAndShareDist", "state of a round @ internal/party/message_handler.go"],
 SCHED+", happens-before race detection as the oracle",
 "Exhaustive over the stated finite deviation spaces of the real code (rewritten at build time so that goroutines, channels, locks and sockets are driven by the scheduler), compiled with the race detector, to which only the synchronisation of the code under test is known: unordered accesses are reported in whatever order they came. A report counts when it recurs in processes of their own. Pairing arithmetic is an exponent-arithmetic stand-in. Not every interleaving.")

INPUT = "bounded-exhaustive enumeration of inputs executed on the real code, each outcome compared with an independent big-integer reference model"
INOTE = ("Exhaustive over finite families of inputs (all vectors over edge values up to a size, every position, every index set of a size), executed on the repository's code; the reference model computes from the definitions with big integers. "
         "It says nothing about field elements outside the families. ")
GNOTE = INOTE + "Group elements are an exponent-arithmetic stand-in, so that equality of elements is decidable; sample plans of every run are executed again with both real pairing libraries and must have the same outcome."
PC = "internal/polycommit/"
prop("C17", "Messages and dealings decode to exactly what was encoded",
 "Every kind of agreement message decodes to the content it was made of, with its type, instance and sender, whatever the bytes, and every field stays in its place. A client's dealing gives every commitment, witness and value back, and numbers are four big-endian bytes. Decoding arbitrary or truncated bytes never stops a member.",
 "inputs", "all field contents over an alphabet with empty and large ones, all byte strings up to two bytes and all truncations, families of group elements",
 "No test encodes a message to compare what comes back.",
 "pkg/core/message_encapsulation.go internal/party/party_utils.go pkg/utils/utils.go", ["kinds of messages @ pkg/core/message_encapsulation.go", "encoding of a dealing @ internal/party/party_utils.go EncapsulateVSSSend", "decoding of commitments @ internal/party/party_utils.go SetFromVSSMessage"],
 INPUT, GNOTE, "exploration")
prop("C18", "Interpolation is exact for every set of indices and every target",
 "Interpolating through any distinct points yields the unique polynomial of the degree through all of them. The Lagrange coefficients for any distinct indices and any target, those precomputed for every member index, and commitments or witnesses interpolated with them in the group all agree with that polynomial, in whatever order the indices come.",
 "inputs", "all ordered tuples over edge points, all subsets of member indices of committees up to 13, all targets, families of values",
 "One test interpolates random polynomials through random points; nothing tests the coefficients or the group elements.",
 "internal/polyring/interpolation.go "+PARTY+"party_utils.go "+PARTY+"party.go", ["interpolation of polynomials @ internal/polyring/interpolation.go LagrangeInterpolate", "Lagrange coefficients @ internal/party/party_utils.go GetLagrangeCoefficients", "interpolation in the group @ internal/party/party_utils.go InterpolateComOrWit", "precomputed table @ internal/party/party.go NewHonestParty"],
 INPUT, GNOTE, "exploration")
prop("C19", "A polynomial commitment opens to the committed polynomial's values only",
 "For every polynomial the setup supports, the commitment opens at every point with a proof that verifies for the polynomial's value there, whether it was given by coefficients or by evaluations. No other value, point, commitment or altered proof verifies with it, up to degenerate cases in which they are equal.",
 "inputs", "polynomials over edge coefficients up to a size, edge points, every alteration of value, point, proof and commitment",
 "The tests open one polynomial at one point and never try a wrong value.",
 PC+"kzg_single_proofs.go "+PC+"kzg.go", ["commitment and opening @ internal/polycommit/kzg_single_proofs.go", "the pairing equation @ internal/polycommit/kzg_single_proofs.go CheckProofSingle"],
 INPUT, GNOTE, "exploration")
prop("C20", "Multi-point proofs verify for exactly the committed values, however made",
 "A proof for a whole coset of points verifies with the polynomial's values on it and with no others. The proofs for all points, or all cosets, that the fast batch method produces equal those produced one at a time, for every polynomial length and chunk length the settings allow.",
 "inputs", "polynomials of every length up to the settings, all chunk lengths, coset offsets, single altered values",
 "The tests take one length and one chunk length; two of them leave the result unchecked.",
 PC+"kzg_multi_proofs.go "+PC+"fk20_single.go "+PC+"fk20_multi.go", ["coset proofs @ internal/polycommit/kzg_multi_proofs.go", "Toeplitz products @ internal/polycommit/fk20_single.go", "strided Toeplitz products @ internal/polycommit/fk20_multi.go"],
 INPUT, GNOTE, "exploration")
prop("C21", "The Fourier transforms are the evaluation map on the roots of unity",
 "Transforming a vector yields the values of its polynomial at the powers of the primitive root of unity of its length, and the inverse transform undoes it, for field elements and group elements, with every supported backend. Short inputs are padded with zeros, longer settings give the same results, inputs are left unchanged, and reversing the bit order is an involution.",
 "inputs", "all vectors over an alphabet of edge values up to length 4, structured vectors up to length 256, all lengths and settings, four field backends",
 "The tests compare one vector with recorded results on one backend.",
 PC+"fft.go "+PC+"fft_fr.go "+PC+"fft_g1.go "+PC+"reverse_bit_order.go", ["domain of roots @ internal/polycommit/fft.go", "recursive transform @ internal/polycommit/fft_fr.go", "group transform @ internal/polycommit/fft_g1.go"],
 INPUT, INOTE, "exploration")
prop("C22", "Erased values of an extended polynomial are recovered exactly",
 "From any half of the values of a polynomial extended to twice its length, recovery returns all of the original values, whichever positions are missing, including none. The polynomial that vanishes on a set of positions is the right one for every set, and extending even-position values gives the odd-position values of the same polynomial.",
 "inputs", "all subsets of missing positions for domains up to 16 points, cyclic intervals, strides and residue classes above, four field backends",
 "The tests erase random positions of one size.",
 PC+"recover_from_samples.go "+PC+"zero_poly.go "+PC+"legacy_recovery.go "+PC+"das_extension.go", ["zero polynomial @ internal/polycommit/zero_poly.go", "recovery by shifted division @ internal/polycommit/recover_from_samples.go", "extension @ internal/polycommit/das_extension.go"],
 INPUT, INOTE, "exploration")
prop("C23", "Field arithmetic, encodings and polynomial values are exact",
 "With every backend, field operations give the modular result for all operands, also when the result overwrites an operand. Exactly the numbers below the modulus are accepted as encodings and come back unchanged; polynomials, given by coefficients or by values on a domain, evaluate to the right value at every point they support.",
 "inputs", "all pairs of edge elements, all powers of two and their neighbours around every boundary, families of polynomials, four backends",
 "The tests try a few values on the default backend.",
 "internal/bls/globals.go internal/bls/bignum_all.go internal/bls/bignum_kilic.go internal/bls/bignum_hbls.go internal/bls/bignum_hol256.go internal/bls/bignum_pure.go", ["range check @ internal/bls/bignum_all.go ValidFr", "evaluation in both forms @ internal/bls/globals.go", "backends @ internal/bls/bignum_kilic.go"],
 INPUT, INOTE, "exploration")
prop("C24", "Threshold keys: any threshold of members can sign, fewer cannot",
 "The key shares of a committee lie on one polynomial of the degree of the threshold that matches the public key, so that every set of partial signatures of the size of the threshold combines to a valid signature and no smaller set does. Keys loaded from the generated files are the same at every member and every time, and those of the two committees are independent.",
 "inputs", "all committee sizes up to 6 (10), all thresholds, all subsets of partial signatures, edge coefficients in the files",
 "The test of the keys prints them.",
 PARTY+"keygen.go", ["fresh keys @ internal/party/keygen.go SigKeyGen", "keys from files @ internal/party/keygen.go SigKeyGenFix", "files of coefficients @ internal/party/keygen.go GenCoefficientsFile"],
 INPUT, INOTE+"Partial signatures are made and combined with the real pairing library. ", "exploration")
prop("C25", "Group elements: exact arithmetic, one encoding each, none for others",
 "With both pairing backends, group operations and linear combinations give the element with the right exponent, also when the result overwrites an operand, and two pairings are equal exactly when the products of the exponents are. Every element has one encoding, the standard one, and comes back from it; bytes that encode no element of the group are refused with an error.",
 "inputs", "all pairs of edge exponents, families of linear combinations, all quadruples of pairing exponents, all lengths, flags and changed bytes of encodings",
 "The tests add, multiply and encode a few points.",
 "internal/bls/bls_all.go internal/bls/bls_kilic.go internal/bls/bls_hbls.go", ["operations and encodings @ internal/bls/bls_kilic.go", "linear combination @ internal/bls/bls_kilic.go LinCombG1", "pairing equation @ internal/bls/bls_kilic.go PairingsVerify", "text form @ internal/bls/bls_all.go"],
 INPUT, INOTE+"The reference model multiplies points by affine formulas on big integers. ", "exploration")

with open(root+"/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=m[0], where=m[1]) for m in p["mech"]])))+"\n")
m = dict(version=1, setup_cmd="mc/setup", checks=[], not_applicable=[],
    notes="No hooks in /repo: the checks rewrite a copy of its packages at build time (mc/rewrite) and add harnesses by overlay. mc/check ID runs a check, mc/replay FILE replays a violation.")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if p["claimed"]:
        m["checks"].append(dict(property=p["id"], quick_cmd="mc/check "+p["id"], thorough_cmd="VERIF_TIER=thorough mc/check "+p["id"],
            technique=p["tech"], level=p["level"], level_note=p["note"].strip()))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["note"]))
json.dump(m, open(root+"/MANIFEST.json", "w"), indent=1)
