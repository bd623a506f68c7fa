# What check.py runs for each property, and the text of properties.jsonl and
# MANIFEST.json (mkmeta.py writes both from this file).
CRYPTO = ["core_test.go", "world_test.go", "fill_test.go"]
SHARED = {"crypto": CRYPTO, "net": CRYPTO + ["net_test.go"]}

PROPS = {}


def prop(pid, title, statement, over, text, why, files, mechanism, rule, technique, note, level="exploration", shared="net", extra=(), assumptions=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, anchors=files, mechanism=mechanism, rule=rule,
                      technique=technique, note=note, level=level, shared=shared, files=["%s_test.go" % pid.lower()] + list(extra), assumptions=list(assumptions), **kw)


TIME = "time is virtual (testing/synctest): code takes no time, only sleeps, timers and injected network delays do"
NET = "the transport is an in-memory one that hands requests to the real handlers; TCP and HTTP framing are not exercised"

prop("P01", "A threshold certificate needs a threshold of distinct known gossipers",
     "A threshold signature on a statement is accepted exactly when it combines the signatures of at least the configured number of distinct, known gossipers on that very statement. Any such set of gossipers can produce an accepted certificate, fewer cannot, also not by repeating a signer or by naming unknown ones, and every party judges the same certificate alike. Certificates and signature fragments mean the same after they were serialized and read back.",
     ["inputs", "configurations"], "for every set of gossipers, threshold, statement, set of real signers and list of claimed signers, and for every object kind that is certified",
     "The tests sign once with the full fixture set of four gossipers; the guarantee is about all subsets, repeated or unknown signers and all thresholds.",
     ["crypto/bls.go", "crypto/crypto_config.go", "crypto/types.go", "definition/Verify.go"],
     [("threshold verification", "crypto/crypto_config.go ThresholdVerify, crypto/bls.go ThresholdSig.Verify"), ("aggregation", "crypto/bls.go ThresholdAggregate"), ("certified objects", "definition/Verify.go Verify_PayloadThreshold")],
     "random gossiper sets (1-7), thresholds, signer multisets and claimed signer lists with a tampering operation; keys of fixed test identities and freshly generated ones. Non-trivial: the certificate is to be accepted, or it was tampered with; distinct by threshold, signers, claim and tampering.",
     "property-based testing (rapid): generated signer sets and forgeries against a set-membership oracle and direct BLS verification",
     "The expected verdict is computed from who really signed; a forgery outside the generated tampering operations is not tried.")

prop("P02", "Only authentic gossip objects are accepted, and they are bound to their role",
     "An STH, a revocation, an accusation, a fragment or a certified object is accepted only if the signers it names really signed exactly the statement it carries, about the entity it names, of the kind its type says and, for STHs and revocations as published, for the period it is labelled with. Genuine objects are accepted by every party; anything else has no effect on gossipers and monitors and is not passed on.",
     ["inputs"], "for every object derived from genuine ones by changing type, period, signer, entity, payload fields, signatures or splitting of the payload, or by another party signing in its own or a foreign name",
     "The tests only verify well-formed objects; forgeries, relabelled and recombined objects are an unbounded space.",
     ["definition/Verify.go", "definition/Types.go", "crypto/rsa.go", "gossiper/gossiper_server.go", "monitor/monitor.go"],
     [("verification by type", "definition/Verify.go Verify"), ("gossiper endpoints", "gossiper/gossiper_server.go Gossip_object_handler"), ("monitor endpoint", "monitor/monitor.go receiveGossip")],
     "a genuine object of any of the ten types in a random world, then 0-3 random forging operations; verdict compared with an independent authenticity predicate that uses crypto/rsa and the BLS library directly; the object is also posted to a gossiper and a monitor. Every case is non-trivial; distinct by type, operations, entity and period.",
     "property-based testing (rapid): mutation of genuine objects against an independent authenticity oracle, effects observed on the real handlers in virtual time",
     "Soundness for all cases; acceptance is required for unmodified objects.", assumptions=[TIME, NET])

prop("P03", "A conflict proof convicts exactly the entities that equivocated",
     "A proof of conflicting statements is accepted exactly when the accused entity itself signed both statements, they are of the same kind and for the same period, and they differ. An accepted proof makes a gossiper list the accused as malicious and pass the proof on to all peers and its monitor, which keeps it; a rejected one has no effect on anybody.",
     ["inputs", "histories"], "for every pair of statements of any entities, periods and kinds, signed by anybody, combined into a proof",
     "Tests build one proof from two fixture objects; soundness is a statement about all pairs a liar could combine, in particular the honest statements of different periods.",
     ["definition/Verify.go", "gossiper/gossiper_server.go", "monitor/monitor.go"],
     [("proof verification", "definition/Verify.go Verify_CON"), ("conviction", "gossiper/gossiper_server.go Handle_CON_INIT"), ("monitor", "monitor/monitor.go")],
     "two generated statements related in one of 14 ways (equivocation, same, other period, other kind, forged, signed by others, relabelled accused ...) in either order, at a random minute. Every case is non-trivial; distinct by relation and content.",
     "property-based testing (rapid): generated statement pairs against an independent conviction oracle, effects observed on the real handlers",
     "Histories of one hour: period labels repeat every 60 minutes, so equal labels of different hours are out of scope.", assumptions=[TIME, NET, "statements of one hour: labels are minutes of the hour"])

GSIM = ["gsim_test.go"]
HOUR = "histories shorter than one hour: period labels are minutes of the hour and repeat"
GFILES = ["gossiper/gossiper_server.go", "gossiper/Interface.go", "definition/Verify.go"]

prop("P04", "Equivocation seen by a gossiper is detected, proven and never forgotten",
     "When two genuine statements of the same entity, of the same kind and for the same period but with different content reach a gossiper, in either order, from anybody, also simultaneously and also after one of them was certified, before that period's storage reset, the gossiper convicts the entity and sends a valid proof of the conflict to all its peers and its monitor, once. The conviction lasts for all later periods, and statements of a convicted entity are no longer endorsed. Nobody else is ever convicted: repeated, forged, stale or differing-period statements convict no one.",
     ["histories", "schedules", "inputs"], "for every history of deliveries of genuine, repeated, conflicting and forged objects over several periods, with every interleaving of simultaneous deliveries",
     "The tests have no misbehaving entity at the gossiper; detection is a statement about all orders and timings of conflicting deliveries.",
     GFILES, [("duplicate/conflict detection", "gossiper/gossiper_server.go Handle_STH_INIT, Handle_REV_INIT, gossiper/Interface.go"), ("proof", "gossiper/gossiper_server.go Handle_CON_INIT"), ("conviction lists", "gossiper/Interface.go")],
     "sequential: histories of up to 40 deliveries over 1-3 periods compared with a reference model of a gossiper (every conviction, every sent conflict proof); concurrent: 2-12 simultaneous deliveries of two or three versions. Non-trivial: an entity equivocates in the history or a look-alike conflict is delivered; distinct by history.",
     "stateful property-based testing (rapid) against a reference model in virtual time; concurrent variant over goroutine schedules",
     "Conflicts that arrive only after the storage reset 20 s before the end of the period are not claimed.", extra=GSIM, procs=2, assumptions=[TIME, NET, HOUR])

prop("P05", "A gossiper endorses one statement per entity and period, after the waiting time",
     "A gossiper signs a fragment only for the first genuine statement it saw of an entity of that kind for that period, exactly once, when the configured waiting time has passed, and only if no conviction of that entity became known by then. It endorses accusations only when they come from its own monitor, at once. Every fragment is the gossiper's own valid signature on exactly that statement and goes to all peers, and no two fragments it signs in a period contradict each other.",
     ["histories", "schedules"], "for every history of statements, repetitions, conflicts, proofs and accusations over several periods and every moment at which a conviction arrives within the waiting time",
     "Tests run one clean exchange; the discipline is about all histories, in particular events that fall into the waiting time.",
     GFILES, [("waiting and signing", "gossiper/gossiper_server.go Handle_STH_INIT, Handle_REV_INIT"), ("accusations", "gossiper/gossiper_server.go Handle_ACC_INIT"), ("fragment generation", "definition/Verify.go, crypto/bls.go")],
     "histories over 1-3 periods and a focused generator that places a proof, an accusation certificate or a conflicting statement at any 100 ms step around the end of the waiting time; every own fragment (content, time, receivers) compared with the reference model. Non-trivial: at least one fragment is due or one is to be withheld; distinct by history.",
     "stateful property-based testing (rapid) against a reference model in virtual time",
     "Exact signing times are asserted in virtual time only.", extra=GSIM, assumptions=[TIME, NET, HOUR])

prop("P06", "A statement is certified exactly when a threshold of valid fragments arrived",
     "A gossiper issues the certificate of a statement exactly once, at the moment it has valid fragments of the configured number of distinct gossipers on that very statement, its own included, in whatever order and however often or simultaneously they arrive. Invalid, repeated or foreign fragments never count and never keep a certificate from being issued, and the certificate it issues verifies everywhere. A certified accusation convicts its subject.",
     ["histories", "schedules", "inputs"], "for every order, multiplicity, mix of valid and invalid fragments over several statements and periods, and every interleaving of simultaneous deliveries",
     "The tests deliver exactly the needed fragments in one order.",
     GFILES + ["crypto/bls.go"], [("fragment counting", "gossiper/gossiper_server.go Handle_OBJ_FRAG"), ("aggregation", "gossiper/gossiper_server.go, crypto/crypto_config.go ThresholdAggregate")],
     "histories with fragments of random gossipers, valid and damaged, over several statements compared with the reference model; concurrent: all fragments of a statement at once with duplicates and invalid ones. Non-trivial: at least one certificate is due or the threshold is missed by one; distinct by history.",
     "stateful property-based testing (rapid) against a reference model in virtual time; concurrent variant over goroutine schedules",
     "Periods are separated by the storage reset as the code defines it.", extra=GSIM, procs=2, assumptions=[TIME, NET, HOUR])

prop("P07", "Gossip converges: what one correct gossiper learns, all learn and certify",
     "In a connected network of gossipers with arbitrary bounded delays, duplicated messages and some unreachable members, every statement, accusation or proof that reaches one correct gossiper reaches all of them and their monitors. An honest entity's statement ends up certified at every correct monitor when a threshold of gossipers is alive, an equivocating entity is convicted at every correct gossiper, and the certificates of different gossipers for the same statement are all valid and agree on it.",
     ["schedules", "faults", "configurations"], "for every connected topology, delay assignment, duplication pattern, set of unreachable members below the threshold margin, and every way an equivocating or silent entity spreads its statements",
     "The network test runs one fully connected topology with no faults.",
     GFILES + ["monitor/monitor.go"], [("flooding", "gossiper/gossiper_server.go Send_to_Gossipers"), ("endorsement and aggregation", "gossiper/gossiper_server.go"), ("delivery to the monitor", "gossiper/gossiper_server.go Send_to_Monitor, monitor/monitor.go")],
     "networks of 3-6 gossipers with real monitors; random connected or full topologies, delays, duplicates, dead members; entities honest, equivocating (different statements to different gossipers), silent or accused; end state of all live parties compared with the expected one. Non-trivial: every network with at least one statement; distinct by topology, faults and entity behaviours.",
     "property-based testing (rapid) of whole simulated networks with fault injection against an end-state oracle",
     "Message delays are bounded so that flooding completes within the waiting time, which is the protocol's synchrony assumption; topologies are connected after removing the dead members.", extra=GSIM, assumptions=[TIME, NET, "synchrony: flooding completes within the gossip waiting time"])

prop("P08", "Every new object is passed on to every peer exactly once",
     "Each genuine statement, fragment and proof a gossiper sees for the first time in a period is sent (a revocation: announced, and delivered on request) to every connected gossiper exactly once and, where monitors use it, to its own monitor exactly once, unchanged, however often and however simultaneously it is delivered. Repetitions, forgeries and malformed objects are never passed on, and failures of some peers do not keep the object from the others.",
     ["histories", "schedules", "faults"], "for every history of deliveries with repetitions and damaged objects, every set of failing peers and every interleaving of simultaneous deliveries of the same object",
     "A storm or a silently dropped message needs particular repetitions or interleavings that unit tests do not sample.",
     GFILES, [("duplicate suppression", "gossiper/Interface.go, gossiper/gossiper_server.go"), ("sending", "gossiper/gossiper_server.go Send_to_Gossipers, Send_to_Monitor")],
     "histories over 1-3 periods compared message by message (receiver, path, body) with the reference model; concurrent: the same object delivered by up to 12 senders at once, some peers failing. Non-trivial: something is to be passed on and something is repeated or damaged; distinct by history.",
     "stateful property-based testing (rapid) against a reference model in virtual time; concurrent variant over goroutine schedules",
     "The sending order between peers is free.", extra=GSIM, procs=2, assumptions=[TIME, NET, HOUR])

prop("P09", "Monitors accuse who answered nobody, and only a threshold of them convicts",
     "A monitor accuses a CA or logger exactly when its query in that period failed or was answered with something invalid and, when the waiting time is over, neither a statement of that entity for the period nor a proof of its misbehaviour has arrived by gossip; a valid answer is passed on to its gossiper. An entity that answers at least one monitor is not accused by anybody, one that fails a threshold of monitors is convicted everywhere, and fewer accusers than the threshold convict nobody.",
     ["histories", "faults", "schedules"], "for every pattern of failing, slow, damaged or forged answers over several periods, every timing of gossip that arrives meanwhile and every subset of monitors that reach an entity",
     "Tests query healthy fixtures; the guarantee is about partial failures and their timing.",
     ["monitor/monitor.go", "monitor/types.go", "monitor/monitor-server.go", "gossiper/gossiper_server.go"], [("queries and accusations", "monitor PeriodicTasks, QueryLoggers, QueryAuthorities, AccuseEntity"), ("accusation endorsement", "gossiper/gossiper_server.go Handle_ACC_INIT"), ("gossip endpoint", "monitor receive-gossip-from-gossiper")],
     "one monitor with scripted CAs, loggers and gossip over 1-3 periods, everything it sends compared with a model to the millisecond; networks of 2-4 gossipers and monitors with a random reachability matrix. Non-trivial: at least one query fails; distinct by script.",
     "model-based property testing (rapid) with injected faults in virtual time",
     "An entity reached only in part counts as answering, as the protocol intends.", extra=GSIM, assumptions=[TIME, NET, HOUR])

CLI = GSIM + ["cli_test.go"]
CERT = CLI + ["cert_test.go"]

prop("P10", "A monitor publishes exactly what is certified and every proof exactly once",
     "The update a monitor publishes for a period holds exactly the certified STHs and revocations of that period it received in time, except those of entities it knows to have signed conflicting statements, and the proofs of misbehaviour it learned since the last update; no proof is lost, also not one that arrives while the update is being made, and none is published again. Forged objects never get into an update. The update of every past period stays readable and is what the monitor serves on request, and the revocation vectors it keeps are the union of the certified revocations.",
     ["histories", "schedules", "inputs"], "for every history of certified objects, proofs, repetitions and forgeries delivered at any moment of several periods, including the moment the update is made",
     "Tests produce one update from fixtures; completeness and once-only publication are about arrival times and histories over periods.",
     ["monitor/monitor.go", "monitor/client-update-monitor.go", "monitor/types.go", "monitor/monitor-server.go"], [("update", "monitor/monitor.go GenerateUpdate, monitor/monitor-server.go PeriodicTasks"), ("storage", "monitor/types.go"), ("serving", "monitor get-update handler")],
     "one real monitor over 1-4 periods with up to 22 timed deliveries (certified objects, conflict proofs, accusations, forgeries, repetitions), its files compared with a model after every update and requested again at the end; a second test delivers proofs at the very moment of the update under real goroutine schedules. Non-trivial: an update is not empty; distinct by history.",
     "model-based property testing (rapid) of timed histories in virtual time; concurrent variant over goroutine schedules",
     "A certificate that arrives after the update of its period is not required to be published.", extra=CLI, procs=2, assumptions=[TIME, NET, HOUR])

prop("P11", "Revocations reach the clients completely, and tampered ones are noticed",
     "Every certificate a CA revokes is known as revoked at the monitors and clients after the next update, over all periods, and no other certificate is. A client applies a revocation update only if it is exactly the change the CA signed for that period and its result is what the CA signed; missing, repeated, altered, foreign or relabelled changes are rejected and leave the client's vector as it was.",
     ["histories", "inputs"], "for every sequence of revocations at any time in several periods, any certificate number, mass revocations and hour wrap, and every chain of updates with gaps, repetitions and tampering",
     "The tests revoke once in one period; the guarantee is about the chain over periods and about all alterations.",
     ["CA/CRV.go", "CA/server.go", "monitor/monitor.go", "monitor/client-update-monitor.go", "client/client.go"], [("revocation vector", "CA/CRV.go"), ("publication", "CA/server.go GenerateREV / PeriodicTask"), ("certified vector at the monitor", "monitor/monitor.go"), ("client check", "client HandleUpdate, VerifySRH")],
     "end to end: two real CAs, a real monitor and a real client over 2-5 periods with up to 14 timed revocations (numbers up to 1200000) and mass revocation; chain: up to 10 offers out of a chain of up to 6 periods with 13 kinds of tampering. Non-trivial: something is revoked or offered with effect; distinct by history.",
     "model-based property testing (rapid) of histories in virtual time against a set model; tampering generator for the chain",
     "The client is present from the first period: a later joining client cannot check the chain (known limitation).", extra=CLI, assumptions=[TIME, NET, HOUR])

prop("P12", "A client accepts a certificate exactly when it is logged and not revoked",
     "A client accepts a certificate exactly when it carries at least one entry of a logger that signed the tree head itself, whose tree head the client knows as certified with that very root, against which the client knows no proof of misbehaviour, and whose proof of inclusion leads from the certificate's subject to that root; and when the client has the revocation vector of the issuer and the certificate's number is not in it. The decision follows every update the client takes.",
     ["inputs", "histories"], "for every certificate with any number and combination of genuine and defective entries and every history of updates before the decision",
     "Tests verify one good certificate; soundness is about all defective or recombined entries and all states of knowledge.",
     ["client/client.go", "client/types.go", "CA/types.go", "crypto/MerkleTree.go"], [("decision", "client VerifyCTngextension"), ("proof of inclusion", "crypto VerifyPOI"), ("extension", "CA/types.go ParseCTngextension")],
     "1-3 loggers with generated logs of two periods, certificates with 0-3 entries out of 14 kinds of defects, then 3-16 updates and decisions compared with a model whose Merkle proofs are computed independently. Non-trivial: a certificate with entries is judged by a client that knows a log; distinct by history.",
     "stateful property-based testing (rapid) against an independent decision model",
     "The binding of leaf and certificate is the subject, as in the code; host name and validity checks belong to TLS.", extra=CERT)

prop("P13", "A client takes over only certified facts and still knows them after a restart",
     "A client takes a root, a revocation or a proof of misbehaviour into its databases only if it is genuine: certified by a threshold of gossipers or, for a conflict, signed twice by the accused; an update with anything else in it, or with objects in the wrong place, is rejected, and the client stays usable. What it has taken over survives saving and restarting exactly, processing an update again changes nothing, and fetching or loading an update either yields exactly the published one or reports an error.",
     ["histories", "inputs", "crash points"], "for every sequence of genuine and spoiled updates, repetitions and restarts",
     "Tests load one fixture update; the guarantee is about all spoiled objects and about the state after any history and restart.",
     ["client/client.go", "client/types.go"], [("updates", "client HandleUpdate"), ("databases on disk", "client Save/Load databases, InitializeClientContext"), ("fetching", "client FetchClientUpdate, LoadUpdate")],
     "1-6 updates over the entities of a random world, objects spoiled in 9 ways or misplaced, restarts in between, databases compared with a model after each step; fetches with 6 kinds of answers. Non-trivial: something was taken over and something spoiled or a restart happened; distinct by history.",
     "stateful property-based testing (rapid) against a model of the databases, with restarts",
     "Of a rejected update the genuine part may or may not have been taken over.", extra=CLI, assumptions=[NET])

prop("P14", "Every precertificate a logger took is provably in the tree it publishes",
     "The tree head a logger signs for a period commits to exactly the precertificates it took since the last one: its root and size are those of a Merkle tree over them, and each of them gets a proof of inclusion that verifies against that root and is sent to its issuing CA, which also gets the tree head. Precertificates that arrive while the tree is built are in this tree or in the next one; ones that no CA known to the logger has signed are refused, repeated or malformed ones do no harm, and no proof verifies for a certificate that is not in the tree or after any part of it was changed.",
     ["inputs", "histories", "schedules"], "for every set of precertificates of every size including none and one, every proof and alteration of it, and every history of submissions over several periods, also at the moment of tree building",
     "The tests build one small tree; sizes, positions, alterations and submission times are an unbounded space.",
     ["Logger/buildmerkle.go", "Logger/server.go", "crypto/MerkleTree.go"], [("tree and proofs", "crypto/MerkleTree.go GenerateMerkleTree, GeneratePOI, VerifyPOI"), ("tree head", "Logger/buildmerkle.go"), ("submission and publication", "Logger/server.go")],
     "trees of 0-300 leaves: root, size and every proof compared with an independent Merkle tree and tampered with; a real logger over several periods with timed, repeated, forged and malformed submissions, shared keys and an unreachable CA. Every tree case is non-trivial, a server case if something is submitted; distinct by content.",
     "property-based testing (rapid) against an independent Merkle tree; timed histories in virtual time",
     "Leaves are the subjects of the certificates, as in the code.", extra=CERT, assumptions=[TIME, NET])

prop("P15", "Issued certificates carry unique numbers and exactly the log entries proven",
     "Each certificate a CA issues has its own revocation number, never used again over all periods, is signed by the CA and has the subject, key, host names and validity of its precertificate, which was sent to every logger once. It carries exactly one entry for every logger that proved, with a genuine tree head the CA received, that the certificate is in its log, and none else: forged, foreign or altered tree heads and proofs are refused and leave the certificates as they are. A client that knows those logs as certified accepts the certificate.",
     ["histories", "inputs", "faults"], "for every history of genuine, repeated, stale and forged tree heads and proofs from several loggers for several certificates, every first number and unreachable loggers",
     "The tests issue with fixture loggers and look at no refused entry.",
     ["CA/ca.go", "CA/server.go", "CA/types.go", "crypto/certpool.go", "util/IO.go"], [("issuance", "CA/ca.go Generate_Signed_PreCert, CA/server.go SignAllCerts"), ("receiving", "CA/server.go receive_sth, receive_poi"), ("periods", "CA/server.go PeriodicTask")],
     "1-5 precertificates, 1-3 loggers with two versions of their log, up to 24 messages of which many are forged or altered; final certificates compared with a model and given to a real client; a second test runs the periodic tasks of a CA and two loggers. Non-trivial: an entry is embedded; distinct by history.",
     "stateful property-based testing (rapid) against a model; timed histories in virtual time",
     "Proofs that arrive after the CA closed the period are not claimed.", extra=CERT, assumptions=[TIME, NET])

prop("P16", "What is written or sent means the same when it is read again",
     "Configurations, keys, signatures, gossip objects, certificates with their log entries, updates and databases keep their full meaning when they are written to a file or sent as text and read back, whatever their content; signatures still verify and nothing is gained, lost or exchanged. A file or text that is missing or damaged is reported as an error and never taken for something else. Writing replaces the previous content completely, and removing old output removes only what it names.",
     ["inputs", "faults"], "for every value of every stored or transmitted type, with arbitrary identities, text, sizes and empty parts, and every truncation or corruption of the written form",
     "The tests read back fixture files; round trips are a statement about all values, damage about all positions.",
     ["crypto/crypto_IO.go", "crypto/types.go", "CA/types.go", "util/IO.go", "util/helpers.go"], [("crypto config and keys", "crypto/crypto_IO.go"), ("signature text forms", "crypto/types.go"), ("files", "util/IO.go"), ("certificate extensions", "CA/types.go")],
     "random configurations of 2-6 gossipers, signatures, objects of all ten types, certificates with random extensions, nested JSON values, databases of a client (loaded by a process of its own) and directory trees, each written and read back, then truncated, altered or replaced. Every case is non-trivial; distinct by content.",
     "property-based testing (rapid): round trips and corruption against structural equality and signature verification",
     "Damage is checked where the format can show it (signatures, structure), not for altered digits that still form a valid value.", extra=CERT)

prop("P17", "Generated configurations fit together, before and after IP mapping",
     "For every number of gossipers, monitors, loggers and CAs and every threshold, the generated configuration files belong together: each party knows itself by the address the others know it by, holds the private key to the public key the others hold of it, all parties hold the same public keys, threshold and timing, and each gossiper is connected to its peers and its monitor to it. Mapping to IP addresses replaces every address consistently and leaves everything else as it was, and the files read back as what was generated.",
     ["configurations"], "for every count of parties, threshold, periods and IP assignment",
     "The tests generate one fixed size and look at nothing; agreement is a relation between all files of a deployment.",
     ["Gen/Gen.go", "Gen/IPmapping.go"], [("generation", "Gen/Gen.go"), ("IP mapping", "Gen/IPmapping.go")],
     "1-3 loggers, CAs and 2-5 gossipers/monitors with random timing and address assignments: all files read with the parties' own readers and cross-checked pairwise by signing and verifying. Every case is non-trivial; distinct by sizes and assignment.",
     "property-based testing (rapid): generated deployments against pairwise consistency relations",
     "Key generation limits the number of deployments per run.", shared="net", extra=CERT)

prop("P18", "Malformed input crashes nobody and has no effect",
     "Whatever arrives at an endpoint of a gossiper, monitor, logger or CA, as answer to a query, or at a client, the party neither crashes nor hangs nor stops serving others. Malformed objects, proofs, precertificates, updates and requests are rejected and change nothing: what the party stores, sends, publishes and decides from then on is what it would have been without them, also if the malformed content is correctly signed.",
     ["inputs", "faults", "histories"], "for every body, damaged JSON value, signed junk, odd certificate and error answer, at any moment among genuine traffic",
     "Tests only send well-formed objects; the input space is everything that can arrive from the network.",
     ["gossiper/gossiper_server.go", "monitor/monitor.go", "monitor/client-update-monitor.go", "Logger/server.go", "CA/server.go", "client/client.go", "definition/Verify.go"], [("gossiper endpoints", "gossiper/gossiper_server.go"), ("monitor endpoints and queries", "monitor/monitor.go"), ("logger and CA endpoints", "Logger/server.go, CA/server.go"), ("client", "client/client.go")],
     "structure-aware damage (values replaced, removed, retyped, moved; truncation; random bytes; deep nesting; signatures and payloads damaged inside their text; junk signed by its real signer) mixed into genuine histories, compared with the reference model that never saw the malformed input. Non-trivial: at least one malformed input arrives; distinct by history.",
     "structure-aware fuzzing (rapid) of all endpoints inside generated histories, against a reference model without the malformed input",
     "Exhaustion of memory by oversized genuine-looking input is not covered.", extra=CERT + ["serve_test.go", "wire_test.go"], assumptions=[TIME, NET])

prop("P19", "Requests, timers and period changes at the same time lose nothing",
     "However requests, timers and period changes of a gossiper, monitor, logger, CA or client interleave, there is no data race, deadlock or crash. Entities that equivocated in time are convicted and others are not, every proof that a monitor received is published exactly once, every accepted precertificate gets into a log, and each verdict of a client is the one before or after an update, never one in between.",
     ["schedules", "histories"], "for every interleaving of requests with each other and with the period tasks",
     "The tests run without the race detector and send requests one by one.",
     ["gossiper/types.go", "gossiper/gossiper_server.go", "gossiper/Interface.go", "monitor/types.go", "monitor/monitor.go", "CA/server.go", "Logger/server.go", "client/client.go", "client/types.go"], [("storage locks", "gossiper/types.go, monitor/types.go"), ("request counters and pools", "CA/server.go, Logger/server.go"), ("client locks", "client/client.go")],
     "bursts of requests at the same generated instants, several of them those of the period tasks, against each party and against all together, proofs delivered several times while the update is made, CAs making certificates while proofs arrive, on real threads in virtual time with the Go race detector; outcomes judged by what was delivered. Every case is non-trivial; distinct by configuration and schedule.",
     "property-based testing (rapid) of concurrent histories under the race detector, outcome oracle",
     "Interleavings are sampled by the Go scheduler on several threads; the race detector judges the ordering, not only the observed outcome.", extra=CERT + ["sys_test.go"], assumptions=[TIME, NET, HOUR], race=True, procs=4)

prop("P20", "Loggers and CAs have one correctly labelled statement per period for all",
     "From the second period after its start on, an honest logger or CA has in every period exactly one genuine statement, labelled with that period, and gives the same one to everybody who asks, in any order and as often as they ask, also around the hour and over many periods. A tree head covers just the precertificates received in the preceding logging interval, a revocation lists just what was revoked since the last one, and answers take just the configured latency.",
     ["histories", "schedules"], "for every starting minute, number of periods and sequence of queries",
     "Tests run a handful of periods from the current minute and look at no label.",
     ["Logger/server.go", "Logger/buildmerkle.go", "CA/server.go", "CA/ca.go", "CA/CRV.go", "util/helpers.go"], [("serving", "Logger/server.go requestSTH, CA/server.go requestREV"), ("period tasks", "Logger/server.go, CA/server.go PeriodicTask"), ("labels", "util/helpers.go GetCurrentPeriod")],
     "random start minute (hour wrap included), 1-4 periods, precertificates and revocations in between, queries at random moments from several askers; each answer is compared with all others of its period and verified independently. Non-trivial: two periods or two queries of one period; distinct by schedule.",
     "stateful property-based testing (rapid) in virtual time against an independent verification and the agreement of all answers",
     "Query moments include the instants of publication and period change; a query is judged by the period in which it is answered.", extra=CERT + ["serve_test.go"], assumptions=[TIME, NET])

prop("P21", "Simulated misbehaviour does exactly what its kind says",
     "A logger or CA that is set up to misbehave answers, for each kind and interval, exactly as the kind says: it is silent or tells a second, conflicting statement in just those periods and to just those askers, and behaves honestly otherwise. The second statement is always genuine, for the same period and different, so that both together are a valid proof of the conflict; simulated latency stays in its range.",
     ["configurations", "histories"], "for every kind, interval, sequence of periods and queries, and every state of log or revocations",
     "Tests run one configuration of each kind; whether the experiment measures what it claims depends on all of them.",
     ["Logger/server.go", "CA/server.go", "CA/CRV.go", "Logger/buildmerkle.go", "util/helpers.go"], [("misbehaviour modes", "Logger/server.go, CA/server.go"), ("second statements", "CA/CRV.go, Logger/server.go"), ("latency", "util/helpers.go GetRandomLatency")],
     "random kind, interval, start minute, periods, query sequences and log contents; answers compared with a table of the kinds; pairs of statements checked to make an accepted conflict proof. Non-trivial: the entity misbehaves at least once; distinct by configuration and schedule.",
     "stateful property-based testing (rapid) in virtual time against a table model of the kinds",
     "The kinds are those of the configuration, not arbitrary misbehaviour.", extra=CERT + ["serve_test.go"], assumptions=[TIME, NET])

prop("P22", "A certificate pool is an ordered set of certificates",
     "A certificate pool holds each certificate that was added exactly once, in the order of first addition, also if several share a subject or a key identifier. Looking up a key identifier finds the first certificate that has it if one was added and nothing otherwise, replacing the certificate of a key identifier changes only that one, and certificates read from PEM text are those of its valid certificate blocks.",
     ["histories"], "for every sequence of additions, replacements, lookups and PEM texts",
     "Tests add one certificate; collisions of subject and key need sequences.",
     ["crypto/certpool.go"], [("pool", "crypto/certpool.go")],
     "operation sequences over 24 certificates of 6 subjects and 2 issuers in several forms, after each step the whole pool is compared with a list model. Non-trivial: at least two additions; distinct by operations.",
     "stateful property-based testing (rapid) against a list model",
     "Pools of up to about thirty certificates.", extra=CERT)

prop("P23", "End to end, clients trust what is honest and learn of every misbehaviour",
     "When all parties run together and fewer gossipers than the threshold allows are down, every live monitor publishes for each period the certified statement of every entity that gave one statement, the proof against every entity that told different ones or told nobody anything, and none against honest ones; no statement of a convicted entity is certified. Clients of all monitors accept every update, agree on every certificate, and accept one exactly when an unconvicted log provably holds it and it is not published as revoked.",
     ["configurations", "schedules", "faults", "histories"], "for every number of parties, threshold, topology, assignment of misbehaviour, outage, lost query, delay, duplicate and revocation time",
     "The integration tests run one fixed deployment in real time without judging the result.",
     ["gossiper/gossiper_server.go", "monitor/monitor.go", "monitor/types.go", "CA/server.go", "Logger/server.go", "client/client.go"], [("gossip", "gossiper/gossiper_server.go"), ("updates", "monitor/monitor.go GenerateUpdate"), ("issuance", "CA/server.go, Logger/server.go"), ("decision", "client/client.go VerifyCTngextension")],
     "2-5 gossipers and monitors, 1-3 loggers, 1-2 CAs of any kind of misbehaviour in mesh, ring or line, up to n-T of the gossipers down, 1-4 periods from any minute, delays, duplicates, lost queries, revocations and issued certificates; updates judged by what the entities were recorded to answer, clients by the updates and, where all are honest, by what was done. Every case is non-trivial; distinct by configuration.",
     "model-based simulation (rapid): the real parties in virtual time under generated faults against an end-to-end oracle",
     "Delays are small against the waiting time of the gossipers, as the protocol assumes.", extra=CERT + ["sys_test.go"], assumptions=[TIME, NET, HOUR])

prop("P24", "The gossiper's period log tells what the gossiper held",
     "The log a gossiper writes to disk has one readable entry per period, and the numbers in it are exactly the numbers of distinct statements, fragments, certificates and proofs the gossiper held in that period.",
     ["histories"], "for every history of deliveries over several periods",
     "The log is written at period ends only; the tests never look at it.",
     ["gossiper/Init.go", "gossiper/Interface.go", "gossiper/gossiper_server.go"], [("period log", "gossiper period tasks, SaveStorage / GossiperLogEntry")],
     "histories over 1-3 periods; the file is read after the last period and compared with the reference model. Non-trivial: something was delivered; distinct by history.",
     "stateful property-based testing (rapid) against a reference model in virtual time",
     "Counts as the code defines them per table.", extra=GSIM, assumptions=[TIME, NET, HOUR])

prop("P25", "Parties started at any moment keep the same periods",
     "Whenever a gossiper, monitor, logger or CA is started, it begins its work within the first seconds of the next full minute (a monitor later by its configured clock drift; one started exactly on the minute may begin at once) and then does the work of a period once a minute, at the same point of every minute and toward every party concerned, however long its messages take. Parties started at different moments of a minute therefore agree on every period: what honest loggers and CAs state for a minute is asked, certified and published by every monitor in that minute, and nobody is accused.",
     ["configurations", "schedules"], "for every second and millisecond at which each of the parties is started",
     "Tests call the servers without waiting for periods; the integration tests start everything at one moment, in real time.",
     ["gossiper/gossiper_server.go", "monitor/monitor-server.go", "monitor/monitor.go", "CA/server.go", "Logger/server.go", "util/helpers.go"], [("start", "StartGossiperServer, StartMonitorServer, StartLogger, StartCA, Getwaitingtime"), ("periods", "PeriodicTask(s) of each party")],
     "single parties started at a generated millisecond of any minute of the hour, 1-12 periods, slow messages, monitor drifts; what they send or pass on is timed against the minute. Together: 2-4 gossipers and monitors, 1-2 loggers and CAs, each started at its own moment; every update of the next 1-3 periods must hold exactly the certified statement of each entity. Non-trivial: not started on the full minute; distinct by configuration.",
     "property-based testing (rapid) of the real start functions in virtual time against the clock",
     "The start functions run up to where they would listen on a port. Gossipers and monitors are started a minute after loggers and CAs, so that there is something to monitor.", extra=CERT + ["sys_test.go"], assumptions=[TIME, NET, HOUR])
