#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in one readable place; the jsonl is what counts).
import json, os
F = {
 "co": "cmd/coordinator/Coordinator.go", "ch": "cmd/coordinator/CoordinatorHandler.go", "cl": "cmd/coordinator/CoordinatorLauncher.go",
 "sh": "cmd/server/AnonServerHandler.go", "sl": "cmd/server/ServerLauncher.go", "ss": "cmd/server/AnonServer.go",
 "kh": "cmd/client/ClientHandler.go", "kl": "cmd/client/ClientLauncher.go",
 "br": "cmd/bridge/bridge.go", "ut": "util/Util.go", "ps": "util/shuffle/pair.go", "s1": "util/shuffle/simple.go",
 "pe": "primitive/pedersen/PedersenCommitment.go", "fo": "primitive/fujiokam/FujiOkamCommitment.go", "eq": "primitive/pedersen_fujiokam/equality.go",
}
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [F[f] for f in files],
        "state": [{"name": a, "meaning": b, "where": F[c]} for a, b, c in state],
        "mechanism": [{"name": a, "where": F[b]} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

NOSYS = "The existing tests exercise single primitives with one input each; nothing in them runs the coordinator, servers and clients together, so "

p("C01", "The committed reputation ledger is exact across rounds",
  "At every announcement, the published commitment of each registered client opens, under the commitment bases published with it, to that client's starting credit of 5 plus the sum of all votes accepted for it in the rounds completed since it joined, and to nothing else. Shuffling, re-randomising, base changes, other clients' votes, new registrations and any number of rounds never change, swap, lose or invent anybody's value.",
  ["histories", "schedules", "configurations"], "every number of servers (0 excluded), clients and rounds, every sequence of posts, requests and votes, every message timing and map iteration order",
  NOSYS + "no test reaches even one complete round, let alone every vote/registration history and table order.",
  ["cl", "ch", "sh", "pe"], [("round-end update of every commitment by a commitment to the vote difference", "cl"), ("per-server re-randomisation of commitments and bases, and rebinding of values to shuffled keys", "sh")],
  [("BeginningCommMap/EndingCommMap", "commitments before/after mixing", "co"), ("ReputationDiffMap", "votes of the round", "co")],
  ["ANNOUNCEMENT_FINALIZE, BCAST_PEDERSEN_RDIFF and ROUND_END messages on the wire"])

p("C02", "A client's own view of its reputation agrees with the ledger",
  "At every announcement a registered client's displayed reputation, and the commitment opening it was sent (initial randomness plus the later differences), open the commitment published for its own pseudonym. The differences sent to clients at round end are exactly the changes of their committed reputations, so a client that follows the protocol can always prove what it displays.",
  ["histories", "schedules", "configurations"], "every history of votes and registrations over several rounds, and every delivery timing of the round-end messages",
  NOSYS + "the client's copy of its score and randomness is never compared with the committed one.",
  ["kh", "kl", "cl", "ch"], [("randomness differences and vote differences broadcast at round end", "cl"), ("client folding both into its state", "kh")],
  [("Reputation, R", "client's score and opening", "kh")], ["client stdout, BCAST_PEDERSEN_RDIFF, ROUND_END, ANNOUNCEMENT_FINALIZE"])

p("C03", "Every round's pseudonym table is complete, exact and shared by all",
  "At every announcement the published table contains exactly one entry for each client registered so far and each initial decoy, that entry being the client's public key raised to the same secret exponent as the published generator, with no missing, duplicate or foreign entries. All clients and all servers are sent the same table, generator and bases, and after round end the servers hand back exactly the same set of long-term keys.",
  ["histories", "schedules", "configurations"], "every number of servers, clients and rounds, every registration moment, every shuffle permutation and map order",
  NOSYS + "the exponent/shuffle/reverse path through the server chain is never executed.",
  ["sh", "ch", "cl", "ps"], [("exponentiation of every key by each server's round key with a key map for the way back", "sh"), ("table distribution", "ch")],
  [("KeyMap", "map from blinded to previous key", "ss")], ["ANNOUNCEMENT, ANNOUNCEMENT_FINALIZE, ROUND_END messages"])

p("C04", "Pseudonyms, order and commitments are fresh in every round",
  "Every server applies a fresh random exponent, a fresh uniformly random permutation and a fresh random re-randomisation factor each time it processes the table in each direction. So generators, pseudonyms, commitments and table positions never repeat between rounds or hops, and nothing one round publishes fixes a client's position or pseudonym in the next.",
  ["histories", "schedules", "inputs"], "all rounds, hops, server counts and random draws",
  NOSYS + "freshness across rounds and uniformity of the permutations are never looked at.",
  ["sh", "ps"], [("per-round round key reset", "sh"), ("Fisher-Yates permutation and fresh cipher", "ps")],
  [("Roundkey", "server exponent of the round", "ss")], ["keys/vals/g of successive messages"])

p("C05", "Only a bridge its pseudonym's owner posted this round is ever assigned",
  "Every bridge that is assigned was posted during the current round's open window in a message validly signed by the registered pseudonym recorded as its provider; unsigned, altered, replayed or foreign posts, and posts under unregistered pseudonyms, have no effect. An honest post delivered in the window is always recorded under its poster and stays available until assigned or until the round ends.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all message alterations, replays, duplicates, timings and posters",
  NOSYS + "no forged, altered, duplicated or stale post is ever handled.",
  ["ch", "co", "br", "ut"], [("signature verification against the pseudonym and the round's generator", "ch"), ("clearing bridges at round end", "cl")],
  [("Bridges", "posted bridges with provider and use flag", "co")], ["SIGN_ASSIGNMENTS and GOT_SIGNS contents against POST_BRIDGE deliveries"])

p("C06", "Nobody obtains bridges with an indicator above their reputation",
  "The coordinator assigns bridges for a request only if it is validly signed by a registered pseudonym of the current round and proves that the pseudonym's committed reputation is at least the requested indicator. Forged, altered, replayed-proof, negative-remainder or wrapped-around proofs are refused, while a genuine request with an indicator from 1 up to the client's reputation is always served while bridges are available.",
  ["inputs", "histories", "schedules"], "all byzantine requesters and all honest indicators, reputations and rounds",
  NOSYS + "proof tests check one honest proof each and never an adversarial one.",
  ["ch", "br", "fo", "eq", "kl"], [("recommitment, difference, non-negativity and equality checks", "br"), ("client-side indicator check", "kl")],
  [("EndingCommMap", "commitments by pseudonym", "co")], ["REQUEST_BRIDGES in, SIGN_ASSIGNMENTS out"])

p("C07", "Each server signs assignments only after checking the proof itself",
  "Whatever the coordinator sends it, a server produces signatures on assignments only when the request proof in that message verifies against the commitment it itself was given for the requesting pseudonym this round; otherwise it signs nothing and reports failure. For a valid message it returns one signature per assignment, each verifying under its registered public key.",
  ["inputs", "histories", "schedules"], "all alterations of the signing request between coordinator and server, any server of any chain length",
  NOSYS + "no server handler is executed at all.",
  ["sh", "br", "fo", "eq"], [("independent proof verification before signing", "sh")],
  [("EndingCommMap", "the server's copy of the table", "ss")], ["SIGN_ASSIGNMENTS in, GOT_SIGNS out"])

p("C08", "A bridge is assigned at most once, to the requester, within the indicator",
  "Within a round each posted bridge goes to at most one request, each honoured request receives at most its indicator's number of distinct bridges and exactly as many as are available up to it, and every assignment names the true requester, bridge and provider. A bridge or request never carries over into a later round, and re-posting a bridge or re-sending a request yields nothing more.",
  ["histories", "schedules", "inputs"], "all interleavings of concurrent posts and requests, duplicates and replays, over several rounds",
  NOSYS + "allocation is never run with competing or repeated requests.",
  ["co", "ch", "cl"], [("marking bridges used at allocation", "co"), ("clearing at round end", "cl")],
  [("Bridges", "posted bridges with provider and use flag", "co")], ["SIGN_ASSIGNMENTS contents"])

p("C09", "Each assignment reaches its requester once, with every valid signature",
  "For every assignment the servers sign, the requesting client (and nobody else) receives exactly one message containing that assignment and one signature from each server in chain order plus the coordinator's, all of which verify under their registered keys, and displays the bridge. Forged, duplicated or reordered server replies never cause an incomplete, wrongly signed or repeated delivery.",
  ["schedules", "histories", "fault_sequences"], "all orders and timings of server replies for several concurrent requests, and forged or duplicated replies",
  NOSYS + "signature collection from several servers is never run.",
  ["ch", "co", "kh"], [("per-bridge signature log with one slot per server", "co"), ("client check of the coordinator's signature", "kh")],
  [("AssignmentSignaturesLog, RequesterAddrs", "collected signatures, reply addresses", "co")], ["GOT_SIGNS to the client and client stdout"])

p("C10", "Votes count once, at face value, and only from the bridge's recipient",
  "The difference applied to a provider in a round is exactly the sum of the +1/-1 feedbacks of authentic votes, at most one per assignment, each signed by the pseudonym the bridge was assigned to and carrying every server's and the coordinator's valid signature. Forged, altered, replayed, oversized, stale or third-party votes change nothing, and an honest vote delivered before voting ends is always counted for the bridge's provider.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all vote alterations, duplicates, replays across rounds, voters and timings",
  NOSYS + "no vote is ever cast in a test.",
  ["ch", "br", "kl"], [("client, server and coordinator signature checks", "ch"), ("vote message encoding", "br")],
  [("ReputationDiffMap", "votes of the round", "co")], ["VOTE in, ROUND_END out"])

p("C11", "Rounds always complete, whatever the timing",
  "With all parties running and messages delivered, every round goes through announcement, posting, voting and end in that order once the operator advances it, for every number of servers and clients and every scheduling, delay and operation timing; no participant crashes, hangs or skips a phase, or uses one of its tables from two of its activities at once, which would end it. Each registered client is sent every phase message of every round it takes part in, exactly once and in order.",
  ["schedules", "configurations", "histories"], "all interleavings of operator, listener and network, slow links and slow nodes, operations at any moment",
  NOSYS + "concurrency between operator loop and message handling is never exercised.",
  ["cl", "ch", "sl", "sh", "kh", "kl"], [("status-polling life cycle and listener", "cl")],
  [("Status", "phase variable shared by life cycle and listener", "co")], ["process exits, phase messages, operator prompts"])

p("C12", "A crashed or unreachable client never stops the others",
  "If any set of clients exits, crashes or becomes unreachable at any moment, the coordinator and servers keep running, and the remaining clients still register, receive every phase message, bridges and reputation updates, with the same guarantees as before.",
  ["crash_points", "fault_sequences", "schedules"], "every client crash or exit point, connection failures to clients, any number of them",
  NOSYS + "no test has a client that dies.",
  ["ut", "ch", "cl"], [("message sending", "ut"), ("client address table", "co")], [], ["process exits, messages to the surviving clients"])

p("C13", "Malformed network input and user commands never bring a process down",
  "Connections that carry nothing, truncated, corrupt, unknown or incomplete messages, or that break mid-message, leave the coordinator and servers running with unchanged state, so later valid messages are handled normally. Malformed lines typed at a client never terminate it.",
  ["inputs", "fault_sequences"], "all malformed byte strings, truncations at every point, missing or mistyped fields, malformed command lines",
  NOSYS + "decoders only ever see well-formed data.",
  ["cl", "sl", "ut", "kl"], [("listener loop around message handling", "cl"), ("decoders", "ut"), ("command loop", "kl")], [], ["process exits, subsequent rounds"])

p("C14", "Clients may join at any time and take part from the next round",
  "A client that starts at any moment after the coordinator does - before the first round, during an announcement, posting, voting or round end - is eventually registered exactly once, with starting credit 5, and appears in the next announced table. Its arrival never disturbs the running round or the clients already in it.",
  ["schedules", "histories"], "all registration moments relative to phases and server-chain progress, several clients joining at once",
  NOSYS + "registration is never run concurrently with a round.",
  ["ch", "cl", "sh", "kh"], [("new-client buffer merged at round end", "cl"), ("registration passing the server chain", "sh")],
  [("NewClientsBuffer", "clients to add at round end", "co")], ["CLIENT_REGISTER_*, ANNOUNCEMENT_FINALIZE"])

p("C15", "Servers form one complete chain and share one set of parameters",
  "Whatever the order and timing in which servers start during configuration, they form one chain: announcements visit each of them exactly once in registration order and round ends exactly once in reverse order. Every server contributes its own random exponent to the commitment base that all servers are then told, and a server that starts after configuration ended is left out without disturbing the chain.",
  ["schedules", "configurations"], "all numbers, start orders, delays and simultaneous registrations of servers, and late servers",
  NOSYS + "server registration is never run.",
  ["ch", "sh", "cl", "sl"], [("previous/next hop linking at registration", "ch"), ("contribution to the Pedersen base", "sh")],
  [("ServerList, NextHop, PreviousHop", "chain", "co")], ["SERVER_REGISTER*, UPDATE_*, BCAST_PEDERSEN_H, ANNOUNCEMENT, ROUND_END"])

p("C16", "A server refuses a table whose shuffle proof does not verify",
  "A server that receives a table from another server processes and forwards it only if the shuffle proof in the message verifies for the lists and key in it; any alteration of the proof, the shuffled pairs, the pre-shuffle lists or the prover's key stops the table there. A proof verifies only when the shuffled pairs are a re-encrypted permutation of the pre-shuffle pairs: a dishonest server cannot make one for any other pairs, also not by leaving out or replacing parts of the protocol. Tables honestly shuffled by the previous server are always accepted.",
  ["inputs", "fault_sequences", "configurations"], "all alterations of proof material on either pass at any hop, all honest shuffles of any size",
  NOSYS + "the shuffle test does not even compile, and tampering is never tried.",
  ["sh", "ps", "s1"], [("verification of the previous shuffle before processing", "sh"), ("pair shuffle verifier", "ps")], [], ["ANNOUNCEMENT and ROUND_END between servers"])

p("C17", "A client never goes on with commitment parameters it could not verify",
  "A client challenges each of the six commitment generators with fresh random bits after receiving the parameters, and terminates if any of the answers fails to verify against the parameters and commitments it was sent; with honest parameters and answers it always continues.",
  ["inputs", "fault_sequences"], "all alterations of any generator, modulus, commitment or answer in transit",
  NOSYS + "the check is only tested on honest values and outside the client.",
  ["kh", "fo"], [("challenge/answer check over six generators", "fo"), ("client abort", "kh")], [], ["CLIENT_REGISTER_CONFIRMATION, GN_HONESTY_*; client exit"])

p("C18", "Answers to parameter challenges never reveal the secret exponents",
  "The coordinator never answers two different challenges with respect to the same proof commitments, so no set of clients can combine answers to learn the secret exponents relating the commitment generators; every honest client's first challenge is answered correctly.",
  ["histories", "schedules", "inputs"], "any number of clients and challenges, duplicated, replayed and adversarial challenges",
  NOSYS + "only a single challenge is ever answered.",
  ["ch", "cl", "fo"], [("proof secrets and answers", "ch")], [("AllGnHonestyProofSecret", "proof secrets", "co")], ["CLIENT_REGISTER_CONFIRMATION, GN_HONESTY_CHALLENGE, GN_HONESTY_ANSWER"])

p("C19", "Signatures bind to their signer and never leak the signing key",
  "Every signature of a client, server or the coordinator uses its own unpredictable nonce, so no two signatures or public information allow anyone to compute a private key. Every signature verifies under its signer's key only: a signature made without the private key is never accepted from or for anybody.",
  ["histories", "inputs"], "all signatures made over any number of messages, rounds and signers, and all forgeries made from public values",
  NOSYS + "no test signs twice or tries a forgery.",
  ["ut", "kl", "sh", "co", "kh"], [("ElGamal-style signing with a caller-supplied random stream and base", "ut")], [], ["all signature fields on the wire"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
