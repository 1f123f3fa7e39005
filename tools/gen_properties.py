#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, then run."""
import json, os

P = []

def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook},
    })

IN, HI, SC, CO, FA = "inputs", "histories", "schedules", "configurations", "fault_sequences"
ALLMSG = ["messages/*.go", "serializers/json.go", "serializers/cbor.go", "serializers/msgpack.go", "serializers/helpers.go"]

# ----------------------------------------------------------------- wire format
p("M01", "Every message survives a round trip through every serializer",
  "Any message of any of the 24 WAMP message types built with the library's constructors, once serialized with JSON, CBOR or MessagePack and deserialized with the same serializer, yields a message of the same type whose every field (ids, URIs, options/details, args, kwargs, auth fields) equals the original, numbers compared by value and an absent map/list equal to an empty one only where the wire format cannot distinguish them. Absent arguments stay absent, empty ones stay empty lists, and keyword arguments without positional ones arrive as keyword arguments. A message with a value that the format cannot carry is refused with an error instead of being sent as something else.",
  [IN], "all message types x all three serializers x all field values representable in the format",
  "Tests round-trip one ABORT message with empty fields; the interop tests need an external binary that is not available.",
  ALLMSG, [("Marshal/Parse of each type", "messages/*.go"), ("Serialize/Deserialize", "serializers/{json,cbor,msgpack}.go")],
  ["Serializer.Serialize", "Serializer.Deserialize"])
p("M02", "Decoding arbitrary bytes never crashes and never yields a half-built message",
  "For every byte string, each serializer's Deserialize returns either an error or a message, never both, and never panics. A message it returns is fully usable: every accessor can be called, and if its values are in the WAMP data model it can be serialized again, and decoding that yields an equal message.",
  [IN], "all byte strings up to the frame limit, in particular truncated, mutated, mistyped and wrongly sized messages",
  "No test feeds malformed input to a serializer.",
  ALLMSG + ["messages/validator.go"], [("length and type validation", "messages/validator.go:ValidateMessage"), ("type dispatch", "serializers/helpers.go:ToMessage")],
  ["Serializer.Deserialize"])
p("M03", "Messages are put on the wire in exactly the WAMP layout",
  "The serialized form of each message is the list the WAMP specification prescribes: the message's numeric type code first, then its fields in the specified order and position, with positional arguments present whenever keyword arguments are, and neither present when the message has none. This holds for each serializer, as judged by decoding the bytes with an independent decoder.",
  [IN], "all message types x all serializers x presence/absence of optional parts",
  "Encoder and decoder could agree on a wrong layout; existing tests only check the library against itself.",
  ALLMSG, [("Marshal of each type", "messages/*.go")], ["Serializer.Serialize output bytes"])
p("M04", "Only well-formed WAMP messages are accepted",
  "A decoded list is accepted as a message exactly when its first element is a known type code, its length is within the range WAMP allows for that type, and each element has the prescribed kind (id: non-negative integer; URI/string; dictionary; list; the methods a HELLO offers: strings); everything else is rejected with an error. An accepted message carries exactly the values in the list: no element is altered, swapped or dropped.",
  [IN], "all message types x all element kinds at all positions x all lengths",
  "Tests exercise individual validators with one good and one bad value, not the per-type tables.",
  ["messages/*.go", "messages/validator.go", "serializers/helpers.go", "util/util.go"],
  [("per-type validation specs", "messages/*.go"), ("validateID/validateString/...", "messages/validator.go")],
  ["Serializer.Deserialize on independently encoded bytes", "Message.Parse"])
p("M05", "All serializers and all legal encodings of a message are interchangeable",
  "The same message decodes to equal field values whichever of the three serializers carried it, and whichever legal encoding the peer chose for its integers (any signed or unsigned width, or a float with integral value in JSON) and lengths. In particular every id from 0 to 2^53 is delivered exactly.",
  [IN], "all id values and all legal CBOR/MessagePack integer and length encodings",
  "Tests only decode what the same library encoded, which uses one encoding per value.",
  ["util/util.go", "messages/validator.go", "serializers/*.go"], [("AsUInt64", "util/util.go")],
  ["Serializer.Deserialize on independently encoded bytes"])
p("M06", "Application payload encoding round-trips and rejects garbage",
  "For each payload serializer (JSON, CBOR, MessagePack, and raw pass-through of one byte string), decoding an encoded args/kwargs payload gives back equal args and kwargs, including when either or both are empty. Unknown serializer numbers and malformed payloads (including valid documents of the wrong shape) are reported as errors, never as a panic or as silently wrong arguments, and so are arguments that the format cannot carry.",
  [IN], "all args/kwargs values x payload serializers; all byte strings when decoding",
  "The payload functions have no tests at all.",
  ["serializers/payload.go", "serializers/cbor.go"], [("SerializePayload/DeserializePayload", "serializers/payload.go"), ("EncodeCBOR/DecodeCBOR", "serializers/cbor.go")],
  ["SerializePayload", "DeserializePayload", "EncodeCBOR", "DecodeCBOR"])
p("M07", "Messages share nothing with buffers or with each other",
  "A message built from values of its own or decoded from bytes, and bytes handed out as the encoding of one, stay as they are whatever happens later: to the buffer a message was decoded from, to other messages (also those decoded from the same bytes, or made by a router for other requests), or to bytes handed out before. Encoding a message does not change it, and encoding it again gives the same message.",
  [IN, HI], "all orders of building, encoding, decoding and changing messages and buffers",
  "Tests look at one message at a time and never change it or its buffer.",
  ["messages/*.go", "serializers/*.go", "transports/rawsocket.go"], [("constructors that fill in absent options", "messages/*.go"), ("no buffers kept", "serializers/*.go")],
  ["all messages, buffers and payloads alive"])
p("M08", "Reading costs memory in proportion to the bytes read and leaves nothing behind",
  "Whatever lengths and nesting a message, a payload, a raw-socket header or a handshake message announces, reading it allocates no more memory than a fixed multiple of the bytes that were actually received (plus a constant), whether it is accepted or refused. Once messages have been dropped and handshakes are over, refused or abandoned, nothing of them is retained: memory held does not grow with the number of messages encoded and decoded or of handshakes.",
  [IN, HI], "documents of all shapes and announced lengths; unbounded traffic and handshakes",
  "Tests decode a few small messages and never look at memory.",
  ["serializers/*.go", "messages/*.go", "transports/rawsocket.go", "acceptor.go", "joiner.go", "auth/*.go"],
  [("Deserialize", "serializers/*.go"), ("payload decoding", "serializers/payload.go"), ("handshake state", "acceptor.go")],
  ["Serializer.Deserialize", "DeserializePayload", "Acceptor.Receive", "Joiner.Receive", "runtime.MemStats"])
p("M09", "A message with a binary payload is what it was built from",
  "A CALL, YIELD, INVOCATION or RESULT built with a payload in binary form says that it has one and returns exactly the payload bytes, the payload serializer's number, the ids and the procedure it was built with. Its options or details are the given ones plus x_payload_serializer naming that serializer, also on the wire, and the map given by the application, who may use it for any number of messages, is left as it was. A message built from arguments, or decoded, does not claim a binary payload.",
  [IN, HI], "message types x options (absent, empty, shared) x payloads x serializer numbers",
  "Tests build no message with a binary payload.",
  ["messages/call.go", "messages/yield.go", "messages/invocation.go", "messages/result.go", "messages/message.go"], [("NewCallBinary, NewYieldBinary, NewInvocationBinary, NewResultBinary", "messages/*.go")],
  ["PayloadIsBinary, Payload, PayloadSerializer, Options/Details of the message", "the options map given"])
p("T01", "Raw-socket handshakes round-trip and invalid ones are refused",
  "A handshake offering serializer 1..15 and a maximum message size that is a power of two from 512 bytes to 16 MiB is encoded in the WAMP raw-socket format (magic octet 0x7F, size exponent minus 9 in the high and serializer in the low four bits, two zero octets) and decoded back to the same serializer and size. Any other size or serializer is refused when sending, and any byte string that is not 4 bytes, lacks the magic octet or has non-zero reserved octets is refused when receiving, always with an error and never a panic.",
  [IN], "all serializer numbers, all sizes, all byte strings",
  "The transports package has no tests.",
  ["transports/rawsocket.go"], [("SendHandshake/ReceiveHandshake", "transports/rawsocket.go")], ["SendHandshake", "ReceiveHandshake"])
p("T02", "Raw-socket frame headers carry kind and length exactly",
  "For every message kind and every length from 0 to 2^24-1, the frame header is four bytes (kind, then the big-endian 24-bit length) and decodes to the same kind and length. Decoding anything that is not a 4-byte header returns an error instead of panicking or inventing a length.",
  [IN], "all kinds x all 2^24 lengths; all byte strings",
  "The transports package has no tests.",
  ["transports/rawsocket.go"], [("SendMessageHeader/ReceiveMessageHeader", "transports/rawsocket.go")], ["SendMessageHeader", "ReceiveMessageHeader"])

# ------------------------------------------------------------- authentication
p("A01", "Both ends of a successful join agree on the session",
  "For every authentication method, serializer, realm and identity, when a joining client and an accepting router complete the handshake, both report the same session id, realm, authid, authrole and authentication method, and these equal what the client asked for (realm) and what the router's authenticator granted (authid, authrole); the WELCOME on the wire says the same. The authenticator is asked about exactly the realm, identity, method, extra data and ticket that the client was given. The router also reports the extra data that came with the answer to its challenge, both sides report exactly the roles that the router announced, and neither side reports a session before that point.",
  [IN, CO], "auth methods x serializers x realms/identities/extra data",
  "Tests run one identity per method and only check that details are non-empty.",
  ["joiner.go", "acceptor.go", "types.go", "auth/*.go"], [("sendWelcome", "acceptor.go"), ("WELCOME handling", "joiner.go:ReceiveMessage")],
  ["Joiner.Receive", "Acceptor.Receive", "SessionDetails"])
p("A02", "No session is granted without the authenticator's approval",
  "The router welcomes a client only after its authenticator approved a request carrying exactly the realm, authid, auth extra, method and credential (ticket or public key) the client sent, and the granted identity is exactly the one in the approval. When the authenticator refuses, the client receives ABORT with reason wamp.error.authentication_failed, no session exists, and the authenticator is never consulted for a method it did not list or before the client has supplied the required credential. What an approval was made with (identity, role, lifetime, secret, salt, iterations, key length) is what it grants.",
  [IN, HI], "all methods x all requests x all authenticator verdicts",
  "Tests use one fixed authenticator and check five refusals; they never inspect what the authenticator was asked.",
  ["acceptor.go", "auth/authenticator.go", "auth/helpers.go"], [("Authenticate calls before sendWelcome", "acceptor.go:ReceiveMessage")],
  ["calls made on the ServerAuthenticator", "Acceptor.Receive output"])
p("A03", "WAMP-CRA admits exactly the holders of the secret for this challenge",
  "A CRA client is welcomed if and only if its response is the base64 HMAC-SHA256 of the exact challenge string issued in this handshake under the user's secret (or under the PBKDF2-derived key when the user has a salt, iterations and key length). Responses to other challenges, under other secrets, truncated, empty, or not base64 are refused, and a client with the right secret always succeeds, salted or not.",
  [IN], "all secrets, salts, iteration counts, key lengths, responses",
  "Tests cover one unsalted secret and one wrong secret; salting is never exercised through a handshake.",
  ["auth/wampcra.go", "acceptor.go"], [("VerifyWAMPCRASignature/DeriveWAMPCRAKey", "auth/wampcra.go")],
  ["Acceptor.Receive", "VerifyWAMPCRASignature", "ClientAuthenticator.Authenticate"])
p("A04", "Cryptosign admits exactly the holder of the announced key for this challenge",
  "A cryptosign client is welcomed if and only if it returns a valid Ed25519 signature, by the private key matching the public key it announced, over exactly the challenge issued in this handshake, followed by that challenge. Signatures over any other message (including a replay from an earlier handshake), by any other key, or of the wrong shape are refused, malformed keys are refused with an error instead of a panic, and the rightful key holder always succeeds.",
  [IN, HI], "all keys, challenges, signatures and replays across handshakes",
  "Tests sign and verify one fixed challenge; none replays a signature or tampers with one.",
  ["auth/cryptosign.go", "acceptor.go"], [("VerifyCryptoSignSignature and challenge comparison", "auth/cryptosign.go, acceptor.go")],
  ["Acceptor.Receive", "VerifyCryptoSignSignature", "NewCryptoSignAuthenticator"])
p("A05", "The accepting side follows the handshake order and ends it once",
  "On one router-side handshake, AUTHENTICATE is processed only as the answer to an outstanding CHALLENGE, HELLO only as the first step, and any other message is an error; at most one WELCOME is ever produced, and after a WELCOME or an ABORT every further message is an error and produces no reply. A reply that cannot be serialized is reported as an error, not as a reply or a welcome. No sequence of messages or bytes makes it panic.",
  [HI, IN], "all sequences of HELLO/AUTHENTICATE/other messages, valid or hostile",
  "Tests only run the happy path and a single refusal.",
  ["acceptor.go"], [("state machine", "acceptor.go:ReceiveMessage")], ["Acceptor.Receive", "Acceptor.ReceiveMessage"])
p("A06", "The joining side follows the handshake order and survives a hostile router",
  "A client reports an established session only after it sent HELLO and received WELCOME, answers a CHALLENGE only once and only between HELLO and WELCOME, reports ABORT as an error carrying the router's reason and whatever text came with it, and never establishes a session after an ABORT or a second session from a second WELCOME. A message that cannot be serialized is reported as an error, never sent in part or counted as sent. No sequence of messages or bytes from the router, including challenges with missing or absurd parameters, makes it or its authenticator panic.",
  [HI, IN], "all sequences of WELCOME/CHALLENGE/ABORT/other messages, valid or hostile",
  "Tests only run the happy path and one WELCOME without roles.",
  ["joiner.go", "auth/*.go"], [("state machine", "joiner.go:ReceiveMessage")], ["Joiner.Receive", "Joiner.SessionDetails"])
p("A07", "The method used is the client's first choice the router allows",
  "The selected authentication method is the first one in the client's list that the router's authenticator lists; with an empty list it is anonymous, provided the router lists anonymous. If there is none, the handshake is aborted with reason wamp.error.authentication_failed, and a method the router does not list is never used.",
  [IN], "all client lists (duplicates, unknown and empty names, any order) x all router lists",
  "Tests cover three fixed lists, all of which include anonymous.",
  ["auth/helpers.go", "acceptor.go"], [("SelectAuthMethod", "auth/helpers.go")], ["SelectAuthMethod", "Acceptor.Receive"])
p("A08", "Every challenge is fresh",
  "No two handshakes ever issue the same challenge, within a process or across processes; a cryptosign challenge is 32 random bytes in hex, and a CRA challenge is a JSON object naming the authid, authrole, authmethod, provider and session it was created for, with a fresh nonce and timestamp.",
  [HI, SC], "all numbers of handshakes, sequential and concurrent, across process restarts",
  "Tests look at a single challenge of each kind.",
  ["auth/cryptosign.go", "auth/wampcra.go"], [("crypto/rand nonces", "auth/*.go")], ["CHALLENGE messages", "GenerateCryptoSignChallenge", "GenerateWAMPCRAChallenge"])
p("A09", "Secrets are not given away in a handshake",
  "Whatever the other side sends, no message either side produces and no error it returns contains a CRA secret, a key derived from it or a cryptosign private key, plain or in hex or base64; a ticket occurs only as the signature of the client's AUTHENTICATE, once. The router never reveals the credential it expects: neither the ticket nor the response to its CRA challenge.",
  [IN, HI], "all methods, secrets, salts, and all honest and hostile peers",
  "No test looks for what must not be in a message.",
  ["auth/*.go", "acceptor.go", "joiner.go"], [("Authenticate of the client authenticators", "auth/{ticket,wampcra,cryptosign}.go"), ("CHALLENGE, WELCOME and ABORT", "acceptor.go")],
  ["bytes from Joiner.SendHello, Joiner.Receive, Acceptor.Receive", "errors"])

# ------------------------------------------------------------------------ ids
p("I01", "Random session ids are valid, well spread and differ between runs",
  "Every generated global-scope id lies in the WAMP range 1..2^53, ids do not repeat in practice, are spread over the whole range, and are not the same sequence in every process run.",
  [HI, SC], "all sequences of generated ids, concurrent callers, process restarts",
  "The test compares two ids from one process.",
  ["idgen.go"], [("GenerateID", "idgen.go")], ["GenerateID", "WELCOME session ids"])
p("I02", "Session-scope ids count up from 1 without gaps, duplicates or overflow",
  "A session-scope generator returns 1, 2, 3, ... in order to a single user, hands every id to exactly one caller when used concurrently, with no gap, and after 2^53 continues with 1.",
  [HI, SC], "all call counts up to and across the wrap-around, all interleavings of concurrent callers",
  "The test draws nine ids from one goroutine.",
  ["idgen.go"], [("mutex-guarded counter", "idgen.go:NextID")], ["SessionScopeIDGenerator.NextID"])

# --------------------------------------------------------------------- broker
p("B01", "Each event reaches exactly the subscribers whose subscription matches",
  "Apart from the publisher itself, every attached session holding a subscription that matches the published topic (exact equality, prefix, or wildcard where * stands for any run of characters other than '/') receives the event exactly once, tagged with the id of a matching subscription it holds, and no other session receives it. The event carries the published positional and keyword arguments unchanged.",
  [HI, IN], "all histories of joins, leaves, subscribes, unsubscribes and publishes over all match policies",
  "Tests publish to one or two sessions on a single topic.",
  ["broker.go"], [("ReceivePublish", "broker.go")], ["Broker.ReceivePublish", "Broker.ReceiveMessage"])
p("B02", "A subscription lives until its own holder ends it",
  "A session's subscription, of whatever match policy, keeps delivering events no matter which other sessions subscribe, unsubscribe or leave, until that session itself unsubscribes or leaves; from then on the session receives no further event through it. Whether the broker reports a topic as subscribed agrees with whether some attached session currently holds a subscription to it.",
  [HI], "all histories of overlapping subscriptions on the same and different topics",
  "Tests never have a second subscriber leave while a first one stays.",
  ["broker.go"], [("Unsubscribe and RemoveSession bookkeeping", "broker.go")], ["Broker.ReceivePublish", "Broker.HasSubscription"])
p("B03", "Subscription ids identify one topic and match policy",
  "Two subscribers to the same topic with the same match policy get the same subscription id while either subscription is alive, subscribing again returns the same id, and subscriptions that differ in topic or match policy always have different ids. SUBSCRIBED and UNSUBSCRIBED go to the requesting session and carry its request id.",
  [HI, IN], "all subscribe/unsubscribe histories",
  "Tests never compare ids of two subscriptions.",
  ["broker.go"], [("Subscribe handling", "broker.go:ReceiveMessage")], ["SUBSCRIBED", "UNSUBSCRIBED", "EVENT subscription ids"])
p("B04", "Publications are acknowledged exactly when asked and ids are unique",
  "The publisher gets PUBLISHED, addressed to it with its own request id, exactly when its request carried acknowledge=true, whether or not anybody is subscribed. The publication id is the same in acknowledgement and event, and no two publications share one.",
  [HI, IN], "all publish options and subscriber sets",
  "Tests check that an acknowledgement exists, not its ids.",
  ["broker.go"], [("Ack construction", "broker.go:ReceivePublish")], ["Publication.Ack", "Publication.Event"])
p("B05", "The publisher's identity is disclosed exactly when disclosure is on",
  "Events carry the publisher's session id, authid and authrole and the topic if and only if publisher disclosure is currently enabled on the broker, and then they are those of the publishing session and the published topic; when it is off no identifying detail appears.",
  [HI, CO], "all toggle histories and publishers",
  "Tests toggle once with one publisher.",
  ["broker.go"], [("AutoDisclosePublisher", "broker.go")], ["EVENT details"])
p("B06", "A publisher does not receive its own event unless it asks to",
  "A session that publishes to a topic it is itself subscribed to does not get the event, unless its request carries exclude_me=false, in which case it gets it like any other subscriber. Other subscribers are unaffected by the option.",
  [HI, IN], "all publish options and subscriptions of the publisher",
  "No test publishes from a subscribed session, although the router announces publisher exclusion.",
  ["broker.go", "acceptor.go"], [("recipient selection", "broker.go:ReceivePublish")], ["Publication.Recipients"])
p("B07", "The broker rejects requests from strangers and leaves its state alone",
  "Requests by sessions that are not attached, unsubscribing from a subscription the session does not hold, adding a session twice, removing one that is not attached, and messages the broker does not handle all return an error; valid requests by attached sessions succeed. A rejected request changes nothing: all later events and replies are as if it had not been made, and no request makes the broker panic.",
  [HI, IN], "all interleavings of valid and invalid requests",
  "Tests check five rejections on a fresh broker and never look at state afterwards.",
  ["broker.go"], [("existence checks", "broker.go")], ["Broker.*"])
p("B08", "The broker forgets sessions and subscriptions that are gone",
  "After a session has left or a subscription has been given up, the broker retains nothing for it: memory held does not grow with the number of past sessions, subscriptions, topics or publications. A session id or topic that is used again starts clean.",
  [HI], "arbitrarily long histories of churn",
  "Needs long runs and a memory measurement.",
  ["broker.go"], [("deletes in Unsubscribe/RemoveSession", "broker.go")], ["heap growth over churn cycles", "behaviour of reused session ids"])
p("B09", "The broker behaves atomically under concurrent use",
  "When any number of goroutines use one broker at once, there is no data race, deadlock or crash, and the replies and deliveries are those of some one-at-a-time order of the requests that respects which finished before which began.",
  [SC, HI], "all interleavings of all operations",
  "All tests are single-threaded and run without the race detector.",
  ["broker.go", "idgen.go"], [("mutex around every operation", "broker.go")], ["concurrent Broker calls"],
  "none in /repo: a build overlay generated from the current sources adds scheduling noise")

# --------------------------------------------------------------------- dealer
p("D01", "A call goes to a registrant of the best-matching procedure",
  "A call by an attached session is turned into an invocation for a session that currently holds the best-matching registration: exact match before the longest matching prefix before a matching wildcard (where * stands for any run of characters other than '/'), tagged with that registration's id. If no live registration matches, and only then, the caller gets a no_such_procedure error for its request.",
  [HI, IN], "all histories of joins, leaves, registers, unregisters and calls over all match policies",
  "Tests register one procedure of each kind on a fresh dealer.",
  ["dealer.go"], [("CALL handling", "dealer.go:ReceiveMessage")], ["Dealer.ReceiveMessage"])
p("D02", "A registration lives until its own holder ends it",
  "Once a session has unregistered a procedure or left, no new call is routed to it, while the procedure stays callable at every other session still registered for it, whatever the match policy. Whether the dealer reports a procedure as registered agrees with whether some attached session is currently registered for it.",
  [HI], "all histories of shared registrations with partial departure",
  "Tests only unregister the sole callee of an exact registration.",
  ["dealer.go"], [("Unregister and RemoveSession bookkeeping", "dealer.go")], ["INVOCATION recipients", "Dealer.HasProcedure"])
p("D03", "Shared registrations follow their invocation policy",
  "With several callees on one procedure, policy first always picks the earliest registered one still present, last the latest, random any present one with none starved, and roundrobin gives each present callee exactly one call in every run of as many consecutive calls as there are callees. A session registering again under a shared policy does not gain a second share.",
  [HI], "all callee counts, joins and leaves between calls",
  "Tests use two callees that never leave and at most ten calls.",
  ["dealer.go"], [("policy switch", "dealer.go:ReceiveMessage")], ["INVOCATION recipients"])
p("D04", "Each call's outcome goes to its caller, once, under its request id",
  "The result or error a callee gives for an invocation is delivered to the session that made the corresponding call, and to no other, under that call's request id, with the error URI and details intact. Each invocation id is used for one call only, at most one final outcome is ever delivered per invocation, and a response to an unknown or already finished invocation is an error.",
  [HI, IN], "all interleavings of concurrent calls by several callers with equal request ids, any response order",
  "Tests have one outstanding call at a time.",
  ["dealer.go"], [("pending call table", "dealer.go")], ["RESULT/ERROR recipients and request ids"])
p("D05", "No third session can answer or disturb someone else's call",
  "A response is accepted for an invocation only from the session the invocation was sent to (or from the caller itself, which the test suite allows for results); a result or error from any other session is an error, reaches nobody, and leaves the call open so that the real callee's answer is still delivered.",
  [HI, IN], "all sessions sending results or errors for guessed invocation ids",
  "No test has a third session answer.",
  ["dealer.go"], [("callee check on responses", "dealer.go")], ["Dealer.ReceiveMessage(YIELD/ERROR)"])
p("D06", "Progressive results reach only callers that asked and stay in order",
  "If the call asked for progressive results, every progressive result of the callee is forwarded as progressive and the call stays open until one final result or error; the invocation tells the callee whether progress is wanted. If it did not ask, nothing is ever marked progressive to the caller and the first result ends the call.",
  [HI, IN], "all lengths of progressive sequences, all options, interleaved calls",
  "Tests run one sequence of ten for a caller that asked.",
  ["dealer.go"], [("progress handling in YIELD", "dealer.go")], ["RESULT details", "INVOCATION details"])
p("D07", "All chunks of a progressive call go to the same invocation and callee",
  "When a caller sends its call in several progressive chunks under one request id, every chunk including the last reaches the same callee under the same invocation id and registration id, with progress marked on all but the last, and the callee's answer comes back as the one outcome of that call. This holds for shared registrations of every policy and for any number of interleaved progressive calls by the same or other callers.",
  [HI, IN], "all chunk counts, policies and interleavings",
  "Tests use one callee and never compare the last chunk's invocation id.",
  ["dealer.go"], [("call-to-invocation map", "dealer.go")], ["INVOCATION ids and recipients"])
p("D08", "Call payloads pass through the dealer unchanged",
  "Arguments and keyword arguments of a call reach the callee unchanged, and those of its result or error reach the caller unchanged. The binary payload of a call or result is passed on byte for byte, with its serializer number and marked binary, to a peer that understands binary payloads, and to one that does not as the arguments the message decodes to.",
  [IN, CO], "all payloads x binary/decoded x static/dynamic peers x all serializer numbers",
  "Tests never look at payloads after routing, nor use binary payloads.",
  ["dealer.go", "messages/call.go", "messages/invocation.go", "messages/yield.go", "messages/result.go"],
  [("NewInvocationBinary/NewResultBinary", "dealer.go")], ["INVOCATION, RESULT, ERROR payload accessors"])
p("D09", "The caller's identity is disclosed exactly when disclosure is on",
  "Invocations carry the caller's session id, authid and authrole and the called procedure if and only if caller disclosure is currently enabled on the dealer, and then they are those of the calling session and the called URI; when it is off no identifying detail appears.",
  [HI, CO], "all toggle histories and callers",
  "Tests toggle once with one caller.",
  ["dealer.go"], [("AutoDiscloseCaller", "dealer.go")], ["INVOCATION details"])
p("D10", "Registrations are exclusive unless every party agreed to share",
  "Registering a procedure that is already registered with the same match policy succeeds, joining the same registration id, only if both registrations name the same shared invocation policy; otherwise the registrant gets procedure_already_exists and the existing registration is untouched. Registrations that differ in procedure or match policy, or are made after an earlier one ended, have different ids, and REGISTERED/UNREGISTERED/ERROR go to the requester under its request id.",
  [HI, IN], "all register/unregister histories over URIs, match and invocation policies",
  "Tests check two conflicts on a fresh dealer.",
  ["dealer.go"], [("REGISTER handling", "dealer.go")], ["REGISTERED/ERROR replies"])
p("D11", "The dealer rejects invalid requests, leaves its state alone and never crashes",
  "Calls and registrations by sessions that are not attached, unregistering something the session has not registered, responses that match no open invocation, adding a session twice, removing one that is not attached, and messages the dealer does not handle all return an error; valid requests succeed. A rejected request changes nothing that any later reply could reveal, and no sequence of requests makes the dealer panic.",
  [HI, IN], "all interleavings of valid and invalid requests",
  "Tests check four rejections on a fresh dealer.",
  ["dealer.go"], [("existence checks", "dealer.go")], ["Dealer.*"])
p("D12", "The dealer forgets calls, registrations and sessions that are over",
  "After a call has ended, a registration has been given up or a session has left (with or without open calls on either side), the dealer retains nothing for it: memory held does not grow with the number of past calls, registrations or sessions. A session id or request id that is used again starts clean.",
  [HI], "arbitrarily long histories of churn",
  "Needs long runs and a memory measurement.",
  ["dealer.go"], [("deletes on completion and departure", "dealer.go")], ["heap growth over churn cycles", "behaviour of reused ids"])
p("D13", "The dealer behaves atomically under concurrent use",
  "When any number of goroutines use one dealer at once, there is no data race, deadlock or crash, and the replies are those of some one-at-a-time order of the requests that respects which finished before which began; in particular each call gets its own invocation and exactly one outcome.",
  [SC, HI], "all interleavings of all operations",
  "All tests are single-threaded and run without the race detector.",
  ["dealer.go", "idgen.go"], [("mutex around every operation", "dealer.go")], ["concurrent Dealer calls"],
  "none in /repo: a build overlay generated from the current sources adds scheduling noise")

# -------------------------------------------------------------------- session
p("S01", "A client accepts a response only for a request it has outstanding, once",
  "A client session accepts RESULT, REGISTERED, UNREGISTERED, SUBSCRIBED, UNSUBSCRIBED, PUBLISHED and ERROR only if it sent the corresponding request with that id and has not yet received its final response; anything else is an error and changes nothing. A progressive RESULT leaves the call open, every other response closes its request, requests of different kinds with equal ids do not interfere, and unacknowledged publishes expect no response.",
  [HI, IN], "all histories of sends and receives over all request kinds with colliding ids",
  "Tests send and receive each kind once, in order.",
  ["session.go", "internal/map.go"], [("request tables", "session.go")], ["Session.SendMessage", "Session.ReceiveMessage", "Session.Receive"])
p("S02", "A client accepts events and invocations only for what it currently holds",
  "A client session accepts an INVOCATION only for a registration, and an EVENT only for a subscription, that was confirmed to it and whose removal has not been confirmed; a request to unsubscribe from something it does not hold is refused when sending. GOODBYE and ABORT are always passed on, and messages only a router should receive are refused.",
  [HI, IN], "all histories of confirmations and removals with reused ids",
  "Tests deliver one event and one invocation on the happy path.",
  ["session.go"], [("registration/subscription tables", "session.go")], ["Session.SendMessage", "Session.ReceiveMessage"])
p("S03", "A send either produces the bytes and tracks the request, or does neither",
  "Sending a request returns bytes that decode to that very message, and from the moment they are returned its response is accepted. A send that fails, because the message cannot be serialized or is not allowed, returns no bytes and leaves no trace: a response to it is refused and requests already outstanding are unaffected.",
  [HI, IN, FA], "all message kinds, serializers and serialization failures",
  "No test makes a send fail.",
  ["session.go"], [("serialize before tracking", "session.go:SendMessage")], ["Session.SendMessage", "Session.Receive"])
p("S04", "A client session is safe for concurrent use and exact under races",
  "Any number of goroutines may send and receive on one client session without a data race, deadlock or crash; when several deliver the same final response at once exactly one is accepted, and a response that arrives as soon as the bytes are returned is accepted.",
  [SC, HI], "all interleavings of sends and receives",
  "All tests are single-threaded and run without the race detector.",
  ["session.go", "internal/map.go"], [("atomic load-and-delete on request tables", "session.go")], ["concurrent Session calls"],
  "none in /repo: a build overlay generated from the current sources adds scheduling noise")
p("S05", "A client session forgets finished requests",
  "Memory held by a client session does not grow with the number of completed calls, registrations, subscriptions, publishes and invocations, whether they ended in success or error.",
  [HI], "arbitrarily long histories of completed requests",
  "Needs long runs and a memory measurement.",
  ["session.go"], [("deletes on completion", "session.go")], ["heap growth over request cycles"])

# ----------------------------------------------------------------- end to end
p("E01", "Remote calls work end to end between clients of any serializer",
  "With any number of clients joined to a router built from this library, each using any serializer, every call ends in exactly one final outcome at its caller: the callee's result or error with equal content, no_such_procedure, or, if the callee leaves first, an error. Progressive results precede it in the order sent, and no message the router emits is rejected by the client it is for.",
  [HI, CO, SC], "all interleavings of message deliveries, joins and departures across clients and serializers",
  "No test connects sessions, router and serializers.",
  ["session.go", "dealer.go", "joiner.go", "acceptor.go", "serializers/*.go"], [("whole path", "client session -> serializer -> dealer -> serializer -> client session")],
  ["client boundary"])
p("E02", "Publish/subscribe works end to end between clients of any serializer",
  "With any number of clients joined to a router built from this library, each using any serializer, every client with a confirmed matching subscription receives each event once, with equal content and in the order its publisher sent them, and acknowledged publishes are confirmed exactly once. No message the router emits is rejected by the client it is for.",
  [HI, CO, SC], "all interleavings of message deliveries, joins and departures across clients and serializers",
  "No test connects sessions, router and serializers.",
  ["session.go", "broker.go", "joiner.go", "acceptor.go", "serializers/*.go"], [("whole path", "client session -> serializer -> broker -> serializer -> client session")],
  ["client boundary"])
p("E03", "Features announced in the handshake are honoured",
  "The router announces its roles broker and dealer in WELCOME and the client its roles caller, callee, publisher and subscriber in HELLO, with publisher exclusion, progressive call invocations and (as callee) progressive call results among their features. Every advanced feature announced is honoured when the other side uses it: publisher exclusion, progressive call invocations, progressive call results and call cancelling each have their WAMP-specified effect, and so does any further feature an implementation chooses to announce (identification of callers and publishers, black- and whitelisting, meta procedures and the like).",
  [CO, HI], "all announced features and the messages that use them",
  "No test relates announced features to behaviour.",
  ["acceptor.go", "joiner.go", "dealer.go", "broker.go", "session.go"], [("RouterRoles/ClientRoles", "acceptor.go, joiner.go")],
  ["WELCOME/HELLO roles", "behaviour of Dealer, Broker, Session"])

p("E04", "Clients served concurrently get what they would get alone",
  "When the connections of one router and the requests of its clients are handled by concurrent goroutines, there is no data race, deadlock or crash, every call still ends in exactly one outcome with its own content and its progressive results and chunks in order, every subscriber gets each event once and those of one publishing goroutine in order, every acknowledged publish is confirmed once, and no message is refused. Clients that join, use the router and leave meanwhile do not disturb the others.",
  [SC, HI, CO], "all interleavings of connections, requests, joins and departures",
  "No test uses the library from more than one goroutine.",
  ["session.go", "dealer.go", "broker.go", "joiner.go", "acceptor.go", "serializers/*.go"], [("whole path", "client session -> serializer -> router -> serializer -> client session")],
  ["client boundary"],
  "none in /repo: a build overlay generated from the current sources adds scheduling noise")

# -------------------------------------------------------------- concurrent use
p("C01", "What keeps no state can be shared by any number of goroutines",
  "Serializers, payload encoding, raw-socket framing, client authenticators, the signature functions, session details, and messages that nobody modifies can be used by any number of goroutines at once, and separate routers, sessions and handshakes can run side by side, without data race or crash and with the same outcome as when used alone. In particular one message can be encoded for many recipients at once, and any number of handshakes with the same credentials can run at the same time without being mixed up.",
  [SC, IN], "all interleavings of independent uses of the library",
  "All tests are single-threaded and run without the race detector.",
  ["serializers/*.go", "messages/*.go", "auth/*.go", "acceptor.go", "joiner.go", "transports/rawsocket.go"], [("no package-level mutable state", "everywhere")],
  ["concurrent uses, each judged by its own oracle"],
  "none in /repo: a build overlay generated from the current sources adds scheduling noise")

# ------------------------------------------------------------------- utilities
p("U01", "A number means the same whatever Go type holds it",
  "The conversions of package util give one and the same result for a whole number in every Go integer and float type that holds it: its value if the target type can hold it, and otherwise (beyond the range of the target, for AsInt, and also negative or fractional, for AsID) a refusal with a zero value, never a wrapped, truncated or saturated number; AsFloat64 gives the nearest float. Values that are no numbers are refused by the number conversions, as are values that are no booleans or strings by the others. AnysToStrings gives the strings in order in a list of its own, or an error if any element is no string.",
  [IN], "all numbers around the limits of every number type, in every type; all other values",
  "Tests convert ten small numbers with one of the functions.",
  ["util/util.go"], [("AsInt/AsID/AsUInt64/AsFloat64", "util/util.go")], ["util.As*", "util.AnysToStrings"])

p("U02", "A timestamp names the instant it was made for",
  "For every time in the years 1 to 9999 and every time zone whose offset is a whole number of minutes (also negative ones and ones that are not whole hours, with or without daylight saving), the ISO 8601 string made of it is well-formed and names the same second and the same offset. The creation time of a session and the timestamp of a CRA challenge are the moment they were made at, wherever the machine stands.",
  [IN], "all seconds x all zones",
  "The unit test writes three times, in zones that are whole hours away from UTC.",
  ["auth/iso8601.go", "types.go", "auth/wampcra.go"], [("ISO8601", "auth/iso8601.go"), ("createdAt", "types.go:NewSessionDetails"), ("timestamp", "auth/wampcra.go:GenerateWAMPCRAChallenge")],
  ["auth.ISO8601", "SessionDetails.CreatedAt", "CHALLENGE.Extra"])

# ------------------------------------- two executions that have to be the same
p("X01", "Unknown options and details make no difference",
  "Options and details that the library does not know, whatever their names and values (also names that differ from known ones in case or spelling, and values that would mean something elsewhere), change nothing about how a request, response or handshake message is treated: dealer, broker, session and both sides of the handshake accept, refuse, route and answer exactly as without them, and do not pass them on with invocations, results and events.",
  [IN, HI], "all histories of requests x all additions of unknown keys to options and details",
  "Tests use only known options.",
  ["dealer.go", "broker.go", "session.go", "acceptor.go", "joiner.go"], [("reading of options", "dealer.go, broker.go, session.go")],
  ["Dealer/Broker/Session/Acceptor/Joiner outcomes of two executions"])
p("X02", "An option that says what is the default is the same as none",
  "match=exact, invoke=single, acknowledge=false, exclude_me=true, progress=false and receive_progress=false have the same effect as leaving them out, and an empty options dictionary the same as none at all, for every request to dealer and broker and every message of a session, in every combination and history (for instance when one of two callees says so and the other does not).",
  [IN, HI], "all histories x all ways of stating or omitting defaults",
  "Tests state each option or omit it, but never compare.",
  ["dealer.go", "broker.go", "session.go"], [("option defaults", "dealer.go, broker.go, session.go")], ["outcomes of two executions"])
p("X03", "A message is treated alike however it arrived",
  "A message that came as bytes of any serializer has the same effect on dealer, broker and session as the same message built in place: the same outcome, the same recipients and the same content, in every history, whichever serializers are mixed. A session behaves the same with every serializer.",
  [IN, HI, CO], "all histories x all assignments of serializers to messages",
  "Tests hand constructed messages to the router and only few of them through a serializer.",
  ["serializers/*.go", "messages/*.go", "dealer.go", "broker.go", "session.go"], [("types of decoded values", "serializers/*.go, messages/*.go")], ["outcomes of two executions"])
p("X04", "Names, ids and contents are only names, ids and contents",
  "What dealer, broker and session do depends on which URIs, session ids, request ids, object ids, authids and roles are equal (and for URIs on which are prefixes or matches of which), never on what they are or on the arguments carried: renaming them all consistently and carrying other contents changes every outcome only by that renaming.",
  [IN, HI], "all histories x all injective renamings (of URIs: letter by letter, leaving separators and wildcards)",
  "Tests use one set of names.",
  ["dealer.go", "broker.go", "session.go"], [("lookup by URI, session and id", "dealer.go, broker.go, session.go")], ["outcomes of two executions"])
p("X05", "Clients that have nothing to do with each other do not affect each other",
  "What some clients of a router register, subscribe to, call, publish, answer, and how they join and leave, makes no difference to other clients whose topics, procedures and patterns have nothing in common with theirs, even if they use the same request ids: each group gets exactly what it would get on a router of its own, apart from the numbers of ids. Likewise for requests of one session that concern other ids.",
  [HI, CO], "all interleavings of two histories with disjoint names",
  "Tests run one small scenario at a time.",
  ["dealer.go", "broker.go", "session.go"], [("state kept per session, request and URI", "dealer.go, broker.go, session.go")], ["outcomes of two executions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        f.write(json.dumps(e) + "\n")
print(len(P), "properties")
