#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=hook)))

U = "src/message/unpack/"
p("C01", "Packing then unpacking returns the same message",
  """A message packed as plaintext, signed, anonymously encrypted, authenticated-encrypted (with or without sender protection)
  or signed and then encrypted is returned unchanged, field for field, when a holder of any one addressed recipient key unpacks it.
  If the recipient's routing needs mediators, this holds after each mediator in turn has unpacked its layer and passed on the attached message.""",
  ["inputs", "configurations"],
  """every message (any Unicode, JSON body, headers, attachments, absent and present optional fields), every mode, content algorithm,
  key curve and key representation, every subset of the recipient's keys held, every mediator count""",
  """The unit tests round-trip one fixed message with a fixed pair of identities per algorithm; the quantifier is over all messages, key sets and routes.""",
  ["src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/message/pack_plaintext.rs", U+"mod.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/jws/sign.rs", "src/jws/verify.rs", "src/message/message.rs"],
  [("layered pack", "Message::pack_encrypted"), ("layered unpack loop", "Message::unpack")], ["return values of pack_* and unpack"])
p("C02", "Tampering with a packed message is always detected",
  """If any part of a signed or encrypted message (protected header, payload, ciphertext, tag, iv, wrapped key, recipient list, signature, signer id)
  is altered, swapped with another message's, or dropped, then unpacking either fails or returns exactly the original message with the original trust information.
  An altered envelope never yields a different message, a different sender or signer, or a stronger trust claim.""",
  ["inputs"], """every packed message of every mode, and every alteration of its JSON members, encoded bytes, bits, or splice of members from another valid message""",
  """A handful of fixed malformed messages are tested; the claim is over every alteration of every message.""",
  [U+"mod.rs", U+"anoncrypt.rs", U+"authcrypt.rs", U+"sign.rs", "src/jwe/parse.rs", "src/jwe/decrypt.rs", "src/jws/parse.rs", "src/jws/verify.rs"],
  [("AEAD with protected header as AAD", "src/jwe/decrypt.rs"), ("apv/apu binding", "src/jwe/parse.rs verify_didcomm"), ("signature check", "src/jws/verify.rs")],
  ["result of Message::unpack"])
p("C03", "Reported trust information is true",
  """When unpacking succeeds, the metadata (encrypted, authenticated, signed, anonymous sender, sender key, recipient keys, signer key, algorithms, signed copy)
  states exactly what was cryptographically established by the layers that were opened, no more and no less.
  A sender or signer key is reported only if the resolved DID document of its DID authorises it for that purpose (key agreement for encryption, authentication for signatures),
  and a message whose `from` names someone other than the authenticated sender is rejected.""",
  ["inputs", "configurations"], """every combination of layers, algorithms and keys, including envelopes made by keys that exist in the DID document under the wrong purpose, in another DID, or not at all""",
  """Tests compare metadata for a few vectors; none drives keys listed for the wrong purpose or a forged `from`.""",
  [U+"mod.rs", U+"anoncrypt.rs", U+"authcrypt.rs", U+"sign.rs"],
  [("key lookup in keyAgreement / authentication", U+"authcrypt.rs, sign.rs"), ("metadata filled layer by layer", U+"mod.rs")], ["UnpackMetadata"])
p("C04", "An envelope whose addressing is inconsistent is rejected",
  """An encrypted message is accepted only if its party-v info is the hash of its sorted recipient key ids, its party-u info (when given) equals the sender key id header,
  a sender key id never appears without party-u info, there is at least one recipient, and all recipient key ids are DID URLs of one and the same DID.
  A consistent envelope is never rejected on these grounds, whatever the order or number of recipients and whatever unknown members it carries.""",
  ["inputs"], """every envelope, over recipient lists of any size, order, duplication and spelling, apu/apv/skid present, absent, mutated, mis-encoded, with unknown extra fields""",
  """Fixed vectors cover one mismatch each; subsets, orders, multi-recipient and encoding variants are unbounded.""",
  ["src/jwe/parse.rs", "src/jwe/envelope.rs", U+"anoncrypt.rs", U+"authcrypt.rs"],
  [("verify_didcomm", "src/jwe/parse.rs"), ("one-DID check", U+"anoncrypt.rs, authcrypt.rs")], ["Message::unpack", "jwe::parse"])
p("C05", "A packed message is readable by exactly the addressed keys",
  """Encrypting to a DID addresses exactly the recipient's key agreement keys of the one chosen curve, in document order, and encrypting to a DID URL addresses exactly that key;
  the envelope lists these keys, the returned metadata names these keys, each of them alone can decrypt, and no other key can.
  Authenticated encryption uses a sender key that is in the sender's key agreement, is held by the sender and (when given as DID URL) is the one asked for.""",
  ["inputs", "configurations"], """every DID document shape (number, order, curve, representation of keys, keys only in authentication, unsupported types), every DID/DID URL argument and every set of held sender secrets""",
  """Tests use three fixed documents.""",
  ["src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/jwe/encrypt.rs"],
  [("key selection by keyAgreement and curve", "pack_encrypted/anoncrypt.rs, authcrypt.rs")], ["packed JWE", "PackEncryptedMetadata"])
p("C06", "Encryption hides content and protected senders",
  """The text of an encrypted message reveals no part of its plaintext body, headers, signatures or attachments, and with sender protection or anonymous encryption reveals nothing that identifies the sender or signer.
  In a forwarding onion each layer reveals, to those who cannot open it, only the routing key it is addressed to, and to the mediator who opens it only the next hop and an opaque attached message.""",
  ["inputs", "configurations"], """every message, mode and route; every string of the plaintext and of the sender's identifiers and keys""",
  """Tests never search the output for leaks.""",
  ["src/message/pack_encrypted/mod.rs", "src/message/pack_encrypted/authcrypt.rs", "src/protocols/routing/mod.rs", "src/jwe/encrypt.rs"],
  [("anoncrypt around authcrypt for protect_sender", "pack_encrypted/authcrypt.rs"), ("forward body has only next", "protocols/routing/mod.rs")], ["packed text, every layer decoded"])
p("C07", "Every encryption uses fresh keys and nonces",
  """Every encryption layer uses a newly generated content key, a newly generated ephemeral key and a new nonce: across any history of packing, none is ever reused, shared between layers or messages, or derived from the input.
  Every generated forward message has its own new id.""",
  ["histories", "inputs"], """every sequence of pack calls, including repeated packing of the identical message, multi-layer messages and concurrent callers""",
  """Freshness is a property of histories; unit tests look at single calls.""",
  ["src/jwe/encrypt.rs", "src/protocols/routing/mod.rs"], [("generate cek, epk, nonce per call", "jwe::encrypt")], ["crypto boundary event log", "epk and iv on the wire"])
p("C08", "Messages conform to the DIDComm v2 wire format",
  """What the library packs is accepted, with the same meaning, by an independent implementation of the DIDComm v2 JWE, JWS and JWM formats, and has exactly the headers the specification requires (typ, alg, enc, epk, apu, apv, skid, kid, base64url without padding, signing input).
  What an independent conforming implementation produces, including the specification's own examples, is unpacked to the same message and trust information.""",
  ["inputs", "configurations"], """every mode, algorithm, curve, number of recipients and message""",
  """The repository's vectors pin a few outputs; self round trips cannot see a change made symmetrically on both sides.""",
  ["src/jwe/envelope.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/jws/envelope.rs", "src/jws/sign.rs", "src/utils/crypto.rs", "src/message/message.rs"],
  [("JWE/JWS serialisation", "src/jwe, src/jws")], ["packed text"])
p("C09", "No input can crash the library",
  """No string given to unpack, no message, option, DID document, secret or key material given to any public operation, and no resolver answer makes the library panic, overflow or loop without end: every call returns a result or an error.""",
  ["inputs", "fault_sequences"], """every byte string, every structurally mutated envelope or JWT, every DID document and secret content (wrong lengths, encodings, types), every resolver answer""",
  """A finite list of malformed inputs is tested.""",
  [U+"mod.rs", "src/utils/did.rs", "src/jwe/parse.rs", "src/jws/parse.rs", "src/protocols/routing/mod.rs", "src/message/from_prior/unpack.rs"],
  [("Result-returning parsing", "throughout")], ["panic hook", "watchdog"])
p("C10", "Failures are reported as the kind of error they are",
  """An error reported by a DID or secrets resolver reaches the caller with the resolver's error kind, wherever in an operation it happens, and the operation yields no message.
  An unresolvable DID, a key id missing from a resolved document, a missing secret, malformed input and an unsupported algorithm are reported as DIDNotResolved, DIDUrlNotFound, SecretNotFound, Malformed and Unsupported respectively, and adding context to an error never changes its kind.""",
  ["fault_sequences", "inputs"], """every operation, every resolver call position in it, every error kind and every way a resolver can answer nothing""",
  """Tests inject a resolver fault in a few places only.""",
  ["src/error.rs", U+"authcrypt.rs", U+"sign.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/from_prior/pack.rs"],
  [("context() keeps kind", "src/error.rs"), ("ok_or_else(DIDNotResolved / DIDUrlNotFound / SecretNotFound)", "throughout")], ["Error::kind()"])
p("C11", "Forwarding wraps a message for its route, hop by hop",
  """When the recipient's DIDComm service needs mediators, the packed message is a chain of forward messages encrypted to the routing keys in route order, each naming the following hop as next (the last one naming the recipient) and carrying the rest unmodified as its first attachment with the requested extra headers.
  The returned service metadata names the recipient's chosen service and the transport endpoint, and without a suitable service, without routing keys, or with forwarding disabled the message is not wrapped.
  A message is recognised as a forward exactly if it has the forward type, a string next and a JSON first attachment.""",
  ["inputs", "configurations"], """every service list (types, accept profiles, chosen ids, routing keys, DID endpoints), every number of hops, every set of forward headers, every plaintext message for recognition""",
  """Tests cover one and two fixed routes.""",
  ["src/protocols/routing/mod.rs", "src/protocols/routing/forward.rs"],
  [("resolve_did_comm_services_chain, wrap_in_forward, try_parse_forward", "src/protocols/routing/mod.rs")], ["packed text opened hop by hop", "MessagingServiceMetadata", "try_parse_forward"])
p("C12", "A from_prior is accepted only if signed by the DID it rotates from",
  """A from_prior token is accepted only if it is a JWT signed by a key that the issuer's DID document authorises for authentication, belongs to the token's own issuer, and verifies under a supported algorithm matching the key; the claims returned are the signed ones.
  Packing a from_prior yields a token that unpacks to the same claims and key id, and invalid claims (issuer or subject not plain DIDs, issuer equal to subject, key of another DID, subject different from the message's from) are refused when packing.""",
  ["inputs", "configurations"], """every claim set, key type, key selection, and every alteration or re-signing of a token""",
  """Tests use fixed JWTs.""",
  ["src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs", "src/message/from_prior/mod.rs", U+"plaintext.rs", "src/message/pack_plaintext.rs", "src/jws/parse.rs"],
  [("FromPrior::pack / unpack / validate_pack", "src/message/from_prior")], ["FromPrior::pack, FromPrior::unpack, UnpackMetadata.from_prior"])
p("C13", "Inconsistent packing arguments are refused",
  """Packing is refused with IllegalArgument if the recipient, sender or signer argument is not a DID or DID URL, if the message's to list is present and lacks the recipient's DID, or if the message's from is present and differs from the sender's DID; nothing is packed in that case.
  Consistent arguments are never refused on these grounds.""",
  ["inputs"], """every combination of to/from/sign_by arguments (DIDs, DID URLs, near misses, other strings) with every message to/from""",
  """A dozen fixed combinations are tested.""",
  ["src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/utils/did.rs"],
  [("_validate_pack_encrypted, _validate_pack_signed", "src/message")], ["result of pack_encrypted / pack_signed"])
p("C14", "Messages and attachments keep their meaning as JSON",
  """Every message (its extra headers having names of their own) and attachment, however built, serialises to a JSON object with exactly the DIDComm names for the fields that are set and no member for those that are not, and reading that JSON gives back an equal value; builder calls accumulate or replace as documented and lose nothing.
  Reading accepts exactly the JSON objects that have the required members with the right types (a missing typ meaning the DIDComm plaintext type), keeps unknown members as extra headers, and a message of any other typ is never returned as a plaintext message.""",
  ["inputs"], """every message and attachment value, every sequence of builder calls, every JSON object near the message format""",
  """Tests check one example of each attachment kind and one built message.""",
  ["src/message/message.rs", "src/message/attachment.rs", U+"plaintext.rs"],
  [("serde derives", "Message, Attachment"), ("builders", "MessageBuilder, AttachmentBuilder"), ("validate", "Message::validate")], ["serde_json of Message/Attachment", "Message::unpack of plaintext"])
p("C15", "DID documents, secrets and options keep their meaning as JSON",
  """DID documents (keys, key types, key material, services with accept and routing keys), secrets and pack/unpack options read from JSON mean what their JSON says, with the documented default for every absent optional member, and writing then reading them gives back the same value.
  JSON that lacks a required member or names an unknown key type is refused rather than misread.""",
  ["inputs"], """every DID document, service, verification method, secret and options value, with members present, absent, reordered and with unknown extra members""",
  """One service example is tested.""",
  ["src/did/did_doc.rs", "src/secrets/mod.rs", "src/utils/serde.rs", "src/algorithms.rs", "src/message/pack_encrypted/mod.rs", U+"mod.rs"],
  [("serde derives", "DIDDoc, Secret, PackEncryptedOptions, UnpackOptions")], ["serde_json"])
p("C16", "The bundled resolvers answer exactly from their contents",
  """The example DID resolver returns the document with exactly the requested id and nothing for any other id; the example secrets resolver returns the secret with exactly the requested id, and reports as held exactly those of the requested ids it holds, in the requested order.""",
  ["inputs", "histories"], """every content (near-equal ids, prefixes, duplicates, empty) and every sequence of queries, also concurrent ones""",
  """They are only used as fixtures, with distinct well-formed ids.""",
  ["src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs", "src/secrets/resolvers/mod.rs"],
  [("lookup by id", "resolve, get_secret, find_secrets")], ["resolver return values"])
p("C17", "Every representation of a key means the same key",
  """A key given as JWK, Base58 or Multibase, in the DID document or as a secret, behaves as the same key: anything encrypted or signed under one representation is opened or verified under any other.
  Material whose type, codec, encoding or length does not match is refused with an error and never used as some other key.""",
  ["inputs"], """every key of every supported curve in every representation pair, and every corruption of an encoded key""",
  """Tests decode a few fixed values.""",
  ["src/utils/did.rs", "src/jwk.rs", "src/utils/crypto.rs"],
  [("as_key_pair, key_alg, _from_multicodec", "src/utils/did.rs")], ["pack/unpack across representations"])
p("C18", "Demanding decryption by all held keys is enforced",
  """With the option that all held keys must decrypt, unpacking an encrypted message succeeds only if every recipient key for which a secret is held decrypts it to the message; without it, the first held key in the order the secrets resolver reports them suffices.
  Without any held recipient key unpacking fails with SecretNotFound, and the option never changes the message returned.""",
  ["inputs", "configurations"], """every number of recipients, every subset held, every subset of wrapped keys corrupted, both encryption kinds and both layers of a sender-protected message""",
  """No unit test corrupts one wrapped key while others are intact.""",
  [U+"anoncrypt.rs", U+"authcrypt.rs", U+"mod.rs"], [("loop over found keys", "_try_unpack_anoncrypt, _try_unpack_authcrypt")], ["Message::unpack"])
p("C19", "The callback interface calls back exactly once with the same answer",
  """Each operation of the foreign-language (uniffi) interface invokes exactly one of the caller's success and error callbacks, exactly once, with the result or error kind the core library gives for the same arguments and resolver answers.
  A resolver completion handle accepts exactly one completion and refuses later ones, and dropping it uncompleted fails the operation rather than hanging it.""",
  ["schedules", "inputs", "fault_sequences"], """every operation, every completion order, thread and delay of resolver callbacks, completed once, several times, concurrently, late or never""",
  """The uniffi tests cannot even be built here and use immediate resolvers on one thread.""",
  ["uniffi/src/common.rs", "uniffi/src/did/did_resolver_adapter.rs", "uniffi/src/secrets/secrets_resolver_adapter.rs", "uniffi/src/didcomm/unpack.rs", "uniffi/src/didcomm/pack_encrypted.rs", "uniffi/src/didcomm/pack_signed.rs", "uniffi/src/didcomm/pack_plaintext.rs", "uniffi/src/didcomm/from_prior.rs", "uniffi/src/didcomm/protocols/routing/mod.rs"],
  [("OnResult take-once sender", "uniffi/src/common.rs"), ("spawn on shared executor", "uniffi/src/didcomm")], ["callbacks"])
p("C20", "Concurrent operations do not affect one another",
  """Any number of pack and unpack operations running at the same time, on one or many threads, sharing resolvers and interleaved at every resolver call, each give the result they would give alone, and no data race occurs.
  An operation abandoned part way has no effect on any other, and no operation's result depends on operations that ran before it.""",
  ["schedules"], """every interleaving at suspension points and on threads, every number of concurrent operations, every history""",
  """Tests are sequential, resolvers never suspend and documents never change.""",
  ["src/message/pack_encrypted/mod.rs", U+"mod.rs", "uniffi/src/common.rs", "src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs"],
  [("no shared mutable state in core", "src"), ("Mutex-guarded completion", "uniffi/src/common.rs")], ["per-operation result vs sequential result", "race detector"])
p("C21", "Algorithm names mean what the standards say, unknown ones are refused",
  """On the wire each algorithm has exactly its registered name (ECDH-ES+A256KW, ECDH-1PU+A256KW, A256CBC-HS512, A256GCM, XC20P, EdDSA, ES256, ES256K) and that name selects exactly that algorithm when reading; any other spelling is kept as an unknown algorithm.
  A message using an unknown algorithm, or a content algorithm that its key agreement mode does not allow, is refused and never processed under a different algorithm.""",
  ["inputs"], """every algorithm name string (case variants, prefixes, whitespace, empty) in every position (alg, enc, JWS alg, from_prior alg)""",
  """Tests serialise the known names and one unknown one.""",
  ["src/jwe/envelope.rs", "src/jws/envelope.rs", "src/algorithms.rs", U+"anoncrypt.rs", U+"authcrypt.rs", U+"sign.rs"],
  [("string enums", "src/jwe/envelope.rs, src/jws/envelope.rs"), ("algorithm dispatch", U)], ["serde of the enums", "Message::unpack"])
p("C22", "A re-wrapped forward is unwrapped for its recipient only",
  """With the unwrap option on, an encrypted forward message whose next hop is a DID or key the caller holds a secret for is replaced, any number of times, by the message it carries, and this is reported; otherwise (option off, next hop not held, not a forward, not encrypted) the forward or message itself is returned and not reported as re-wrapped.""",
  ["inputs", "configurations"], """every nesting depth, next given as DID or key id, held or not, every inner mode, malformed forwards, both option values""",
  """Tests cover a depth of one or two with fixed identities.""",
  [U+"mod.rs", "src/protocols/routing/mod.rs"], [("_try_unwrap_forwarded_message, has_key_agreement_secret", U+"mod.rs")], ["Message::unpack", "UnpackMetadata.re_wrapped_in_forward"])
p("C23", "Secret key material never leaves the library",
  """No packed message, returned message or metadata, error text or printed output contains private keys, content keys, derived keys or shared secrets, in any encoding (a secret's own debug or JSON form, which exists to show it, aside).""",
  ["inputs", "fault_sequences"], """every operation, successful or failing, with every key representation, including failures while using malformed secrets""",
  """No test inspects outputs or errors for key material.""",
  ["src/error.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/utils/did.rs", "src/jwk.rs"],
  [("public JWK export only", "src/jwk.rs to_jwk_public_value"), ("fixed error texts", "throughout")], ["outputs and Display/Debug of errors against the recorded secrets"])
p("C24", "The JavaScript bindings behave as the core library",
  """Each operation of the JavaScript (wasm) interface resolves or rejects with the result or error the core library gives for the same arguments, and messages, documents, secrets and options cross the boundary unchanged.""",
  ["inputs", "configurations"], """every operation and argument""", """The tests in wasm/tests-js are fixed cases with well-behaved resolvers.""",
  ["wasm/src/message/mod.rs", "wasm/src/error.rs", "wasm/src/did/did_resolver.rs", "wasm/src/secrets/secrets_resolver.rs"],
  [("serde conversions and error mapping", "wasm/src")], ["JS promises"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
