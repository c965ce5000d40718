#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that wording stays in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Encrypted messages round-trip for every recipient key and option",
  "A message packed with pack_encrypted (anonymous or authenticated, optionally signed, optionally sender-protected, any supported content algorithm and key-agreement curve) is unpacked by any holder of one of the recipient keys reported by packing into a message equal to the original, whatever its content. The unpack metadata names exactly the keys, algorithms and layers that packing used.",
  ["inputs","configurations"],"all message contents, all combinations of from/sign_by/protect_sender/content algorithm/curve/recipient key count and every single recipient key held",
  "The pack and unpack tests use a handful of fixed messages, and need the askar crypto crate; contents and option combinations are not quantified over.",
  ["src/message/pack_encrypted/mod.rs","src/message/pack_encrypted/anoncrypt.rs","src/message/pack_encrypted/authcrypt.rs","src/jwe/encrypt.rs","src/jwe/decrypt.rs","src/message/unpack/mod.rs"],
  [("pack_encrypted","src/message/pack_encrypted/mod.rs"),("encrypt","src/jwe/encrypt.rs"),("decrypt","src/jwe/decrypt.rs"),("unpack","src/message/unpack/mod.rs")],["Message::pack_encrypted","Message::unpack"])
p("C02","Plaintext and signed messages round-trip",
  "A message packed with pack_plaintext or pack_signed unpacks to a message equal to the original, for every header combination, body and attachment. For a signed message the metadata reports authentication and non-repudiation with the signing key and algorithm that packing reported and carries the exact signed envelope; for a plaintext message every trust flag is off.",
  ["inputs","configurations"],"all message contents and presence combinations of headers, all signing key types, sign_by given as DID or key id",
  "Fixed messages only.",
  ["src/message/pack_plaintext.rs","src/message/pack_signed.rs","src/jws/sign.rs","src/jws/verify.rs","src/message/unpack/sign.rs","src/message/unpack/plaintext.rs"],
  [("pack_signed","src/message/pack_signed.rs"),("sign","src/jws/sign.rs"),("_try_unpack_sign","src/message/unpack/sign.rs")],["Message::pack_signed","Message::pack_plaintext","Message::unpack"])
p("C03","Altered encrypted envelopes are never accepted",
  "Unpacking an encrypted envelope whose protected header, initialization vector, ciphertext, authentication tag, or the encrypted key entry of the opening recipient decodes to anything other than what the sender produced fails with an error. It never yields a message, and in particular never a message different from the one the sender packed.",
  ["inputs"],"every replacement value of each authenticated envelope field, for anonymous and authenticated envelopes and every content algorithm",
  "Tests flip a few fixed bytes of fixed vectors.",
  ["src/jwe/decrypt.rs","src/jwe/parse.rs","src/message/unpack/anoncrypt.rs","src/message/unpack/authcrypt.rs"],
  [("decrypt","src/jwe/decrypt.rs"),("parse","src/jwe/parse.rs")],["Message::unpack"])
p("C04","A signed message is accepted only with a valid signature of the named signer",
  "Unpacking a signed envelope succeeds only if it carries exactly one signature, the named key is listed under authentication in the resolved document of the DID it names, the key's type matches the signature algorithm, and the signature verifies over the exact protected header and payload received. Otherwise it fails, so changing the payload, the protected header, the signature or the signer never yields a message.",
  ["inputs"],"every payload, header, signature value, signer key id and DID document shape",
  "Tests use fixed vectors with a few mutations.",
  ["src/jws/verify.rs","src/jws/parse.rs","src/message/unpack/sign.rs"],
  [("verify","src/jws/verify.rs"),("_try_unpack_sign","src/message/unpack/sign.rs")],["Message::unpack"])
p("C05","Authenticated encryption proves the reported sender key",
  "An authenticated-encryption envelope is accepted only if its sender key id is stated in apu (and equals skid when skid is present), belongs to the keyAgreement list of that DID's resolved document, and the envelope was produced with that key's secret for the opening recipient key. The sender key reported in the metadata is that key.",
  ["inputs","configurations"],"every skid/apu value and combination of presence, every sender document shape, every impersonation attempt by a party holding other keys",
  "Tests cover a few fixed header edits.",
  ["src/message/unpack/authcrypt.rs","src/jwe/parse.rs","src/jwe/decrypt.rs"],
  [("_try_unpack_authcrypt","src/message/unpack/authcrypt.rs"),("verify_didcomm","src/jwe/parse.rs")],["Message::unpack"])
p("C06","Envelope recipients must match the apv header and one DID",
  "An encrypted envelope is accepted only if its apv header is the SHA-256 digest of the dot-joined sorted list of all its recipient key ids, and every recipient key id is a DID URL with a fragment under one and the same DID. Adding, removing or renaming a recipient makes unpacking fail; reordering recipients does not.",
  ["inputs"],"every recipient list (order, additions, removals, renames) and every apv value",
  "Tests use a few fixed envelopes.",
  ["src/jwe/parse.rs","src/message/unpack/anoncrypt.rs","src/message/unpack/authcrypt.rs"],
  [("verify_didcomm","src/jwe/parse.rs")],["Message::unpack"])
p("C07","Trust metadata states exactly the layers that were verified",
  "After unpacking, encrypted, authenticated, non_repudiation, anonymous_sender, re_wrapped_in_forward and the key ids, algorithms and signed envelope in the metadata are set exactly when the corresponding layer was present and verified, and are unset otherwise. Layers nested in an order DIDComm does not define (for example an encrypted envelope inside a signed one) are rejected.",
  ["inputs","configurations"],"every nesting of up to three layers of plaintext, signed, anonymous and authenticated envelopes",
  "Tests only check the nestings the packer produces.",
  ["src/message/unpack/mod.rs","src/message/unpack/sign.rs","src/message/unpack/authcrypt.rs","src/message/unpack/anoncrypt.rs"],
  [("unpack","src/message/unpack/mod.rs")],["UnpackMetadata"])
p("C08","Untrusted input never crashes and is reported as malformed",
  "Unpacking any string, and parsing any from_prior token, returns a result: it never panics, overflows or indexes out of range. Input that is not a well-formed DIDComm message, including input that is cut short, is reported with the Malformed kind and not as an internal library error.",
  ["inputs"],"every short input string, and every replacement of any field or byte range of well-formed envelopes and tokens",
  "Tests sample a few malformed strings.",
  ["src/message/unpack/mod.rs","src/jwe/parse.rs","src/jws/parse.rs","src/error.rs","src/message/message.rs","src/message/from_prior/unpack.rs"],
  [("From<serde_json::Error>","src/error.rs"),("JWE::parse","src/jwe/parse.rs"),("JWS::parse","src/jws/parse.rs")],["Message::unpack","FromPrior::unpack"])
p("C09","Encrypted packing validates addressing arguments before doing anything",
  "pack_encrypted fails with IllegalArgument, before consulting any resolver, when to, from or sign_by is not a DID or DID URL, when the message's to header is present without the recipient's DID, or when the message's from header differs from the DID of from; pack_signed does the same for sign_by. It does not reject arguments that satisfy these rules on these grounds.",
  ["inputs"],"every to/from/sign_by string and every to/from header of the message",
  "Tests try a few strings.",
  ["src/message/pack_encrypted/mod.rs","src/message/pack_signed.rs","src/utils/did.rs"],
  [("_validate_pack_encrypted","src/message/pack_encrypted/mod.rs"),("is_did, did_or_url","src/utils/did.rs")],["Message::pack_encrypted","Message::pack_signed"])
p("C10","Encryption targets exactly the intended recipient keys",
  "When the recipient is a DID, the envelope is encrypted to all keys of its keyAgreement list that share the chosen key-agreement curve and to no others; when it is a key id, only to that key, which must be in keyAgreement. The reported to_kids and the envelope's recipients are the same list, and a recipient whose keys are absent, unsupported or of no common curve with the sender yields an error, never an envelope for other keys.",
  ["inputs","configurations"],"every DID document shape (key relationships, curves, formats, order) within bounds, recipient given as DID or key id",
  "Tests use a few fixed DID documents.",
  ["src/message/pack_encrypted/anoncrypt.rs","src/message/pack_encrypted/authcrypt.rs"],
  [("anoncrypt","src/message/pack_encrypted/anoncrypt.rs"),("authcrypt","src/message/pack_encrypted/authcrypt.rs")],["PackEncryptedMetadata.to_kids","JWE recipients"])
p("C11","Sender and signer keys come from the right relationship and the wallet",
  "Authenticated encryption uses a sender key from the sender's keyAgreement list, and signing uses a key from the signer's authentication list, in both cases one whose secret the wallet holds; a key id argument selects exactly that key. When no such key exists packing fails with DIDUrlNotFound, SecretNotFound or NoCompatibleCrypto instead of using another key, and the key used is the key reported.",
  ["inputs","configurations"],"every sender DID document and wallet content within bounds, from/sign_by given as DID or key id",
  "Tests use a few fixed wallets.",
  ["src/message/pack_encrypted/authcrypt.rs","src/message/pack_signed.rs"],
  [("authcrypt","src/message/pack_encrypted/authcrypt.rs"),("pack_signed","src/message/pack_signed.rs")],["PackEncryptedMetadata","PackSignedMetadata"])
p("C12","Packed envelopes disclose neither content nor protected sender",
  "The bytes of an encrypted envelope depend on the message only through its length and the random keys: two messages of equal serialized length give the same visible fields apart from ciphertext and tag. An anonymous or sender-protected envelope contains no sender key id or sender DID, and forwarding layers show only the next hop's routing keys.",
  ["inputs","configurations"],"all pairs of equally long contents, all options",
  "A leak is a relation between two runs on arbitrary contents; tests look at single outputs.",
  ["src/jwe/encrypt.rs","src/message/pack_encrypted/authcrypt.rs","src/protocols/routing/mod.rs"],
  [("encrypt","src/jwe/encrypt.rs")],["pack_encrypted output"])
p("C13","Forward onion delivers along the route and nothing else",
  "When forwarding applies, peeling the packed message with each routing key's secret in route order yields at every hop a forward message whose next is the following routing key (finally the recipient as addressed), carrying the configured headers, and after the last hop exactly the inner envelope that packing without forwarding gives. Each layer can be opened only with the key of its hop.",
  ["inputs","configurations"],"all routing key lists up to the bound (keys or DIDs), endpoint DIDs, header sets, algorithms",
  "Tests use two fixed routes.",
  ["src/protocols/routing/mod.rs"],
  [("wrap_in_forward","src/protocols/routing/mod.rs"),("build_forward_message","src/protocols/routing/mod.rs")],["wrap_in_forward","pack_encrypted"])
p("C14","Messaging service selection follows the DID document",
  "With forwarding on, packing uses the service with the requested id, failing with IllegalArgument if it is missing, not of DIDComm type or does not accept didcomm/v2; with no id it uses the first acceptable service in document order and no forwarding if there is none. An endpoint that is itself a DID adds that mediator's own service once (a second level is an error), and the reported service id and transport endpoint are those of the recipient's service and of the resolved mediator respectively.",
  ["inputs","configurations"],"all service lists within bounds (type, accept list, routing keys, endpoint kind, order), requested id present/absent/wrong",
  "Tests use a few fixed documents.",
  ["src/protocols/routing/mod.rs","src/did/did_doc.rs"],
  [("find_did_comm_service","src/protocols/routing/mod.rs"),("resolve_did_comm_services_chain","src/protocols/routing/mod.rs")],["PackEncryptedMetadata.messaging_service"])
p("C15","Forward messages are recognised and unwrapped only for the addressee",
  "A message is parsed as a forward exactly when its type is the routing 2.0 forward type, its body has a string next and its first attachment is JSON, and then next and the payload are exactly those. Unpacking replaces a forward by its payload only if the unwrap option is on, the forward came out of an anonymous envelope and the wallet holds a keyAgreement secret for next; otherwise the forward itself is returned.",
  ["inputs","configurations"],"all message shapes within bounds, next as DID or key id, wallet contents, option on/off, nested forwards",
  "Tests use a few fixed forwards.",
  ["src/protocols/routing/mod.rs","src/message/unpack/mod.rs"],
  [("try_parse_forward","src/protocols/routing/mod.rs"),("_try_unwrap_forwarded_message","src/message/unpack/mod.rs")],["try_parse_forward","Message::unpack"])
p("C16","DID rotation tokens are issued only for consistent claims",
  "Packing a from_prior claim succeeds only if iss and sub are distinct DIDs without fragment and the issuer key (given or chosen) is an authentication key of iss with a secret in the wallet; otherwise it fails. The produced token unpacks to the same claim and reports the key that signed it.",
  ["inputs","configurations"],"all iss/sub/issuer key strings within bounds, presence of optional claims, key types, wallets",
  "Tests use fixed claims.",
  ["src/message/from_prior/pack.rs","src/message/from_prior/unpack.rs","src/jws/sign.rs"],
  [("FromPrior::pack, validate_pack","src/message/from_prior/pack.rs")],["FromPrior::pack"])
p("C17","DID rotation tokens are accepted only if signed by the prior DID itself",
  "A from_prior token, alone or inside a message, is accepted only if it is a three-part JWT whose signature verifies over its exact header and payload under a key in the authentication list of the DID named by its kid, of the type its algorithm requires, and that DID is the token's iss. A message is packed only if its from_prior token is acceptable and its sub equals the message's from when from is set.",
  ["inputs","configurations"],"all tokens: any header, payload, signature, any signer including parties other than iss",
  "Tests use one valid token and a few broken ones.",
  ["src/message/from_prior/unpack.rs","src/jws/parse.rs","src/jws/verify.rs","src/message/pack_plaintext.rs","src/message/unpack/plaintext.rs"],
  [("FromPrior::unpack","src/message/from_prior/unpack.rs"),("parse_compact","src/jws/parse.rs"),("_validate_pack_plaintext","src/message/pack_plaintext.rs")],["FromPrior::unpack","Message::unpack","Message::pack_plaintext"])
p("C18","Public key formats denote the same key or are rejected",
  "A verification method given as JWK, base58 or multibase denotes exactly the key bytes encoded in it, so the same key in different formats is interchangeable in every operation. Values that are undecodable, have the wrong length, multibase prefix or codec, or whose method type does not fit the material are rejected with an error, never misread as another key and never a crash.",
  ["inputs"],"all key bytes and all encoded strings within bounds, all type/material combinations",
  "Tests cover one key per format.",
  ["src/utils/did.rs","src/jwk.rs","src/did/did_doc.rs"],
  [("AsKnownKeyPair for VerificationMethod","src/utils/did.rs"),("_from_multicodec","src/utils/did.rs")],["pack/unpack behaviour"])
p("C19","Secret key formats denote the same key or are rejected",
  "A secret given as JWK, base58 or multibase denotes exactly the private key encoded in it, so the same secret in different formats is interchangeable in every operation. Values that are undecodable, too short or too long, have the wrong prefix or codec, or do not fit their type are rejected with an error and never a crash.",
  ["inputs"],"all key bytes and all encoded strings within bounds, all type/material combinations",
  "Tests cover one key per format.",
  ["src/utils/did.rs","src/secrets/mod.rs"],
  [("AsKnownKeyPair for Secret","src/utils/did.rs")],["pack/unpack behaviour"])
p("C20","Plaintext message JSON is read and written faithfully",
  "Writing a message and reading it back gives an equal message for every combination of headers; unknown top-level fields are kept as extra headers and optional headers that are absent stay absent. A message is accepted only if id, type and body are present and typ, when present, is the DIDComm plaintext media type; the builder puts every value it is given into the message, in order.",
  ["inputs"],"all field values within bounds and all presence combinations",
  "Tests use fixed messages.",
  ["src/message/message.rs","src/message/unpack/plaintext.rs","src/message/pack_plaintext.rs"],
  [("Message, MessageBuilder","src/message/message.rs"),("validate","src/message/message.rs")],["Message::build","Message::unpack","Message::pack_plaintext"])
p("C21","Attachments keep their kind and every attribute",
  "An attachment built or received as base64, embedded JSON or links keeps its kind, its data, its jws and every optional attribute unchanged through writing and reading. Attachment data that has none of the three forms (or links without hash) is rejected.",
  ["inputs"],"all values within bounds and all presence combinations, all data shapes",
  "Tests use fixed attachments.",
  ["src/message/attachment.rs"],
  [("AttachmentData, AttachmentBuilder","src/message/attachment.rs")],["Attachment","Message::unpack"])
p("C22","DID documents and secrets keep their meaning through JSON",
  "Reading a DID document or secret written by the library gives back the same identifiers, key relationships in order, verification methods with their material, services with endpoint, accept list and routing keys. Optional service fields default to no accept list and no routing keys, and each kind of key material is read as the kind its field name states.",
  ["inputs","configurations"],"all field values within bounds, all material and service kinds",
  "One test, for a minimal service.",
  ["src/did/did_doc.rs","src/secrets/mod.rs"],
  [("serde attributes","src/did/did_doc.rs"),("serde attributes","src/secrets/mod.rs")],["DIDDoc","Secret"])
p("C23","Resolver failures surface with their own kind and never as success",
  "If a DID or secrets resolver fails at any call during packing, unpacking, forwarding or rotation, the operation fails and reports the resolver's error kind; a DID that does not resolve gives DIDNotResolved and a wallet without any needed secret gives SecretNotFound. No operation returns a result built from a failed or missing resolution.",
  ["fault_sequences","inputs"],"a failure (of any kind) or a not-found answer at any one of the resolver calls of any operation",
  "Tests use resolvers that never fail, or fail always.",
  ["src/message/unpack/authcrypt.rs","src/message/unpack/sign.rs","src/message/unpack/anoncrypt.rs","src/message/pack_encrypted/authcrypt.rs","src/protocols/routing/mod.rs","src/message/from_prior/pack.rs","src/error.rs"],
  [("ResultContext::context","src/error.rs")],["Error::kind"])
p("C24","Decrypt-by-all-keys is enforced when requested",
  "With expect_decrypt_by_all_keys, unpacking succeeds only if every recipient key for which the wallet holds a secret opens the envelope, and fails if any does not. Without it, one opening key suffices, and the message is the same whichever key opened it.",
  ["inputs","configurations"],"all subsets of held secrets, all subsets of corrupted recipient entries, both envelope kinds",
  "Tests use two fixed envelopes.",
  ["src/message/unpack/anoncrypt.rs","src/message/unpack/authcrypt.rs"],
  [("decrypt loop","src/message/unpack/anoncrypt.rs")],["UnpackOptions.expect_decrypt_by_all_keys"])
p("C25","Algorithm names are honoured exactly and unknown ones refused",
  "The algorithms in an envelope's headers are those selected by the options and key types and written with their registered names, and unpacking reports the algorithm that was really used. An envelope naming any other content, key or signature algorithm, or one not allowed for its kind, is never opened.",
  ["inputs","configurations"],"all algorithm name strings within bounds, all supported algorithms and key types",
  "Tests try one unknown name per field.",
  ["src/jwe/envelope.rs","src/jws/envelope.rs","src/algorithms.rs","src/message/unpack/authcrypt.rs","src/message/unpack/anoncrypt.rs"],
  [("Algorithm, EncAlgorithm","src/jwe/envelope.rs"),("Algorithm","src/jws/envelope.rs")],["UnpackMetadata","envelope headers"])
p("C26","Error kinds survive the JavaScript boundary",
  "Every error kind reported to JavaScript is given a distinct name, and an error carrying such a name that comes back from a JavaScript resolver is converted to the same kind with the same message. Any other thrown value becomes an InvalidState error.",
  ["inputs"],"all error kinds and all error name strings within bounds",
  "There is no test of the conversion.",
  ["wasm/src/error.rs"],[("JsResult, FromJsResult","wasm/src/error.rs")],["as_js","from_js"])
p("C27","Foreign-language resolver callbacks deliver exactly one result",
  "A result or error handed to a resolver callback by foreign code is what the awaiting operation receives, with its kind and value; every later delivery on the same callback is refused and does not change the outcome. If the callback is dropped without a result, the operation fails instead of waiting forever.",
  ["histories"],"all sequences of success, error and drop up to the bound",
  "Tests deliver once.",
  ["uniffi/src/common.rs","uniffi/src/did/did_resolver_adapter.rs","uniffi/src/secrets/secrets_resolver_adapter.rs"],
  [("OnResult","uniffi/src/common.rs")],["OnResult::success","OnResult::error","OnResultReceiver::get"])
p("C28","Options and algorithms read from JSON get the documented defaults",
  "Packing and unpacking options read from JSON take each given field's value and for absent fields the same defaults as the options' default value: forwarding on, sender protection off, default algorithms, decrypt-by-all off. Algorithm names map one to one to algorithms and unknown names are rejected.",
  ["inputs","configurations"],"all presence combinations and values of the option fields",
  "No test reads options from JSON.",
  ["src/message/pack_encrypted/mod.rs","src/message/unpack/mod.rs","src/algorithms.rs"],
  [("serde defaults","src/message/pack_encrypted/mod.rs")],["PackEncryptedOptions","UnpackOptions"])
p("C29","The public forward wrapper is total over its routing key list",
  "wrap_in_forward returns a result for every routing key list and message: with no routing keys it returns the message unchanged, and a message that is not JSON, an unresolvable hop or a hop without usable keys gives an error of the documented kind. It never panics.",
  ["inputs","configurations"],"all routing key lists within bounds including the empty list, all message strings within bounds",
  "Tests use non-empty fixed lists.",
  ["src/protocols/routing/mod.rs"],[("wrap_in_forward","src/protocols/routing/mod.rs")],["wrap_in_forward"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
