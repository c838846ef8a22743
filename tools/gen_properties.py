#!/usr/bin/env python3
# Generates /verif/properties.jsonl. One entry per property.
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Rendezvous stores only authentic, fresh, owner-signed registrations",
"The rendezvous server accepts a TO0 owner registration, and stores a redirect for a device, only if the request belongs to a live TO0 session and the TO0 data carries that session's nonce, a valid ownership voucher chain, the hash the owner signed over, usable addresses, and a redirect blob signed by the key of the last owner in that voucher. When it accepts, the redirect blob stored for the device GUID of that voucher is exactly the one received and it expires after the smaller of 30 days and the owner's requested wait, which is also the wait acknowledged to the owner. Any other request leaves the stored redirects unchanged and is answered with an FDO error.",
["inputs","histories"],"every OwnerSign request (every combination of token, nonce, address entries, voucher entry chain, signer, hash, wait time) against every session state",
"No test drives the TO0 server at all; acceptance is a conjunction of seven checks over attacker-supplied structures and only symbolic signatures, nonces and hashes cover every way one of them can fail.",
["core/rv/listener-to0.go","core/rv/ownersign.db.go","core/rv/session.db.go","core/shared/voucher.go"],
[("TO0 OwnerSign handler","core/rv/listener-to0.go:Handle22OwnerSign"),("redirect store","core/rv/ownersign.db.go:OwnerSignDB"),("voucher validation","core/shared/voucher.go:Validate")],
[("owner sign store","GUID -> signed redirect, with TTL","core/rv/ownersign.db.go")],["HTTP response type and body of message 22","key/value/TTL written to the store"])

prop("C02","A redirect is released only to the device that proves its GUID",
"The rendezvous server returns a TO1 redirect only when the request belongs to a live TO1 session, and the presented attestation token carries that session's nonce and is signed by the device key in the certificate chain registered for the GUID of that session. The redirect returned is byte for byte the blob the owner registered for that GUID. A hello for a GUID with no registration, and every failed proof, is answered with an FDO error for TO1 and reveals no redirect.",
["inputs","histories"],"every HelloRV/ProveToRV request pair, every session state and every registered content",
"No test runs the TO1 server; releasing the blob to a wrong prover needs a specific combination of nonce, UEID, key and session that sampling does not hit.",
["core/rv/listener-to1.go","core/rv/ownersign.db.go","core/rv/session.db.go"],
[("TO1 hello","core/rv/listener-to1.go:Handle30HelloRV"),("TO1 proof","core/rv/listener-to1.go:Handle32ProveToRV")],
None,["HTTP response of messages 30 and 32"])

prop("C03","TO2 messages are accepted only in protocol order",
"Within one TO2 session the onboarding server accepts a message only when the previously accepted message is one that the FDO 1.1 message order allows before it (hello, then voucher entries, then proof, then service info ready, then service info rounds, then done). A message out of order, with an unknown, missing or foreign-protocol session token, or with a wrong content type is answered with an FDO error that names that message, and does not advance the session. Done ends the session: no message is accepted after it. After an accepted message the session records that message as the last one.",
["inputs","histories"],"every recorded session state and every next TO2 message; sequences of TO2 messages",
"The state space is the product of last-accepted command and next message; existing tests never call a TO2 handler.",
["core/do/to2/common.go","core/do/to2/listener-to2-60-HelloDevice.go","core/do/to2/listener-to2-62-GetOVNextEntry.go","core/do/to2/listener-to2-64-ProveDevice.go","core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-70-Done.go"],
[("session lookup and body decode","core/do/to2/common.go:receiveAndVerify"),("previous command guards","core/do/to2/listener-to2-*.go")],
[("last command","the last message accepted in the session","core/do/dbs/session.db.go:SessionEntry.PrevCMD")],["HTTP status/message type; stored session entry"])

prop("C04","Voucher entries are served by index, exactly and in range",
"For every voucher of at most 255 entries and every requested index, the onboarding server's response to a voucher entry request carries exactly the entry of that index of the voucher held for the device, with the same index, when the index is below the number of entries announced at hello. Every other index is answered with an FDO error. The announced number of entries equals the number of entries of the stored voucher.",
["inputs","histories"],"every requested index 0..255 (and beyond one byte), every number of entries 1..4 within the bound",
"No test requests voucher entries; off-by-one at the last index or with a single-entry voucher needs every index/count pair.",
["core/do/to2/listener-to2-62-GetOVNextEntry.go","core/do/to2/listener-to2-60-HelloDevice.go"],
[("entry selection","core/do/to2/listener-to2-62-GetOVNextEntry.go:GetOVNextEntry62"),("hello","core/do/to2/listener-to2-60-HelloDevice.go:HelloDevice60")],
None,["HTTP response of message 62"])

prop("C05","TO2 accepts a device only on a fresh proof by the voucher's device key",
"The onboarding server completes device authentication only when the device's attestation token carries the nonce sent at hello and is signed by the device certificate key recorded in the voucher for the GUID of the session, with the negotiated signature type. On success the session key is derived from that session's key exchange and the server answers, under that key, with an owner-signed setup message that carries the device's setup nonce. Every other proof is answered with an FDO error and leaves the session unauthenticated.",
["inputs","histories"],"every ProveDevice request against every session state after hello",
"No test runs ProveDevice; the accept condition is a conjunction over symbolic signatures, nonces and session data.",
["core/do/to2/listener-to2-64-ProveDevice.go","core/do/to2/listener-to2-60-HelloDevice.go","core/shared/distuff.go"],
[("device proof","core/do/to2/listener-to2-64-ProveDevice.go:ProveDevice64"),("attestation token","core/shared/signing.misc.go"),("key derivation","core/shared/kex.crypto.go:DeriveSessionKey")],
[("session key","symmetric keys agreed in TO2","core/do/dbs/session.db.go:SessionEntry.SessionKey")],["HTTP response of message 64; stored session"])

prop("C06","Service info: owner messages once each, in order, done exactly at the end",
"In the service info exchange the onboarding server sends each of its owner service info messages exactly once and in order, at most one per round, announces done in the response that delivers the last of them and not before, and refuses any further service info after that. It asks for no more and sends nothing while the device has more to send. A device whose complete service info lacks or mistypes a mandatory module message is refused with an FDO error.",
["inputs","histories"],"every number of owner messages within the bound, every round and every IsMoreServiceInfo flag, any device service info of bounded length",
"Rounds x owner messages x more-flag interact; the existing tests only call the module list validator on a handful of lists.",
["core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/common.go"],
[("service info rounds","core/do/to2/listener-to2-68-DeviceServiceInfo.go:DeviceServiceInfo68"),("mandatory module validation","core/do/to2/common.go:ValidateDeviceSIMs")],
[("owner message counter","index of the next owner message","core/do/dbs/session.db.go:SessionEntry.ServiceInfoMsgNo")],["HTTP response of message 68; stored session"])

prop("C07","After device proof every TO2 message must be authentic under the session key",
"The onboarding server acts on a service info ready, service info or done message only if it decrypts and authenticates under the session's key and cipher suite, and its own responses to those messages are encrypted under the same key and suite. A done message is accepted only if it carries the nonce given to the device at hello, and the answer carries the device's setup nonce. A message that fails authentication changes neither the service info accumulated in the session nor its progress.",
["inputs","histories"],"every message 66, 68, 70 body, every session state that reached the proof",
"Needs tampered ciphertexts and wrong nonces against live sessions; no test covers these handlers.",
["core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-70-Done.go","core/shared/enc.crypto.go"],
[("decrypt before decode","core/shared/enc.crypto.go:RemoveEncryptionWrapping"),("done nonces","core/do/to2/listener-to2-70-Done.go:Done70")],
None,["HTTP response of messages 66, 68, 70; stored session"])

prop("C08","Encryption wrapping round-trips and rejects any tampering or foreign key",
"For every supported cipher suite, every session key and every payload, unwrapping a wrapped message with the same key and suite returns the payload unchanged, and the wrapped message names the suite's algorithms and uses IV, key and tag lengths the suite prescribes. Unwrapping a message whose algorithm, IV, ciphertext or tag was altered or is missing, or that was wrapped under another key or suite, fails with an error and returns no payload.",
["inputs","configurations"],"every supported suite, every key, payload up to the byte bound, every altered wrapping",
"The existing test encrypts one fixed payload with one suite; suites, lengths and tampering are unsampled.",
["core/shared/enc.crypto.go"],
[("wrap","core/shared/enc.crypto.go:AddEncryptionWrapping"),("unwrap","core/shared/enc.crypto.go:RemoveEncryptionWrapping"),("suite table","core/shared/enc.crypto.go:CipherSuitesInfoMap")])

prop("C09","AES-CCM seals and opens exactly as RFC 3610 defines",
"For every key, nonce, associated data and plaintext within the bounds, the CCM mode's sealed output equals the RFC 3610 ciphertext and tag for its nonce and tag lengths, opening it returns the plaintext, and opening data with any change to ciphertext, tag, nonce or associated data fails. The nonce and tag lengths it accepts are exactly those CCM allows, and plaintext longer than the length field permits is refused.",
["inputs","configurations"],"every nonce size 7..13 and tag size, plaintext and associated data up to the byte bounds",
"The mode has no test; block-boundary and length-field arithmetic errors appear only at particular lengths.",
["core/shared/ccm/ccm.go"],
[("seal/open","core/shared/ccm/ccm.go")])

prop("C10","Both sides of every key exchange derive the same session keys",
"For every supported key exchange suite and cipher suite, the owner and the device that exchange the generated parameters derive identical session keys whose lengths are those the cipher suite prescribes. The keys are the SP 800-108 counter-mode derivation over the shared secret in the FDO ordering, so that they differ when the shared secret differs. Parameters whose length, curve point or encryption is not valid for the suite are rejected with an error.",
["inputs","configurations"],"every key exchange suite x cipher suite, every parameter value including values whose leading bytes are zero",
"Leading-zero coordinates occur with probability 1/256 per run and no test performs a key exchange.",
["core/shared/kex.crypto.go","core/shared/enc.crypto.go"],
[("parameter generation","core/shared/kex.crypto.go:GenerateXABKeyExchange"),("derivation","core/shared/kex.crypto.go:DeriveSessionKey")])

prop("C11","Hash and HMAC verification accepts exactly the matching digest",
"Verification of a hash or HMAC accepts a value if and only if it equals the digest of the given data (under the given key) with the algorithm named in the value, and generation always produces values that verification accepts. An algorithm that is unknown or of the wrong kind is rejected with an error.",
["inputs","configurations"],"every hash/HMAC type code, every data, key and digest within the bounds",
"No test covers hash or HMAC verification; type confusion needs each type code against each.",
["core/shared/hashing.crypto.go"],
[("hash","core/shared/hashing.crypto.go:VerifyHash"),("hmac","core/shared/hashing.crypto.go:VerifyHMac")])

prop("C12","A signed message verifies only as signed, under the signer's key",
"A message signed for a payload and protected header verifies under the signer's public key in each supported key encoding and for each supported signature type. It does not verify under another key, with another algorithm or key type, or after any change to its payload, protected header or signature (the signature-preserving negation of an ECDSA s value excepted), nor is a signature of a length wrong for the algorithm accepted.",
["inputs","configurations"],"every supported signature type and public key encoding, every payload, header and signature within the bounds",
"The two existing tests sign and check fixed vectors with one curve.",
["core/shared/signing.cose.go","core/shared/signing.crypto.go"],
[("sign","core/shared/signing.cose.go:GenerateCoseSignature"),("verify","core/shared/signing.cose.go:VerifyCoseSignature"),("key decoding and check","core/shared/signing.crypto.go:VerifySignature")])

prop("C13","Voucher entries are accepted only as an unbroken signed chain",
"A voucher's entries are accepted only if each entry is signed by the owner key that the previous entry (or, for the first, the voucher header) names, and each entry's previous-hash covers the exact previous entry (for the first, header and header HMAC). The final owner key reported for an accepted voucher is the key named by its last entry. Reordering, repeating, replacing or altering an entry, or removing one that another follows, makes the voucher rejected.",
["inputs"],"every chain of up to 3 entries with arbitrary signers, hashes and keys",
"No test validates any multi-entry voucher; each link can be broken independently.",
["core/shared/voucher.go"],
[("chain walk","core/shared/voucher.go:VerifyOVEntries"),("validation","core/shared/voucher.go:Validate"),("final owner","core/shared/voucher.go:GetFinalOwnerPublicKey")])

prop("C14","Voucher validation ties certificate chain, header and entries together",
"A voucher is accepted only with the supported protocol version in voucher and header, a device certificate chain whose hash is the one in the header, rendezvous information and device info that are not empty, and only intact entries; a voucher without entries names no final owner. Validation of any decodable voucher terminates with acceptance or an error and never crashes.",
["inputs"],"every decodable voucher: absent or present chain, absent or present hash, any version, any number of entries within the bound",
"Absent optional fields and mismatched hashes are never sampled.",
["core/shared/voucher.go"],
[("validation","core/shared/voucher.go:Validate")])

prop("C15","Generated virtual devices have vouchers that verify; faulty ones fail as asked",
"Every voucher generated for a virtual device without a requested fault passes voucher validation, its header carries the device credential's GUID, rendezvous information and manufacturer key, its header HMAC verifies under the credential's secret, and its device certificate chain starts with the credential's key. A voucher generated with a requested voucher fault does not pass validation. Generating one, with a fault or without, leaves the device credential it starts from as it was. The final entry names the owner key delivered with the voucher.",
["inputs","configurations"],"every supported device and owner key type, every voucher fault id, every random draw of the generator",
"Generation depends on random draws (entry count, fault position), so a rare draw that yields a valid 'faulty' voucher is not sampled.",
["core/device/genvoucher.go","core/device/genvoucher_with_provided_keys.go","core/device/deviceCredential.load.go","core/shared/distuff.go"],
[("voucher generator","core/device/genvoucher.go:NewVirtualDeviceAndVoucher")])

prop("C16","No request, however malformed, crashes a protocol server",
"Every message posted to the rendezvous or onboarding protocol endpoints - any token, content type, body bytes, decodable or not, at any session state - is answered with exactly one HTTP response, a success or an FDO error message naming the message, and never aborts the handler. A body that is not the CBOR array (of the message's length) or the CBOR tag the message starts with, null included, is answered with an FDO error. While a listener test run of the device is active the handler may stay silent, but it neither aborts nor answers twice.",
["inputs","histories"],"every endpoint, any session token and state, body structurally arbitrary within the bound (including null and missing optional fields)",
"A single malformed optional field suffices; the tests send no requests.",
["core/rv/listener-to0.go","core/rv/listener-to1.go","core/do/to2/common.go","core/do/to2/listener-to2-60-HelloDevice.go","core/do/to2/listener-to2-62-GetOVNextEntry.go","core/do/to2/listener-to2-64-ProveDevice.go","core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-70-Done.go","core/shared/enc.crypto.go"],
[("handlers","core/rv, core/do/to2"),("session lookup","core/rv/session.db.go, core/do/dbs/session.db.go")],
None,["handler returns; response written"])

prop("C17","A listener test run advances and finishes exactly by its test list",
"While a listener conformance run is active, it expects exactly the current test of the current command, moves on one test for each recorded result, and finishes a command only after every one of its tests has a result. Every recorded result is stored once under the test it was obtained for, passes exactly when the device reacted as the test demands, and a run that is completed, replaced or removed is neither duplicated in nor lost from the history, while other runs stay untouched. Without a run in progress nothing is recorded and the device is answered as usual. Every negative test sends the device a message that a correct device refuses, every positive one a message it accepts.",
["inputs","histories"],"every reachable runner state within the bound and every next operation",
"Requires sequences of start/push/complete/remove operations; no test exercises the runner.",
["core/shared/testcom/listener/listenert.db.go","core/shared/testcom/listener/testrun.go","core/shared/testcom/listener/factory.go","core/shared/testcom/dbs/listener.db.go"],
[("runner","core/shared/testcom/listener/listenert.db.go:RequestListenerRunnerInst"),("listener store","core/shared/testcom/dbs/listener.db.go")],
[("run state","current command, current test, history","core/shared/testcom/listener/listenert.db.go")])

prop("C18","Request test runs are recorded faithfully",
"Each request-test result reported for an active run is stored in that run under its test id and in no other run or target, starting a run makes exactly one new in-progress run, finishing marks that run and only that run finished, and removing a run removes exactly that run. Operations that name an unknown target or run change nothing and do not crash, and a result for a run that was removed meanwhile touches no other run.",
["inputs","histories"],"every bounded store content and every operation of the record store",
"Needs multi-step histories with several targets and runs; no test touches the store.",
["core/shared/testcom/dbs/reqt.db.go","core/shared/testcom/request/rvt.db.go"],
[("record store","core/shared/testcom/dbs/reqt.db.go")])

prop("C19","Conformance verdicts follow the response actually received",
"A conformance request test that expects a refusal passes only if the implementation under test answered the tested message with a non-success status and a decodable FDO error (of the demanded code where one is demanded), and a test that expects success passes only if it answered with success and a body that decodes to the expected message (voucher entries also only if they are those asked for and lead to the key the owner speaks with). Every other response, including transport failure or undecodable bodies, is recorded as failed. Expecting any error passes exactly for every FDO error response. No answer crashes a test run, and every run ends with its verdicts stored.",
["inputs"],"every response status and body within the bound, every expected verdict, every message of a run whose answer is replaced",
"The verdict helpers take arbitrary remote responses; no test supplies any.",
["core/shared/testcom/methods.go","core/shared/testcom/common.go","core/device/to1/to1-common.go","core/device/to2/to2-common.go","core/do/to0/common.go"],
[("test executors","testexec/do.to2.execute.go"),("verdict helpers","core/shared/testcom/methods.go")])

prop("C20","Fuzzing helpers always alter the message they are asked to break",
"Each fault-injection helper returns a value that differs from the valid one it was given in the way the test needs: a fuzzed signature message no longer verifies or has lost the unprotected header its receiver needs, a fuzzed hash, HMAC, nonce or GUID differs, and a fuzzed encryption wrapping no longer unwraps. This holds for every random draw the helper makes, so that a negative conformance test never sends a valid message.",
["inputs"],"every valid input within the bound and every random draw",
"The failing draws are rare and random, so a test almost never sees them.",
["core/shared/conformance.go","core/shared/enc.crypto.go"],
[("fuzz helpers","core/shared/conformance.go")])

prop("C21","Rendezvous information keeps its meaning when encoded, decoded and mapped",
"Rendezvous directives encoded into a voucher header and read back yield the same variables and values, and mapping them for use yields for every directive exactly the addresses, ports, protocol, delay and flags it contains, each value decoded as the type its variable prescribes. Directives whose values are not of the prescribed type are rejected rather than silently replaced by defaults.",
["inputs"],"every rendezvous variable, every value within the byte bound, up to 2 directives",
"Each variable has its own value type; no test decodes rendezvous information.",
["core/shared/rvinfo.go"],
[("directives","core/shared/rvinfo.go:UrlsToRendezvousInfo"),("mapping","core/shared/rvinfo.go:NewMappedRVDirective")])

prop("C22","URLs and TO2 addresses convert to each other without loss",
"A server URL turned into a TO2 address entry or a rendezvous directive carries the same host (as an IP address or a DNS name), port and transport protocol as the URL, with the scheme's default port when none is given. Directives turned back into owner URLs name the same scheme, host and port, and an IP address of any family yields a usable URL. A URL that names no host or an unsupported scheme is rejected.",
["inputs","configurations"],"every supported scheme, host kind (DNS, IPv4, IPv6), port 0..65535",
"No test covers URL conversion; the combinations of scheme, host kind and port are unsampled.",
["core/shared/to1.go","core/shared/other.go","core/shared/rvinfo.go","core/device/common/common.go"],
[("URL to address","core/shared/other.go"),("owner URLs","core/shared/to1.go")])

prop("C23","Management operations act only for a logged-in owner of the target",
"A management API call that reads, runs, changes or deletes a test target acts only when the request carries a live session of an existing logged-in user and the target belongs to that user. Any other call is refused with an error status, discloses no target data and changes nothing. After logout the session no longer authorises anything. A logged-in user's own well-formed call takes effect on that user's targets alone: listing, creating (with every supported owner key type), running, deleting, purging and fetching vouchers.",
["inputs","histories"],"every handler, cookie, session state, user ownership list and target id",
"No test calls the management API; ownership checks sit in each handler separately.",
["api/testapi/rv.api.go","api/testapi/do.api.go","api/testapi/device.api.go","api/user.other.api.go","api/commonapi/common.go","dbs/session.db.go","dbs/user.structs.db.go"],
[("authorisation","api/*/checkAutzAndGetUser"),("ownership","dbs/user.structs.db.go:*_ContainID")],
[("session","cookie -> email, logged in","dbs/session.db.go")],["HTTP status; store contents"])

prop("C24","Stored records come back intact and never collide across kinds",
"Whatever record is saved in one of the stores (users, verifications, configuration, sessions, vouchers, redirects, virtual devices, test targets, listener runs) is returned unchanged when read by its key, an absent key yields an error, and a deleted key is gone. Writing or deleting a record of one kind or key never changes a record of another kind or key. Resetting the users or the listener runs deletes all records of that kind and no others.",
["inputs","histories"],"every record content within the bound, every pair of kinds and keys",
"Key prefixes and codec options interact; no test uses a store.",
["dbs/user.db.go","dbs/session.db.go","dbs/verify.db.go","dbs/config.db.go","dbs/devicebase.db.go","core/rv/session.db.go","core/rv/ownersign.db.go","core/do/dbs/session.db.go","core/do/dbs/voucher.db.go","core/shared/testcom/dbs/reqt.db.go","core/shared/testcom/dbs/listener.db.go"],
[("stores","dbs/, core/*/dbs")])

prop("C25","Sessions stay isolated and keep a bounded lifetime",
"Updating a protocol or login session changes exactly that session, and a session, whether fresh or updated, is stored with an expiry no longer than the lifetime of its kind, so no session lives forever. Session tokens are never reused, and a message processed in one session changes no other session.",
["inputs","histories"],"every pair of sessions, every update",
"Expiry is only visible in the storage metadata; tests never look at it.",
["core/rv/session.db.go","core/do/dbs/session.db.go","dbs/session.db.go"],
[("session stores","core/rv/session.db.go, core/do/dbs/session.db.go, dbs/session.db.go")],
[("session TTL","expiry in the store","core/rv/session.db.go:NewSessionEntry")])

prop("C26","The device client accepts only an authentic owner in TO2",
"The virtual device continues TO2 past hello only if the owner's answer is signed by the key it presents, echoes the device's nonce, the hash of the sent hello and the voucher header whose HMAC verifies under the device secret; it proves itself only when every voucher entry verifies from the header on and the last one names the key that signed the owner's answer; it accepts the setup message only under the session key, signed by the owner key it hands over, with the device's setup nonce and non-empty rendezvous information, and it completes only if the final nonce matches. Any deviation ends the exchange with an error and never crashes the client.",
["inputs","histories"],"every owner response within the structural bound to messages 60, 64 and 70",
"A malicious or broken owner is exactly what the conformance tool meets; no test plays one.",
["core/device/to2/req-to2-60-HelloDevice.go","core/device/to2/req-to2-62-GetOVNextEntry.go","core/device/to2/req-to2-64-ProveDevice.go","core/device/to2/req-to2-66-DeviceServiceInfoReady.go","core/device/to2/req-to2-68-DeviceServiceInfo.go","core/device/to2/req-to2-70-Done.go","main.go"],
[("device requestors","core/device/to2"),("the to2 command","main.go")])

prop("C27","TO0 and TO1 clients send what the protocol and their inputs demand",
"The owner client registers the voucher's data with the nonce it was given, the hash of that data inside the blob it signs with the owner key, and the device client proves itself to the rendezvous with the given nonce, its own GUID and its device key; both are exactly what the matching server accepts. Each client accepts only a successful response that is the answer it expects, returns the server's blob unchanged, and is crashed by no response.",
["inputs","histories"],"every nonce, GUID, wait time and address list within the bound; every server response",
"No test runs client against server; equality with the server's acceptance predicate is a relation over all values.",
["core/do/to0/req-to0-20-Hello.go","core/do/to0/req-to0-22-OwnerSign.go","core/device/to1/req-to1-30-HelloRV.go","core/device/to1/req-to1-32-ProveToRV.go","main.go"],
[("TO0 client","core/do/to0"),("TO1 client","core/device/to1")])

prop("C28","Algorithm negotiation follows the FDO table and never yields none",
"For every supported combination of device and owner key type the negotiated hash and HMAC algorithms are those of the FDO 1.1 table, and whatever the types the result is one of the two defined matching hash and HMAC pairs, never an undefined algorithm. The lookup tables for key, signature, hash, key exchange and cipher suites agree with each other and give the standard's numbers and sizes, and a listed suite without an implementation, like an unlisted one, is refused with an error.",
["inputs","configurations"],"every pair of signature types and every algorithm code",
"The tables are finite but no test enumerates their combinations or cross-checks them.",
["core/shared/hashing.crypto.go","core/shared/other.crypto.go","core/shared/signing.crypto.go","core/shared/enc.crypto.go","core/shared/kex.crypto.go","core/shared/distuff.go"],
[("negotiation","core/shared/hashing.crypto.go:NegotiateHashHmacTypes")])

prop("C29","Random selection stays within its population, without repeats",
"Random choices of test ids, batches and integers stay within the population or range given, a batch has exactly the requested number of distinct members whenever the population is large enough, every member and both range ends can be drawn, and requests that cannot be met yield an error or an empty result rather than a crash.",
["inputs"],"every population size and batch size within the bound, every random draw",
"The faulty sizes and draws are corner cases that sampling misses.",
["core/shared/other.go","core/shared/testcom/common.go"],
[("selection helpers","core/shared/other.go")])

prop("C30","Transport checks and error replies follow the FDO message format",
"Every error reply is a decodable FDO error with the non-success HTTP status chosen for it and message type 255 that carries the given code, the message that caused it and no session token; every success reply has HTTP 200, the given message type, content type CBOR and the exact body. A request is processed only with the CBOR content type and a bearer session token where the message needs one.",
["inputs"],"every error code, message type, status, token and body within the bound",
"Headers and error bodies are never asserted by a test.",
["core/shared/comms.go","core/shared/error.go","core/shared/transport.go"],
[("responses","core/shared/comms.go"),("header checks","core/shared/transport.go")])

prop("C31","Voucher text and credentials survive export and import",
"A voucher with its owner key exported as text and imported again yields the same voucher and a key equal to the original, in every supported key format. A virtual device credential stored for a device is reproduced by loading it, and text that is not a voucher followed by a private key is refused with an error and never crashes the importer.",
["inputs"],"every voucher/key text within the structural bound, every key format",
"Only ad-hoc samples exist; malformed block orders, types and missing blocks are not tested.",
["core/device/common/common.go","core/device/deviceCredential.load.go","core/do/dbs/voucher.db.go","core/shared/pem.go"],
[("import","core/device/common/common.go:DecodePemVoucherAndKey")])

prop("C32","Interop reports name what was accepted",
"With interop reporting on, each TO0 registration a rendezvous server accepts, each redirect it releases to a proved device, each onboarding an onboarding service completes, each registration a rendezvous server accepts from an onboarding service, and each onboarding of the virtual device for which the owner gave a report token, is reported to the dashboard exactly once, naming the device's GUID, the protocol and the nonce of that exchange, with the access token of the reporting component. Refused messages, answers that belong to a conformance test, and anything at all while interop is off are not reported, and no failure or answer of the dashboard changes the protocol's answer or what is stored.",
["inputs","faults"],"every exchange outcome, dashboard answer and failure, nonce and GUID within the encoded exchanges",
"No test enables interop; a report that names the wrong nonce or is sent for a refused message only shows on a dashboard that is not part of the repository.",
["core/shared/interop.go","core/rv/listener-to0.go","core/rv/listener-to1.go","core/do/to2/listener-to2-70-Done.go","core/do/to0/req-to0-22-OwnerSign.go","main.go"],
[("report","core/shared/interop.go:SubmitIopLoggerEvent"),("component tokens","core/shared/interop.go:IopGetAuthz")])

prop("C33","Voucher and reset commands",
"Loading a folder stores every voucher file in it under its device's GUID, with its owner key and exactly as it is in the file, replaces an earlier version, and touches nothing else; a voucher file that is empty, lacks its key, is forged or is something else makes the command fail and is not stored. Pushing vouchers registers every stored voucher with the rendezvous server once, signed by its owner, until the server refuses one, and leaves the store as it was. A device generated by the tools is registered, redirected and onboarded by the tools' own commands and servers. A reset removes every record of its kind and no others.",
["inputs","faults"],"every folder and store content within the structural bounds, every generated key type, every message at which the rendezvous server fails",
"No test runs the commands; a voucher silently skipped or a store partly reset only shows when a device fails to onboard.",
["main.go","core/do/dbs/voucher.db.go","core/device/common/common.go","core/device/genvoucher.go","dbs/user.db.go","core/shared/testcom/dbs/listener.db.go"],
[("commands","main.go:main")])

prop("C34","All components on one server",
"When the rendezvous server, the onboarding server and the management API are set up together on one server and one store, each protocol message is served at its own path by its own component, and a request there that is not a correct one is refused with an FDO error naming that message. A live session token of one component, a management login included, is worth nothing to another and changes nothing. A device can be registered, redirected and onboarded by that server whatever other exchanges, rejected requests or management calls come between its messages, and they are not affected either.",
["inputs","histories"],"every message and body within bounds at every path, every pairing of a live token with a message, every point of one device's exchange at which another client acts",
"Unit tests drive single handlers on stores of their own; shared key prefixes, routes and sessions only meet in the served configuration.",
["core/rv/server.go","core/do/server.go","api/server.go","core/rv/session.db.go","core/do/dbs/session.db.go","dbs/session.db.go"],
[("routes","core/do/server.go:SetupServer"),("routes","core/rv/server.go:SetupServer"),("management routes","api/server.go:SetupServer")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
