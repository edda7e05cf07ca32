#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,title
    P.append(d)

p("C01","Node and content identifiers have one 32-byte value in every form",
  "A node or content identifier is always exactly 32 bytes: shorter input is left-padded with zeros, longer or undecodable input is refused with an error and no identifier. Printing an identifier as hex, bytes or JSON and reading it back gives the same identifier, and two content identifiers compare equal exactly when all their bytes are equal. Creating identifiers never panics and never shares storage with the caller's bytes.",
  ["inputs"],"all byte strings, big integers, strings and lists of them","tests use a handful of literal ids; the padding, refusal and round trip must hold at every length and content",
  ["common/pkg/cid/cid.go","common/pkg/cid/cidadapter.go","common/pkg/nodeid/nodeid.go"],
  [("constructors","common/pkg/cid/cid.go NewContentID*, common/pkg/nodeid/nodeid.go NewNodeID*"),("codecs","ToString/ToBytes/MarshalJSON/UnmarshalJSON, MapCIDToString, MapStringToNodeID")])
p("C02","Signatures carry the key version and verify only under the signer's key",
  "A message signed with a key pair and key version yields a signature string from which that key version is recovered and which verifies under that key pair and under its published public key. Verification reports acceptance only when the signature part after the 4-byte key version is accepted by the curve for exactly the given message and key, and never reports acceptance together with an error. Any string may be offered as a signature or encoded key: malformed, truncated or empty ones are refused with an error and never crash the process.",
  ["inputs"],"all keys, key versions, messages, and all strings offered as signatures or encoded keys","tests sign a few fixed messages with a fixed key and cannot cover malformed strings or all versions",
  ["common/pkg/fcrcrypto/msg_signing.go","common/pkg/fcrcrypto/key_version.go","common/pkg/fcrcrypto/keypair_retrieval.go","common/pkg/fcrcrypto/secp256k1.go"],
  [("framing","SignMessage, ExtractKeyVersionFromMessage, VerifyMessage"),("keys","DecodePrivateKey, DecodePublicKey, Sign, Verify, RetrievalV1Verify")])
p("C03","A protocol message's signature covers everything in it but the signature",
  "A message envelope signed with a key verifies under that key, and verification computes the signed content from the message type, protocol version, supported versions and body, so a change to any of them is presented to the curve as different content. Verifying leaves the message as it was, whether it succeeds or fails, and a message that was never signed does not verify. Encoding a message to bytes and decoding it gives the same message, and bytes that are not a message are refused with an error.",
  ["inputs"],"all messages, keys and byte strings","tests round-trip a few messages; that every field is covered and nothing is changed on failure is a statement about all messages",
  ["common/pkg/fcrmessages/fcrmessage.go"],[("sign/verify","FCRMessage.Sign, FCRMessage.Verify"),("codec","FCRMessageToBytes, FCRMessageFromBytes")])
p("C04","Every message kind decodes to exactly what was encoded",
  "For every kind of protocol message, decoding an encoded message returns the fields it was encoded with. A message of any other kind, or whose body is not valid, is refused with an error. Decoding never panics, whatever the body contains.",
  ["inputs"],"all field values of every message kind, and all message bodies","each codec has one or two example tests; field mix-ups that the examples' equal values hide, and malformed bodies, are not reached",
  ["common/pkg/fcrmessages"],[("codecs","Encode*/Decode* in each file of common/pkg/fcrmessages")])
p("C05","Offers and sub-offers prove their signer and their content identifier",
  "A signed offer verifies under the signing provider's key and, whenever verification accepts, the curve accepted the signature for exactly the offer's provider, content identifiers, price, expiry and quality of service. A sub-offer generated for a content identifier of an offer verifies against the same signature and its Merkle proof is bound to that identifier; a sub-offer made for an identifier the offer does not hold carries a proof that verifies only if that identifier is the root itself. Verification changes neither the offer nor its signature.",
  ["inputs"],"all offers, sub-offers, keys and content identifiers","tests sign one or two offers and check one tampering",
  ["common/pkg/cidoffer/cidoffer.go","common/pkg/cidoffer/subcidoffer.go"],[("offer","NewCIDOffer, Sign, Verify, GenerateSubCIDOffer"),("sub-offer","SubCIDOffer.Verify, VerifyMerkleProof")])
p("C06","A Merkle proof is accepted only when it really links content to the root",
  "Proof verification accepts a content and root only if hashing the content and folding in the proof's path, in the recorded left or right order, yields exactly the root. A proof generated by a tree for a content it holds is accepted for that content and the tree's root, and for content it does not hold a tree yields an empty proof, which links nothing but the root itself. Verification and decoding of arbitrary, even malformed, proofs never panic.",
  ["inputs"],"all paths, index lists, contents and roots, including proofs decoded from the network","tests build small trees; malformed proofs and all path shapes are outside them",
  ["common/pkg/fcrmerkletree/proof.go","common/pkg/fcrmerkletree/tree.go"],[("verify","FCRMerkleProof.VerifyContent"),("generate","FCRMerkleTree.GenerateMerkleProof")])
p("C07","An offer's digest and JSON form identify exactly its contents",
  "The digest of an offer or sub-offer is a function of its provider, content identifiers (or root), price, expiry, quality of service and nothing else, and computing it changes nothing. Encoding an offer or sub-offer as JSON and decoding it gives the same offer with the same digest, and malformed identifiers, prices or roots in the JSON are refused with an error rather than yielding a broken offer.",
  ["inputs"],"all offers and all JSON documents","tests round-trip single offers",
  ["common/pkg/cidoffer/cidoffer.go","common/pkg/cidoffer/subcidoffer.go"],[("digest","GetMessageDigest"),("codec","MarshalJSON, UnmarshalJSON")])
p("C08","The DHT ring returns the true nearest members of the true member set",
  "The ring holds exactly the identifiers inserted and not since removed, each once: inserting a present identifier or removing an absent one changes nothing. A range query returns exactly the members inside the inclusive range, wrapping around the ring, in order, and a closest query returns the requested number of distinct members (all if fewer) nearest to the given identifier. Queries change nothing and never fail on a ring with any number of members.",
  ["inputs","histories"],"all sequences of insertions, removals and queries over all identifiers","tests use fixed small rings; corner cases depend on the history (empty, one member, wrap-around, removal of the head)",
  ["common/pkg/dhtring/dhtring.go"],[("ring","Insert, Remove, Size, GetWithinRange, GetClosest")])
p("C09","A payer never promises more than its channel holds and keeps exact books",
  "A payment voucher is issued only for a non-negative amount and only if the total promised on the channel lane stays within the channel's balance; a voucher carries the previous total plus the new amount and each voucher on a lane has a higher nonce. When payment fails or the balance does not suffice, the books are unchanged and a top-up is asked for. A top-up raises the recorded balance by exactly the topped-up amount, and the books never share storage with the amounts callers pass in.",
  ["inputs","histories"],"all sequences of payments and top-ups, amounts and failures of the chain calls","existing tests never run the payment manager's arithmetic",
  ["common/pkg/fcrpaymentmgr/payment_manager.go"],[("paying","FCRPaymentMgr.Pay, FCRPaymentMgr.Topup")])
p("C10","A payee credits a voucher exactly once and never more than it is worth",
  "A received voucher is credited with exactly the amount by which it exceeds what was already redeemed on its channel and lane, so the same voucher presented again is worth nothing. A voucher is credited only if it decodes, is for the channel it is presented on, that channel is owed to this node, its signature checks out and the channel balance covers it. A refused voucher leaves the totals credited so far unchanged.",
  ["inputs","histories"],"all vouchers, channel states and sequences of receipts","existing tests never run the payee's side",
  ["common/pkg/fcrpaymentmgr/payment_manager.go"],[("receiving","FCRPaymentMgr.Receive")])
p("C11","A gateway sells only for payment received, at its configured prices",
  "A gateway answers a paid discovery or offer request with content information only if the payment received with the request covers the price of what is asked; an underpaid request gets the insufficient-funds or payment-required answer and nothing else, and it neither spends money nor contacts other nodes for it. Serving a request never changes the configured prices. A request naming unknown offers or carrying mismatched lists is answered without crashing the gateway.",
  ["inputs","histories"],"all requests, vouchers, prices and states of the gateway","handlers have no tests that pay; missing returns and price mutation show only on particular requests",
  ["gateway/internal/api/clientapi","gateway/internal/api/gatewayapi"],[("client side","HandleClient*Request*"),("gateway side","HandleGateway*Request*")])
p("C12","A node acts on a message only after checking its sender's signature",
  "A gateway or provider stores published offers, changes group support or answers a peer's query only after the message's signature has verified under the registered key of the node it claims to come from, and every offer stored has itself verified under the publishing provider's key. A message from an unregistered node, with an undecodable body or a bad signature changes no state. A publication with one bad offer is refused as a whole.",
  ["inputs","histories"],"all messages and register contents","handler tests exercise no wrong signature",
  ["gateway/internal/api/providerapi","gateway/internal/api/gatewayapi","provider/internal/api/gatewayapi"],[("handlers","HandleProviderPublish*, HandleGateway*")])
p("C13","A client never hands its caller an answer or offer that failed verification",
  "A client returns a node's answer only if its signature verifies under that node's registered key and it echoes the request's nonce or identifier where one is sent. Offers returned from discovery are verified: signature of the provider, Merkle proof and the content identifier asked for; others are dropped. A failure of one node loses only that node's answer.",
  ["inputs","fault_sequences"],"all answers any gateway or provider may send","client tests use honest mocks",
  ["client/pkg/api/clientapi","client/pkg/fcrclient"],[("requests","Request*"),("discovery","FindOffers*")])
p("C14","A client talks to exactly the gateways it was told to use",
  "Adding gateways makes a client use each registered gateway named, once, and removing gateways stops the use of exactly those named; an active gateway is always a known one. Unregistered or unreachable gateways are not added, the reported count is the number really added or removed, and the lists returned are copies in agreement with the client's state.",
  ["inputs","histories"],"all sequences of add and remove calls with all identifier lists","tests cover single calls",
  ["client/pkg/fcrclient/filecoin_retrieval_client.go"],[("sets","AddGatewaysToUse, RemoveGatewaysToUse, AddActiveGateways, RemoveActiveGateways, GetGatewaysToUse, GetActiveGateways")])
p("C15","Client reputation follows the recorded events and stays within its limits",
  "A client's reputation starts at the configured initial value when it first establishes contact, each recorded event changes it by exactly the configured amount, and it never leaves the configured minimum and maximum. Events of one client never change another's reputation, and an unknown client has none. A client once established keeps its reputation when it establishes again.",
  ["inputs","histories"],"all sequences of events for all clients","tests make a few calls on one client",
  ["gateway/internal/reputation/reputation.go"],[("events","ClientEstablishmentChallenge and the other event methods")])
p("C16","A provider's record of acknowledged offers matches what gateways signed",
  "A provider records an acknowledgement for an offer and gateway only if it verifies under that gateway's registered key and is for the offer published, and a client asking for the acknowledgement gets exactly the recorded message pair, or a clear not-found. Listing offers for a gateway returns the signed offers in its content-identifier range.",
  ["inputs","histories"],"all publish/ack sequences and requests","tests are single-shot",
  ["provider/internal/offers","provider/internal/api"],[("ack","RequestListDHTOffer, HandleClientDHTOfferAckRequest"),("publish","RequestProviderPublish*")])
p("C17","The register manager returns only entries registered under the identifier asked",
  "The register manager returns for an identifier exactly the entry registered under it, nothing when none is registered or the manager is not started, and its lists hold only registered entries; the gateways near a content identifier are registered gateways. A null or malformed answer from the register never crashes a node, and updating never leaves an entry filed under another's identifier. A register entry yields the key its key text stands for, or an error when the text is no well-formed key.",
  ["inputs","histories"],"all register contents, answers and refresh sequences","tests use well-formed entries",
  ["common/pkg/register","common/pkg/fcrregistermgr/register_manager.go"],[("entries","GatewayRegister, ProviderRegister methods"),("manager","GetGateway, GetProvider, GetAll*, GetGatewaysNearCID, updateGateways, updateProviders")])
p("C18","The in-memory offer store returns exactly the live offers it holds",
  "An offer added is found under its digest and under every content identifier it holds, once, until it expires; expired offers are removed and never returned. Looking up a content identifier returns only offers that hold it, and an expired offer that is looked up is forgotten under every identifier. Offers with no content identifiers, with more than one for a single-identifier publication, or already expired are refused.",
  ["inputs","histories"],"all sequences of additions, expiry and look-ups","tests hold a few offers",
  ["common/pkg/fcroffermgr/offer_manager.go","common/pkg/fcroffermgr/offer_storage.go"],[("store","AddGroupOffer, AddDHTOffer, GetOffers, GetOfferByDigest")])
p("C19","Every operation releases the locks it takes and guards shared state",
  "Every public operation on a shared structure (register manager, offer stores, payment manager, reputation, P2P server, client, provider acknowledgement maps) returns with every lock it took released, on every path including errors, and never takes a lock it already holds. Shared fields are read or written only while their lock is held, and for writing it is held exclusively.",
  ["inputs","histories","schedules"],"all inputs and paths of each operation, hence all interleavings of operations","a missed unlock or unguarded access shows only on rare paths or schedules",
  ["common/pkg/fcrregistermgr","common/pkg/fcroffermgr","common/pkg/fcrpaymentmgr","gateway/internal/reputation","common/pkg/fcrp2pserver","client/pkg/fcrclient"],[("locks","sync.Mutex/RWMutex fields")])
p("C20","P2P messages arrive whole and reach only their own handler",
  "A message sent over the peer protocol is received as the same message, however it is fragmented, and its length prefix bounds what is read. A received message is passed to the handler registered for its type and to no other, an unknown type gets an invalid-message answer, and a failure to read, decode or answer ends the connection without affecting the server.",
  ["inputs","fault_sequences"],"all messages, fragmentations and failures","tests use loopback with whole messages",
  ["common/pkg/fcrp2pserver"],[("framing","readTCPMessage, sendTCPMessage"),("routing","handleIncomingConnection")])
p("C21","Admin commands install exactly the node identity and key they carry",
  "An initialisation or key-installation command sets a node's identifier, key and key version to exactly those it carries, and the node then signs its answers with that key and version. A malformed command, or one sent before initialisation where it needs it, changes nothing and is answered with a failure. Reputation and group-support commands read or change exactly the entry named.",
  ["inputs","histories"],"all admin messages and node states","tests do not send malformed or repeated commands",
  ["gateway/internal/api/adminapi","provider/internal/api/adminapi"],[("handlers","HandleGatewayAdmin*, HandleProviderAdmin*")])
if __name__=="__main__":
    with open(root+"/properties.jsonl","w") as f:
        for d in P: f.write(json.dumps(d)+"\n")
