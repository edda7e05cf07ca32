C="common/pkg/"
mk("C01-bytes-alias","C01",[(C+"nodeid/nodeid.go","""		return nil, fmt.Errorf("NodeID: Incorrect size: %d, should be fewer than %d", lenID, WordSize)
	}
	n.id = make([]byte, WordSize)
""","""		return nil, fmt.Errorf("NodeID: Incorrect size: %d, should be fewer than %d", lenID, WordSize)
	}
	if lenID == WordSize {
		n.id = id
		return &n, nil
	}
	n.id = make([]byte, WordSize)
""")],"common","pkg/nodeid",'''
	package nodeid

	import "testing"

	func TestSeedDemo(t *testing.T) {
		b := make([]byte, 32)
		b[0] = 7
		n, err := NewNodeIDFromBytes(b)
		if err != nil {
			t.Fatal(err)
		}
		s := n.ToString()
		for i := range b {
			b[i] = 9 // the caller reuses its buffer
		}
		if n.ToString() != s {
			t.Fatal("identifier changed with the caller's buffer")
		}
	}
''',"the caller reuses the full-length buffer it created the identifier from","a node identifier made from exactly 32 bytes shares storage with the caller's bytes")
mk("C01-cid-empty-entry","C01",[(C+"cid/cid.go","""	for i, v := range cids {
		contentID, err := NewContentIDFromHexString(v)
		if err != nil {
			return nil, err
		}
		results[i] = *contentID
	}
""","""	for i, v := range cids {
		if i > 0 && len(v) < len(cids[0]) {
			v = v + cids[0][len(v):]
		}
		contentID, err := NewContentIDFromHexString(v)
		if err != nil {
			return nil, err
		}
		results[i] = *contentID
	}
""")],"common","pkg/cid",'''
	package cid

	import "testing"

	func TestSeedDemo(t *testing.T) {
		l, err := MapStringToCID([]string{"aabbcc", "01"})
		if err != nil {
			t.Fatal(err)
		}
		w, _ := NewContentIDFromHexString("01")
		if l[1].ToString() != w.ToString() {
			t.Fatal("identifier in a list decoded to something else: " + l[1].ToString())
		}
	}
''',"a list in which a later identifier's text is shorter than the first one's","a short identifier in a list is completed with the first one's digits instead of being left-padded")
mk("C02-version-bits","C02",[(C+"fcrcrypto/key_version.go","	binary.BigEndian.PutUint32(result, k.ver)","	binary.BigEndian.PutUint32(result, k.ver)\n	result[0] &= 0x7f")],"common","pkg/fcrcrypto",'''
	package fcrcrypto

	import "testing"

	func TestSeedDemo(t *testing.T) {
		k, err := GenerateRetrievalV1KeyPair()
		if err != nil {
			t.Fatal(err)
		}
		v := DecodeKeyVersion(0x80000001)
		s, err := SignMessage(k, v, []byte("m"))
		if err != nil {
			t.Fatal(err)
		}
		g, err := ExtractKeyVersionFromMessage(s)
		if err != nil || !g.Equals(v) {
			t.Fatal("key version lost", g, err)
		}
	}
''',"a key version with its top bit set","the key version recovered from a signature is not the one signed with")
mk("C03-body-prefix","C03",[(C+"fcrmessages/fcrmessage.go","""func (fcrMsg FCRMessage) MarshalToSign() ([]byte, error) {
	return json.Marshal(fcrMessageJson{
		MessageType:       fcrMsg.messageType,
		ProtocolVersion:   fcrMsg.protocolVersion,
		ProtocolSupported: fcrMsg.protocolSupported,
		MessageBody:       fcrMsg.messageBody,
""","""func (fcrMsg FCRMessage) MarshalToSign() ([]byte, error) {
	body := fcrMsg.messageBody
	if len(body) > 1<<16 {
		body = body[:1<<16]
	}
	return json.Marshal(fcrMessageJson{
		MessageType:       fcrMsg.messageType,
		ProtocolVersion:   fcrMsg.protocolVersion,
		ProtocolSupported: fcrMsg.protocolSupported,
		MessageBody:       body,
""")],"common","pkg/fcrmessages",'''
	package fcrmessages

	import (
		"testing"

		"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	)

	func TestSeedDemo(t *testing.T) {
		k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err != nil {
			t.Fatal(err)
		}
		m := CreateFCRMessage(5, make([]byte, 100000))
		if err := m.Sign(k, fcrcrypto.InitialKeyVersion()); err != nil {
			t.Fatal(err)
		}
		if err := m.Verify(k); err != nil {
			t.Fatal(err)
		}
		m.messageBody[99999] = 1
		if m.Verify(k) == nil {
			t.Fatal("tampered body accepted")
		}
	}
''',"a message body longer than 64 KiB, altered beyond its first 64 KiB","the signature no longer covers the tail of long bodies")
mk("C04-nonce-narrow","C04",[(C+"fcrmessages/client_dht_discover_request.go","""		Nonce:              nonce,
		TTL:                ttl,
""","""		Nonce:              nonce,
		TTL:                int64(uint32(ttl)),
""")],"common","pkg/fcrmessages",'''
	package fcrmessages

	import (
		"testing"

		"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	)

	func TestSeedDemo(t *testing.T) {
		c, _ := cid.NewContentIDFromHexString("01")
		m, err := EncodeClientDHTDiscoverRequest(c, 1, 1<<40, 4, true, "a", "v")
		if err != nil {
			t.Fatal(err)
		}
		_, _, ttl, _, _, _, _, err := DecodeClientDHTDiscoverRequest(m)
		if err != nil || ttl != 1<<40 {
			t.Fatal("time-to-live changed", ttl, err)
		}
	}
''',"a time-to-live outside the 32-bit unsigned range","the decoded time-to-live differs from the encoded one")
mk("C05-price-unsigned","C05",[(C+"cidoffer/cidoffer.go","""		Price:      c.price,
		Expiry:     c.expiry,
		QoS:        c.qos,
	})
}

// UnmarshalJSON""","""		Price:      c.price & (1<<40 - 1),
		Expiry:     c.expiry,
		QoS:        c.qos,
	})
}

// UnmarshalJSON"""),(C+"cidoffer/subcidoffer.go","""		MerkleRoot: c.merkleRoot,
		Price:      c.price,
		Expiry:     c.expiry,
		QoS:        c.qos,
""","""		MerkleRoot: c.merkleRoot,
		Price:      c.price & (1<<40 - 1),
		Expiry:     c.expiry,
		QoS:        c.qos,
""")],"common","pkg/cidoffer",'''
	package cidoffer

	import (
		"testing"

		"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
		"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
		"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	)

	func TestSeedDemo(t *testing.T) {
		k, err := fcrcrypto.GenerateRetrievalV1KeyPair()
		if err != nil {
			t.Fatal(err)
		}
		p, _ := nodeid.NewNodeIDFromHexString("02")
		c, _ := cid.NewContentIDFromHexString("01")
		o, err := NewCIDOffer(p, []cid.ContentID{*c}, 10, 20, 30)
		if err != nil {
			t.Fatal(err)
		}
		if err := o.Sign(k, fcrcrypto.InitialKeyVersion()); err != nil {
			t.Fatal(err)
		}
		if err := o.Verify(k); err != nil {
			t.Fatal(err)
		}
		o.price |= 1 << 41
		if o.Verify(k) == nil {
			t.Fatal("altered price accepted")
		}
	}
''',"an offer whose price is altered only above 2^40; both the offer's and the sub-offer's signed form drop it, so each still verifies the other","the provider's signature no longer covers the whole price")
mk("C06-skip-empty","C06",[(C+"fcrmerkletree/proof.go","""		hashFunc := sha256.New()
""","""		if len(path) == 0 {
			continue
		}
		hashFunc := sha256.New()
""")],"common","pkg/fcrmerkletree",'''
	package fcrmerkletree

	import (
		"crypto/sha256"
		"encoding/hex"
		"testing"

		"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	)

	func TestSeedDemo(t *testing.T) {
		c, _ := cid.NewContentIDFromHexString("01")
		other := make([]byte, 32)
		h := sha256.Sum256(append(append([]byte{}, c.ToBytes()...), other...))
		p := &FCRMerkleProof{path: [][]byte{{}, other}, index: []int64{1, 1}}
		if p.VerifyContent(c, hex.EncodeToString(h[:])) {
			t.Fatal("a proof whose path does not fold to the root was accepted")
		}
	}
''',"a proof with an empty path entry","an empty path entry is skipped instead of being hashed in, so a path that does not fold to the root is accepted")
mk("C07-digest-expiry","C07",[(C+"cidoffer/cidoffer.go","	binary.BigEndian.PutUint64(bExpiry, uint64(c.expiry))","	binary.BigEndian.PutUint64(bExpiry, uint64(c.expiry)&0xffffffffff)")],"common","pkg/cidoffer",'''
	package cidoffer

	import (
		"testing"

		"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
		"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	)

	func TestSeedDemo(t *testing.T) {
		p, _ := nodeid.NewNodeIDFromHexString("02")
		c, _ := cid.NewContentIDFromHexString("01")
		a, _ := NewCIDOffer(p, []cid.ContentID{*c}, 10, 20, 30)
		b, _ := NewCIDOffer(p, []cid.ContentID{*c}, 10, 20|1<<41, 30)
		if a.GetMessageDigest() == b.GetMessageDigest() {
			t.Fatal("offers that differ in their expiry have one digest")
		}
	}
''',"two offers whose expiry differs only above 2^40","different offers share a digest")
mk("C07-decode-reuse","C07",[(C+"cidoffer/cidoffer.go","""	c.providerID = nodeID
	c.cids = cids
	c.price = cJson.Price
""","""	if len(c.cids) == len(cids) && len(cids) > 0 && c.cids[0].ToString() == cids[0].ToString() {
		cids = c.cids
	}
	c.providerID = nodeID
	c.cids = cids
	c.price = cJson.Price
""")],"common","pkg/cidoffer",'''
	package cidoffer

	import (
		"encoding/json"
		"testing"

		"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
		"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	)

	func TestSeedDemo(t *testing.T) {
		p, _ := nodeid.NewNodeIDFromHexString("02")
		c, _ := cid.NewContentIDFromHexString("01")
		d, _ := cid.NewContentIDFromHexString("03")
		e, _ := cid.NewContentIDFromHexString("04")
		a, _ := NewCIDOffer(p, []cid.ContentID{*c, *d}, 10, 20, 30)
		b, _ := NewCIDOffer(p, []cid.ContentID{*c, *e}, 10, 20, 30)
		ja, _ := json.Marshal(a)
		jb, _ := json.Marshal(b)
		var o CIDOffer
		if json.Unmarshal(ja, &o) != nil || json.Unmarshal(jb, &o) != nil {
			t.Fatal("decode failed")
		}
		if o.GetMessageDigest() != b.GetMessageDigest() {
			t.Fatal("decoding into a used offer kept its identifiers")
		}
	}
''',"decoding into an offer that already holds the same number of identifiers with the same first one","the decoded offer keeps the identifiers of the offer decoded before it")
