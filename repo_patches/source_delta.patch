From 0fd689f8f33fdc14cf4a5ce74cbcd5a638917668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:38 +0000
Subject: [PATCH 01/49] fix: reject signatures too short to hold a key version
 instead of panicking

---
 common/pkg/fcrcrypto/msg_signing.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..4e26c07 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -52,6 +52,13 @@ func ExtractKeyVersionFromMessage(signature string) (*KeyVersion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(sigBytes) == 0 {
+		// An unsigned message carries no key version.
+		return DecodeKeyVersion(0), nil
+	}
+	if len(sigBytes) < sigOfsKeyVersionEnd {
+		return nil, errors.New("signature is too short to contain a key version")
+	}
 	return DecodeKeyVersionFromBytes(sigBytes[sigOfsKeyVersionStart:sigOfsKeyVersionEnd])
 }
 
-- 
2.43.0


From c879ae9703d319512a785060d1353425006e624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:38 +0000
Subject: [PATCH 02/49] fix: return an error for an empty encoded key instead
 of panicking

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 4adbf66..817f555 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -63,6 +63,9 @@ func DecodePrivateKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) < lengthOfSigAlgInBytes {
+		return nil, fmt.Errorf("encoded key is empty")
+	}
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
@@ -112,6 +115,9 @@ func DecodePublicKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) < lengthOfSigAlgInBytes {
+		return nil, fmt.Errorf("encoded key is empty")
+	}
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
-- 
2.43.0


From e673b1f51d39286b4ff9df32b86ba1cb229c04a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 03/49] fix: refuse malformed identifiers when decoding
 messages and offers instead of yielding nil or panicking

---
 common/pkg/cid/cid.go                             |  9 ++++++---
 common/pkg/cidoffer/cidoffer.go                   | 11 +++++++++--
 common/pkg/cidoffer/subcidoffer.go                | 10 ++++++++--
 .../client_dht_discover_offer_request.go          | 11 +++++++++--
 .../client_dht_discover_offer_response.go         | 11 +++++++++--
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../client_dht_discover_response_v2.go            | 10 +++++++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 common/pkg/fcrmessages/gateway_ping_request.go    |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go | 11 +++++++++--
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_get_published_offer_request.go  |  6 +++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 .../provideradmin_publish_dht_offer_request.go    |  6 +++++-
 .../provideradmin_publish_group_offer_request.go  |  6 +++++-
 common/pkg/nodeid/nodeid.go                       |  9 ++++++---
 44 files changed, 241 insertions(+), 59 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..5b93453 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -135,11 +135,14 @@ func MapCIDToString(cids []ContentID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
+		contentID, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *contentID
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..75c744f 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,16 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	cids, err := cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.cids = cids
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..60735fb 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..e000d43 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, err
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,6 +54,13 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..526a133 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	contentIDs, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return contentIDs, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..a184f03 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	contentIDs, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return contentIDs, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..5ddc341 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -179,11 +179,14 @@ func MapNodeIDToString(cids []NodeID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
+		nodeID, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *nodeID
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From 54cf3a42626429bb94e643287c4c7f9013dc581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 04/49] fix: report the alive flag a gateway ping response
 carries

---
 common/pkg/fcrmessages/gateway_ping_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrmessages/gateway_ping_response.go b/common/pkg/fcrmessages/gateway_ping_response.go
index 668d209..1562003 100644
--- a/common/pkg/fcrmessages/gateway_ping_response.go
+++ b/common/pkg/fcrmessages/gateway_ping_response.go
@@ -60,5 +60,5 @@ func DecodeGatewayPingResponse(fcrMsg *FCRMessage) (
 		return 0, false, err
 	}
 
-	return msg.Nonce, true, nil
+	return msg.Nonce, msg.IsAlive, nil
 }
-- 
2.43.0


From ec15505faddff0789cf16c3e73e90cbda5f7e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 05/49] fix: report the acknowledgement a group CID offer
 support response carries

---
 ...ateway_notify_provider_group_cid_offer_supported_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
index cc987cd..a25b7c5 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
@@ -48,5 +48,5 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg *FCRMessage)
 	if err != nil {
 		return false, err
 	}
-	return true, nil
+	return msg.Acknowledged, nil
 }
-- 
2.43.0


From 52381c53b0115b88a2bb9f74faaea16b25060c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 06/49] fix: keep a message's signature when its verification
 fails

---
 common/pkg/fcrmessages/fcrmessage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrmessages/fcrmessage.go b/common/pkg/fcrmessages/fcrmessage.go
index d7929d6..ad502d6 100644
--- a/common/pkg/fcrmessages/fcrmessage.go
+++ b/common/pkg/fcrmessages/fcrmessage.go
@@ -107,6 +107,8 @@ func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
 	sig := fcrMsg.signature
 	fcrMsg.signature = ""
 	raw, err := fcrMsg.MarshalToSign()
+	// Recover signature
+	fcrMsg.signature = sig
 	if err != nil {
 		return fmt.Errorf("failed to marshal message during verification, error: %s", err.Error())
 	}
@@ -117,8 +119,6 @@ func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
 	if !res {
 		return errors.New("message does not pass signature verification")
 	}
-	// Recover signature
-	fcrMsg.signature = sig
 	return nil
 }
 
-- 
2.43.0


From 160c87461a10f3f4d6f4f2b731bc51b3c9911f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 07/49] fix: refuse malformed Merkle proofs instead of
 panicking

---
 common/pkg/fcrmerkletree/proof.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..5428cab 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -36,13 +36,21 @@ type FCRMerkleProof struct {
 
 // VerifyContent is used to verify a given content and a given root matches the proof.
 func (mp *FCRMerkleProof) VerifyContent(content merkletree.Content, root string) bool {
-	currentHash, _ := content.CalculateHash()
+	if mp == nil || len(mp.path) != len(mp.index) {
+		return false
+	}
+	currentHash, err := content.CalculateHash()
+	if err != nil {
+		return false
+	}
 	for i, path := range mp.path {
 		hashFunc := sha256.New()
 		if mp.index[i] == 1 {
-			hashFunc.Write(append(currentHash, path...))
+			hashFunc.Write(currentHash)
+			hashFunc.Write(path)
 		} else {
-			hashFunc.Write(append(path, currentHash...))
+			hashFunc.Write(path)
+			hashFunc.Write(currentHash)
 		}
 		currentHash = hashFunc.Sum(nil)
 	}
-- 
2.43.0


From 309b14863c12f6909a937dac1b4355c55ee176b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 08/49] fix: compute offer digests without appending to the
 provider identifier's storage

---
 common/pkg/cidoffer/cidoffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 75c744f..cb0cf50 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -185,7 +185,7 @@ func (c *CIDOffer) GenerateSubCIDOffer(cid *cid.ContentID) (*SubCIDOffer, error)
 // Note that the methodology used here should not be externally visible. The
 // message digest should only be used within the gateway.
 func (c *CIDOffer) GetMessageDigest() (sum256 [CIDOfferDigestSize]byte) {
-	b := c.providerID.ToBytes()
+	b := append([]byte{}, c.providerID.ToBytes()...)
 	for _, id := range c.cids {
 		b = append(b, id.ToBytes()...)
 	}
-- 
2.43.0


From 8fea1e823ad984ad3893b8041eeb4594d25fb9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 09/49] fix: keep a new channel's balance apart from the amount
 the caller passed to Topup

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..dcebcbe 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -167,7 +167,7 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Create new channel
 		mgr.outboundChs[recipient] = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
+			balance:    *new(big.Int).Set(amount),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
-- 
2.43.0


From f6ef664c0d79c9faf9efe02f4bacacd8fd16b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 10/49] fix: refuse to pay negative amounts

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index dcebcbe..d402de4 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -213,6 +213,9 @@ func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (s
 	if err != nil {
 		return "", "", false, err
 	}
+	if amount.Sign() < 0 {
+		return "", "", false, errors.New("cannot pay a negative amount")
+	}
 	// Get channel state
 	mgr.outboundChsLock.RLock()
 	defer mgr.outboundChsLock.RUnlock()
-- 
2.43.0


From e67c8be74f5e7a2efeb9f954f95c58ac1cd3bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 11/49] fix: credit a voucher only on the channel it was issued
 for

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index d402de4..0dcc1f8 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -290,6 +290,9 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	if sv.ChannelAddr != channelAddr {
+		return nil, errors.New("receive voucher method failed, voucher is for another channel")
+	}
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From 1ed633738da772d34c8277244e0946a6350b8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 12/49] fix: refuse vouchers on actors that are not payment
 channels instead of panicking

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 0dcc1f8..0bb80e6 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -342,7 +342,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	toStr, ok := paychState["To"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, paych state has no recipient")
+	}
+	to, err := address.NewFromString(toStr)
 	if err != nil {
 		return nil, err
 	}
@@ -355,7 +359,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	fromStr, ok := paychState["From"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, paych state has no sender")
+	}
+	f, err := address.NewFromString(fromStr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b9908927013b659d77a1e768337fa65212baa295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 13/49] fix: re-check for the payment channel after upgrading
 the lock

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 0bb80e6..f189805 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -136,6 +136,12 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
 		defer mgr.outboundChsLock.Unlock()
+		// Another call may have created it in the meantime
+		cs, ok = mgr.outboundChs[recipient]
+	} else {
+		defer mgr.outboundChsLock.RUnlock()
+	}
+	if !ok {
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
 		if err != nil {
@@ -175,7 +181,6 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	} else {
 		logging.Debug("debug Topup, recipient is known")
 		// No need to create a channel
-		defer mgr.outboundChsLock.RUnlock()
 		cs.lock.Lock()
 		defer cs.lock.Unlock()
 		// Top up msg
@@ -319,6 +324,12 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		mgr.inboundChsLock.RUnlock()
 		mgr.inboundChsLock.Lock()
 		defer mgr.inboundChsLock.Unlock()
+		// Another call may have created it in the meantime
+		cs, ok = mgr.inboundChs[channel]
+	} else {
+		defer mgr.inboundChsLock.RUnlock()
+	}
+	if !ok {
 		cs = &channelState{
 			addr:       channelAddr,
 			balance:    *state.Balance.Int,
@@ -329,7 +340,6 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		mgr.inboundChs[channel] = cs
 	} else {
 		// Need to update the channel state
-		defer mgr.inboundChsLock.RUnlock()
 		cs.lock.Lock()
 		defer cs.lock.Unlock()
 		if cs.balance.Cmp(state.Balance.Int) > 0 {
-- 
2.43.0


From eeb25480c7691872e87748f60bad9c6065726fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 14/49] fix: keep a reputation set by the admin within its
 limits

---
 gateway/internal/reputation/reputation_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..1256e4a 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -19,6 +19,11 @@ func (r *Reputation) getClientReputation(clientNodeID *nodeid.NodeID) (val int64
 
 func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64) {
 	clientNodeIDStr := clientNodeID.ToString()
+	if val > clientMaxReputation {
+		val = clientMaxReputation
+	} else if val < clientMinReputaiton {
+		val = clientMinReputaiton
+	}
 	r.clientsMapLock.Lock()
 	r.clients[clientNodeIDStr] = val
 	r.clientsMapLock.Unlock()
-- 
2.43.0


From 54f84ace15992184bf66e7c0e6976ee96babbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 15/49] fix: do not reset a reputation established meanwhile

---
 gateway/internal/reputation/reputation.go       |  4 ++--
 gateway/internal/reputation/reputation_store.go | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..5396a1d 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -56,9 +56,9 @@ func GetSingleInstance() *Reputation {
 	return instance
 }
 
-// establishClientReputation initialises the reputation of a Retrieval Client
+// establishClientReputation initialises the reputation of a Retrieval Client that has none yet
 func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
+	r.initClientReputation(clientNodeID, clientInitialReputation)
 }
 
 // SetClientReputation sets the reputation of a Retrieval Client
diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 1256e4a..0b56405 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -29,6 +29,16 @@ func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64)
 	r.clientsMapLock.Unlock()
 }
 
+// initClientReputation sets the reputation of a client that has none yet
+func (r *Reputation) initClientReputation(clientNodeID *nodeid.NodeID, val int64) {
+	clientNodeIDStr := clientNodeID.ToString()
+	r.clientsMapLock.Lock()
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
+		r.clients[clientNodeIDStr] = val
+	}
+	r.clientsMapLock.Unlock()
+}
+
 func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount int64) int64 {
 	clientNodeIDStr := clientNodeID.ToString()
 	var val int64
-- 
2.43.0


From 7b7a3d92b915e817972bc577f5711e4f064c64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 16/49] fix: report the reputation that the admin's request led
 to

---
 gateway/internal/api/adminapi/set_client_reputation_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/adminapi/set_client_reputation_handler.go b/gateway/internal/api/adminapi/set_client_reputation_handler.go
index 8fce17f..1d12d49 100644
--- a/gateway/internal/api/adminapi/set_client_reputation_handler.go
+++ b/gateway/internal/api/adminapi/set_client_reputation_handler.go
@@ -51,7 +51,7 @@ func HandleGatewayAdminSetReputationRequest(w rest.ResponseWriter, request *fcrm
 
 	if exists {
 		c.ReputationMgr.SetClientReputation(clientID, reputataion)
-		currentRep = reputataion
+		currentRep, _ = c.ReputationMgr.GetClientReputation(clientID)
 	}
 
 	// Construct messaqe
-- 
2.43.0


From bc8388f977b6ea484c067e51f65e6302e34cdf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 17/49] fix: release the provider map's lock when a provider is
 not found

---
 common/pkg/fcrregistermgr/register_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..4230098 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -209,6 +209,7 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		mgr.registeredProvidersMapLock.RLock()
 		provider, ok = mgr.registeredProvidersMap[id.ToString()]
 		if !ok {
+			mgr.registeredProvidersMapLock.RUnlock()
 			return nil
 		}
 	}
-- 
2.43.0


From 1b7bde6c19440d9dcb06eb3b7e217f40b4db874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 18/49] fix: do not take the ring's read lock twice

---
 common/pkg/fcrregistermgr/register_manager.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 4230098..05ced36 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -297,9 +297,6 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 0705ce3f98933bfa0fb5f44449b60c7dde2d6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 19/49] fix: skip empty entries in the register's answer

---
 common/pkg/fcrregistermgr/register_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 05ced36..d8a1fbb 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -267,6 +267,10 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 	var result []register.GatewayRegistrar
 	for _, g := range gateways {
+		if g == nil {
+			// The register returned an empty entry
+			continue
+		}
 		result = append(result, register.NewGatewayRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoProvider, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -290,6 +294,10 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 	}
 	var result []register.ProviderRegistrar
 	for _, g := range providers {
+		if g == nil {
+			// The register returned an empty entry
+			continue
+		}
 		result = append(result, register.NewProviderRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
-- 
2.43.0


From d9f95640e94502f89879b9af086afb1aae94e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 20/49] fix: do not multiply the configured offer price with
 every peer request

---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..2a80eb5 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -62,7 +62,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
 	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
 	fundedPaymentChannel := make([]bool, len(offerDigests))
-- 
2.43.0


From 669e4f091055f5a04c29decebfc61925abaa7e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 21/49] fix: answer a peer asking for unknown offers instead of
 crashing

---
 .../api/gatewayapi/dht_discover_offer_handler.go  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 2a80eb5..7f24a73 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -64,22 +64,25 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	lenOffers := big.NewInt(int64(len(offerDigests)))
 	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
+	subOffers := make([]cidoffer.SubCIDOffer, 0)
+	fundedPaymentChannel := make([]bool, 0)
 
-	for i, digest := range offerDigests {
+	for _, digest := range offerDigests {
 		d := cidoffer.DecodeMessageDigest(digest)
 		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
+		if !exist {
+			continue
+		}
 
 		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 		if err != nil {
 			continue
 		}
 
-		subOffers[i] = *cidOffer
+		subOffers = append(subOffers, *cidOffer)
+		fundedPaymentChannel = append(fundedPaymentChannel, true)
 	}
+	found := len(subOffers) > 0
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
-- 
2.43.0


From 87c46897815e3a1bc56a43e2bf491bd10866de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 22/49] fix: send a peer no offers it has not paid for

---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 7f24a73..1d0094d 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -87,7 +87,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From f076b20e93844cc54834779f4ed1942bc1b855cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 23/49] fix: send a peer no offer digests it has not paid for

---
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..61e95ff 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -81,7 +81,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
-- 
2.43.0


From cc36d8d0d706596d27dec65dc946cbcc7d9ac0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 24/49] fix: answer a client asking for unknown offers instead
 of crashing

---
 .../clientapi/standard_discover_offer_handler.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..ff97dbd 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,23 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
-		found := false
+		subOffers := make([]cidoffer.SubCIDOffer, 0)
+		fundedPaymentChannel := make([]bool, 0)
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, true)
 		}
+		found := len(subOffers) > 0
 
 		// Construct response
 		response, err = fcrmessages.EncodeClientStandardDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From c08ebf6f74f468e831f82cd139a06f1836b07037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 25/49] fix: do not tell a client that has not paid whether
 there are offers

---
 gateway/internal/api/clientapi/standard_discover_handler_v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_handler_v2.go b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
index 1fd911f..046c0bc 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
@@ -71,7 +71,7 @@ func HandleClientStandardCIDDiscoverRequestV2(writer rest.ResponseWriter, reques
 		} else {
 			logging.Error("PaymentMgr insufficient funds received " + receive.String() + " (default: " + c.Settings.SearchPrice.String() + ")")
 		}
-		response, err = fcrmessages.EncodeClientStandardDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
+		response, err = fcrmessages.EncodeClientStandardDiscoverResponseV2(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	}
 
 	if err != nil {
-- 
2.43.0


From 45b7d8bb86d518449464372459653889092bf179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 26/49] fix: stop after telling a client that its DHT discovery
 is not paid for

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
-- 
2.43.0


From 475ab9fbef6c742aa85dc5a737baf373cbeedd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 27/49] fix: stop after telling a client that its DHT offers
 are not paid for

---
 gateway/internal/api/clientapi/dht_discover_offer_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
-- 
2.43.0


From abd36a145c812b79d682280871ea40c752671a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 28/49] fix: pay a gateway the price of the offers asked after
 a top-up

---
 .../api/clientapi/dht_discover_offer_handler.go        | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..7af2e90 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -77,15 +77,9 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 			return
 		}
 		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
-				s := "Fail to pay recipient."
+				s := "Fail to top up and pay recipient."
 				logging.Error(s + err.Error())
 				rest.Error(w, s, http.StatusBadRequest)
 				return
-- 
2.43.0


From c2bcfd22580701144bcf1687178ef246fd7b1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 29/49] fix: answer requests with mismatched lists or unknown
 gateways instead of crashing

---
 .../api/clientapi/dht_discover_offer_handler.go      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7af2e90..8b35939 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -40,6 +40,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if len(allGatewaysOfferDigests) != len(targetGatewayIDs) {
+		s := "Number of gateways does not match the lists of offer digests."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	// Check amount
 	amount, err := c.PaymentMgr.Receive(paymentChannel, voucher)
 	if err != nil {
@@ -67,6 +74,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	for idx, targetGatewayID := range targetGatewayIDs {
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Info("Gateway not registered: %v", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
-- 
2.43.0


From 7e1e80533479720c2f3b5f42af372e23d70cab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 30/49] fix: store no offer of a publication that has one bad
 offer

---
 gateway/internal/api/providerapi/publish_dht_offer_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..80191de 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -62,7 +62,10 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
+	}
 
+	// Store the offers, all of them have been verified
+	for _, offer := range offers {
 		if c.OffersMgr.AddDHTOffer(&offer) != nil {
 			logging.Error("Internal error in adding single cid offer.")
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From f59cbe59ce02ff8ec093863fc3198297f5b2f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 31/49] fix: report a failed deadline instead of crashing the
 P2P server

---
 common/pkg/fcrp2pserver/tcp_comms.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..a06eb77 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -39,7 +39,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
 	_, err := io.ReadFull(reader, length)
 	if err != nil {
@@ -49,7 +49,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	data := make([]byte, int(binary.BigEndian.Uint32(length)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return nil, err
 	}
 	_, err = io.ReadFull(reader, data)
 	if err != nil {
@@ -71,7 +71,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	binary.BigEndian.PutUint32(length, uint32(len(data)))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	_, err = writer.Write(append(length, data...))
 	if err != nil {
@@ -79,7 +79,7 @@ func sendTCPMessage(conn net.Conn, fcrMsg *fcrmessages.FCRMessage, timeout time.
 	}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
-		panic(err)
+		return err
 	}
 	return writer.Flush()
 }
-- 
2.43.0


From 27af2c95f743b1845132c1638bfcfccf48996ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 32/49] fix: lose no bytes of the message after the one read

---
 common/pkg/fcrp2pserver/tcp_comms.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index a06eb77..f9e2cd8 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -33,15 +33,15 @@ func isTimeoutError(err error) bool {
 
 // readTCPMessage read the tcp message from a given connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
 	// Read the length
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		return nil, err
 	}
-	_, err := io.ReadFull(reader, length)
+	// Read from the connection itself: a buffered reader made for this message would take, and lose,
+	// the beginning of the next one.
+	_, err := io.ReadFull(conn, length)
 	if err != nil {
 		return nil, err
 	}
@@ -51,7 +51,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		return nil, err
 	}
-	_, err = io.ReadFull(reader, data)
+	_, err = io.ReadFull(conn, data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 74545d50d001fdad7e07eb677e68274d85450782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 33/49] fix: drop a connection that times out within a message

---
 common/pkg/fcrp2pserver/tcp_comms.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index f9e2cd8..13490b5 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -18,6 +18,7 @@ package fcrp2pserver
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -41,8 +42,12 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	}
 	// Read from the connection itself: a buffered reader made for this message would take, and lose,
 	// the beginning of the next one.
-	_, err := io.ReadFull(conn, length)
+	n, err := io.ReadFull(conn, length)
 	if err != nil {
+		if n > 0 && isTimeoutError(err) {
+			// Part of the message is read, so this connection can't be read from again.
+			return nil, errors.New("timeout within a message")
+		}
 		return nil, err
 	}
 	// Read the data
@@ -53,6 +58,9 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	}
 	_, err = io.ReadFull(conn, data)
 	if err != nil {
+		if isTimeoutError(err) {
+			return nil, errors.New("timeout within a message")
+		}
 		return nil, err
 	}
 	return fcrmessages.FCRMsgFromBytes(data)
-- 
2.43.0


From c34f87584b0cd2834277e40fdfdd87f5ad0cea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 34/49] fix: go on when closing a P2P connection fails

---
 common/pkg/fcrp2pserver/pool.go   | 8 ++++----
 common/pkg/fcrp2pserver/server.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..ea26063 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -95,7 +95,7 @@ func (c *communicationPool) getGatewayConn(id *nodeid.NodeID, accessFrom int) (*
 	} else {
 		comm = c.activeGateways[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeGatewaysLock.Unlock()
@@ -135,7 +135,7 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	} else {
 		comm = c.activeProviders[id.ToString()]
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 	}
 	c.activeProvidersLock.Unlock()
@@ -151,7 +151,7 @@ func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
 		comm.lock.Lock()
 		defer comm.lock.Unlock()
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 		delete(c.activeGateways, id.ToString())
 	}
@@ -166,7 +166,7 @@ func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
 		comm.lock.Lock()
 		defer comm.lock.Unlock()
 		if err := comm.conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P server has error closing connection: %s", err.Error())
 		}
 		delete(c.activeProviders, id.ToString())
 	}
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..71673ec 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -121,7 +121,7 @@ func (s *FCRP2PServer) handleIncomingConnection(conn net.Conn, handlers map[int3
 	// Close connection on exit.
 	defer func() {
 		if err := conn.Close(); err != nil {
-			panic(err)
+			logging.Error("P2P Server has error closing connection: %s", err.Error())
 		}
 	}()
 
-- 
2.43.0


From be760e9279c24508c523b42cdca47d67838e451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 35/49] fix: give no members for a negative number asked

---
 common/pkg/dhtring/dhtring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..c145328 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -231,7 +231,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (exclude != "" && r.size == 1) {
+	if num <= 0 || r.size == 0 || (exclude != "" && r.size == 1) {
 		return res, nil
 	}
 	// Consider exclusion
-- 
2.43.0


From 30906e9e499d24e2e595299227111fa173de1f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 36/49] fix: acknowledge no listed publication that has a bad
 offer

---
 .../api/gatewayapi/list_dht_offer_requester.go      | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..89af94a 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -109,13 +109,20 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 			logging.Error("Fail to decode message")
 			continue
 		}
-		// Verify the offers
+		// Verify the offers, a publication with one bad offer is refused as a whole
+		verified := true
 		for _, cidOffer := range cidOffers {
 			if cidOffer.Verify(pubKey) != nil {
 				logging.Error("Fail to verify the offer")
-				continue
+				verified = false
+				break
 			}
-			// Store the offer
+		}
+		if !verified {
+			continue
+		}
+		// Store the offers
+		for _, cidOffer := range cidOffers {
 			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
 				logging.Error("Fail to store the offer")
 				continue
-- 
2.43.0


From 60d691f019b8ccb74363ea2b4df52465e697c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 37/49] fix: record acknowledgements of listed offers without
 crashing

---
 .../internal/api/gatewayapi/list_dht_offer_handler.go  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..63128bc 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -127,6 +127,9 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	}
 
 	acknowledgements, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks)
+	if err != nil {
+		return err
+	}
 	if len(acknowledgements) != len(msgs) {
 		return errors.New("invalid response")
 	}
@@ -150,7 +153,12 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
-- 
2.43.0


From 33d1451bcfe440a10395da42b8499b035da0cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 38/49] fix: record the gateways that take group offers

---
 .../notify_group_cid_offer_supported.go       | 33 +++++++------------
 provider/internal/core/core.go                |  4 ++-
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 9624ece..319aefa 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -20,7 +20,6 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
-	"github.com/ConsenSys/fc-retrieval/common/pkg/slice"
 	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
 )
 
@@ -52,7 +51,9 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
-	updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Lock()
+	c.GroupOfferGatewayIDs = updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Unlock()
 
 	// Construct response
 	response, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
@@ -73,26 +74,16 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	return nil
 }
 
-// updateGatewaysSupportingGroupCIDOffer changes locally stored collection of Gateway IDs supporting Group CID Offer
-func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) {
-	exists, foundIndex, err := slice.Exists(savedGateways, gatewayID)
-	if err != nil {
-		logging.Error("Error while searching for existing gatewayID %v", gatewayID)
-	}
-
-	if groupCIDOfferSupported {
-		if !exists {
-			// add new
-			savedGateways = append(savedGateways, *gatewayID)
+// updateGatewaysSupportingGroupCIDOffer returns the collection of Gateway IDs supporting Group CID Offer, with the given gateway added or removed
+func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) []nodeid.NodeID {
+	gateways := make([]nodeid.NodeID, 0)
+	for _, saved := range savedGateways {
+		if saved.ToString() != gatewayID.ToString() {
+			gateways = append(gateways, saved)
 		}
-		return
 	}
-
-	// groupCIDOfferSupported == false
-	// Group CID Offer should NOT be supported for this Provider
-	if exists {
-		// remove existing
-		savedGateways[foundIndex] = savedGateways[len(savedGateways)-1]
-		savedGateways = savedGateways[:len(savedGateways)-1]
+	if groupCIDOfferSupported {
+		gateways = append(gateways, *gatewayID)
 	}
+	return gateways
 }
diff --git a/provider/internal/core/core.go b/provider/internal/core/core.go
index 42cd484..153c9fd 100644
--- a/provider/internal/core/core.go
+++ b/provider/internal/core/core.go
@@ -88,7 +88,8 @@ type Core struct {
 	AcknowledgementMapLock sync.RWMutex
 
 	// List of Gateways that allow group CID offer to be published
-	GroupOfferGatewayIDs []nodeid.NodeID
+	GroupOfferGatewayIDs     []nodeid.NodeID
+	GroupOfferGatewayIDsLock sync.Mutex
 }
 
 // Single instance of the provider
@@ -118,6 +119,7 @@ func GetSingleInstance(confs ...*settings.AppSettings) *Core {
 			AcknowledgementMap:        make(map[string]map[string]DHTAcknowledgement),
 			AcknowledgementMapLock:    sync.RWMutex{},
 			GroupOfferGatewayIDs:      []nodeid.NodeID{},
+			GroupOfferGatewayIDsLock:  sync.Mutex{},
 			PaymentMgr:                nil,
 		}
 	})
-- 
2.43.0


From c1f611ef964d36d7e2046bf4d269b4a99775c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 39/49] fix: refuse an offer that names no provider instead of
 crashing

---
 common/pkg/cidoffer/cidoffer.go    | 3 +++
 common/pkg/cidoffer/subcidoffer.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index cb0cf50..eaa6f61 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -158,6 +158,9 @@ func (c *CIDOffer) Sign(privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.KeyVersion
 
 // Verify is used to verify the offer with a given public key.
 func (c *CIDOffer) Verify(pubKey *fcrcrypto.KeyPair) error {
+	if c.providerID == nil {
+		return errors.New("Offer does not name a provider")
+	}
 	raw, err := c.MarshalToSign()
 	if err != nil {
 		return err
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 60735fb..bd3b60d 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -124,6 +124,9 @@ func (c *SubCIDOffer) HasExpired() bool {
 
 // Verify is used to verify the offer with a given public key.
 func (c *SubCIDOffer) Verify(pubKey *fcrcrypto.KeyPair) error {
+	if c.providerID == nil {
+		return errors.New("Offer does not name a provider")
+	}
 	raw, err := c.MarshalToSign()
 	if err != nil {
 		return err
-- 
2.43.0


From 543cbda2fe14cc58ee162ce0ce3ed374cb2f62ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 40/49] fix: store a copy of an offer added to the offer
 manager

---
 common/pkg/fcroffermgr/offer_storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index f9010dd..7b87257 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -70,6 +70,8 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		return errors.New("offers: Attempt to add an expired offer")
 	}
 
+	// Keep a copy: the caller may go on using its own.
+	stored := *newOffer
 	for _, contentID := range newOffer.GetCIDs() {
 		cidStr := contentID.ToString()
 		o.lock.RLock()
@@ -87,7 +89,7 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
-		digestMap.dMap[digest] = newOffer
+		digestMap.dMap[digest] = &stored
 		digestMap.lock.Unlock()
 	}
 	return nil
-- 
2.43.0


From fa16b00252502f0118db2cd0741920c8ce905b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 41/49] fix: lose no offer when two are added for a new
 identifier at once

---
 common/pkg/fcroffermgr/offer_storage.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index 7b87257..088967e 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -80,11 +80,14 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		if !exists {
 			// Need a new entry in cid map
 			o.lock.Lock()
-			digestMap = &digestOffer{
-				dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
-				lock: sync.RWMutex{},
+			digestMap, exists = o.cidMap[cidStr]
+			if !exists {
+				digestMap = &digestOffer{
+					dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
+					lock: sync.RWMutex{},
+				}
+				o.cidMap[cidStr] = digestMap
 			}
-			o.cidMap[cidStr] = digestMap
 			o.lock.Unlock()
 		}
 		// Add offer to digest map
-- 
2.43.0


From e04badbf4c33d48680c7256284483f6ccd9cee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 42/49] fix: do not crash when an offer expires while it is
 being added

---
 common/pkg/fcroffermgr/offer_storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index 088967e..79d56d2 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -128,8 +128,8 @@ func (o *offerStorage) get(cid *cid.ContentID) []cidoffer.CIDOffer {
 		for _, contentID := range offer.GetCIDs() {
 			digestMap, exists := o.cidMap[contentID.ToString()]
 			if !exists {
-				// Something is wrong
-				panic("Internal error: Try to remove cid offer that are not existed in cid map")
+				// The offer is still being added, it is removed when this identifier is looked up.
+				continue
 			}
 			digestMap.lock.Lock()
 			delete(digestMap.dMap, digest)
-- 
2.43.0


From d1a9c0fd2f30fb674c34490175924c8b2bf5170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 43/49] fix: refuse an expired offer that is still stored, and
 keep it off the ring

---
 common/pkg/fcroffermgr/offer_manager.go | 5 ++++-
 common/pkg/fcroffermgr/offer_storage.go | 7 +++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..a4cb25e 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -59,8 +59,11 @@ func (mgr *FCROfferMgr) AddDHTOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) != 1 {
 		return errors.New("not a DHT offer")
 	}
+	if err := mgr.dhtOffers.add(offer); err != nil {
+		return err
+	}
 	mgr.dhtOfferRing.Insert(offer.GetCIDs()[0].ToString())
-	return mgr.dhtOffers.add(offer)
+	return nil
 }
 
 // GetGroupOffers returns a list of group offers that contain the given cid
diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index 79d56d2..0e1af20 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -51,6 +51,9 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 	if len(testCIDs) == 0 {
 		return errors.New("this offer has no cid")
 	}
+	if newOffer.HasExpired() {
+		return errors.New("offers: Attempt to add an expired offer")
+	}
 	testCIDStr := testCIDs[0].ToString()
 	digest := newOffer.GetMessageDigest()
 	o.lock.RLock()
@@ -66,10 +69,6 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		}
 	}
 
-	if newOffer.HasExpired() {
-		return errors.New("offers: Attempt to add an expired offer")
-	}
-
 	// Keep a copy: the caller may go on using its own.
 	stored := *newOffer
 	for _, contentID := range newOffer.GetCIDs() {
-- 
2.43.0


From 9d62451cdc8d5a835b3aae879173a660155f295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 44/49] fix: find no expired offer by its digest, and group
 offers under their lock

---
 common/pkg/fcroffermgr/offer_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index a4cb25e..1659d0e 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -120,16 +120,18 @@ func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byt
 		digestAndOffer.lock.RLock()
 		result, exist = digestAndOffer.dMap[digest]
 		digestAndOffer.lock.RUnlock()
-		if exist {
+		if exist && !result.HasExpired() {
 			return result, true
 		}
 	}
 	// look in Group offers
+	mgr.groupOffers.lock.RLock()
+	defer mgr.groupOffers.lock.RUnlock()
 	for _, digestAndOffer := range mgr.groupOffers.cidMap {
 		digestAndOffer.lock.RLock()
 		result, exist = digestAndOffer.dMap[digest]
 		digestAndOffer.lock.RUnlock()
-		if exist {
+		if exist && !result.HasExpired() {
 			return result, true
 		}
 	}
-- 
2.43.0


From 1f9a5da90cfa8f71f02acd47de7a3f13bcfa6a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 45/49] fix: remove from a ring only the member named, and
 unlink a removed head

---
 common/pkg/dhtring/dhtring.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index c145328..0422e3e 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -152,8 +152,10 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.size == 1 {
-		r.head = nil
-		r.size = 0
+		if r.head.val == hex {
+			r.head = nil
+			r.size = 0
+		}
 		return
 	}
 	if r.size == 2 {
@@ -174,17 +176,16 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.head.val == hex {
-		oldHead := r.head
+		tail := r.head.prv
 		// first becomes the head
 		r.head = r.head.next
 		// tail links to the new head
-		oldHead.prv = r.head
+		tail.next = r.head
+		r.head.prv = tail
 		// update distances
-		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
+		tailToNewHeadDistance := getDist(tail.key, r.head.key)
 		r.head.distPrv = tailToNewHeadDistance
-		r.head.prv.distNext = tailToNewHeadDistance
-		// help GC
-		oldHead = nil
+		tail.distNext = tailToNewHeadDistance
 		r.size--
 		return
 	}
-- 
2.43.0


From 5f9e62b009e2ab30252ade51f3b7153d867c5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 46/49] fix: give all members of a ring when more are asked for

---
 common/pkg/dhtring/dhtring.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 0422e3e..81ed91c 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -232,7 +232,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num <= 0 || r.size == 0 || (exclude != "" && r.size == 1) {
+	if num <= 0 || r.size == 0 {
 		return res, nil
 	}
 	// Consider exclusion
@@ -243,10 +243,11 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 			defer r.Insert(exclude)
 		}
 	}
+	if r.size == 0 {
+		return res, nil
+	}
 	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
+		res = append(res, r.head.val)
 		current := r.head.next
 		for current != nil && current.val != r.head.val {
 			res = append(res, current.val)
-- 
2.43.0


From 1c24b51f500b6912e4e5e74a9ff61c2b536e07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 47/49] fix: give exactly the members within a range of a ring
 of any size

---
 common/pkg/dhtring/dhtring.go | 60 ++++++++++++-----------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 81ed91c..d1519d5 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -318,49 +318,29 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	var startNode *ringNode
-	var endNode *ringNode
-	addStart := false
-	addEnd := false
-	if temp := r.get(startHex); temp != nil {
-		startNode = temp
-		addStart = true
-	} else {
-		r.Insert(startHex)
-		startNode = r.get(startHex)
-		if startNode == nil {
-			return res, errors.New("internal error")
-		}
-		defer r.Remove(startHex)
+	if r.size == 0 {
+		return res, nil
 	}
-
-	if temp := r.get(endHex); temp != nil {
-		endNode = temp
-		addEnd = true
-	} else {
-		r.Insert(endHex)
-		endNode = r.get(endHex)
-		if endNode == nil {
-			return res, errors.New("internal error")
+	start, _ := new(big.Int).SetString(startHex, 16)
+	end, _ := new(big.Int).SetString(endHex, 16)
+	wraps := start.Cmp(end) > 0
+	// The members below the start of a range that wraps around come after the ones above it
+	wrapped := make([]string, 0)
+	current := r.head
+	for {
+		if current.key.Cmp(start) >= 0 {
+			if wraps || current.key.Cmp(end) <= 0 {
+				res = append(res, current.val)
+			}
+		} else if wraps && current.key.Cmp(end) <= 0 {
+			wrapped = append(wrapped, current.val)
+		}
+		current = current.next
+		if current == nil || current == r.head {
+			break
 		}
-		defer r.Remove(endHex)
-	}
-
-	if addStart {
-		res = append(res, startHex)
-	}
-
-	next := startNode.next
-	for next.val != endNode.val {
-		res = append(res, next.val)
-		next = next.next
-	}
-
-	if addEnd {
-		res = append(res, endHex)
 	}
-
-	return res, nil
+	return append(res, wrapped...), nil
 }
 
 // Size gets the size of the ring
-- 
2.43.0


From fada66b49b6f03cf162ecf57015de689b283deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 48/49] fix: tell members of a ring apart by value, whatever
 the case of their digits

---
 common/pkg/dhtring/dhtring.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index d1519d5..42ab108 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -151,22 +151,23 @@ func (r *Ring) Remove(hex string) {
 	if r.size == 0 {
 		return
 	}
+	hexKey, _ := new(big.Int).SetString(hex, 16)
 	if r.size == 1 {
-		if r.head.val == hex {
+		if r.head.key.Cmp(hexKey) == 0 {
 			r.head = nil
 			r.size = 0
 		}
 		return
 	}
 	if r.size == 2 {
-		if r.head.val == hex {
+		if r.head.key.Cmp(hexKey) == 0 {
 			r.head = r.head.next
 			r.head.next = nil
 			r.head.prv = nil
 			r.head.distPrv = big.NewInt(0)
 			r.head.distNext = big.NewInt(0)
 			r.size = 1
-		} else if r.head.next.val == hex {
+		} else if r.head.next.key.Cmp(hexKey) == 0 {
 			r.head.next = nil
 			r.head.prv = nil
 			r.head.distPrv = big.NewInt(0)
@@ -175,7 +176,7 @@ func (r *Ring) Remove(hex string) {
 		}
 		return
 	}
-	if r.head.val == hex {
+	if r.head.key.Cmp(hexKey) == 0 {
 		tail := r.head.prv
 		// first becomes the head
 		r.head = r.head.next
@@ -189,11 +190,10 @@ func (r *Ring) Remove(hex string) {
 		r.size--
 		return
 	}
-	hexKey, _ := new(big.Int).SetString(hex, 16)
 	current := r.head.next
 	for current != nil && current.val != r.head.val {
 		// Loop until we reach nil or we go back to head
-		if current.val == hex {
+		if current.key.Cmp(hexKey) == 0 {
 			// We need to remove current
 			prv := current.prv
 			next := current.next
@@ -258,9 +258,10 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	// Insert & Search & Remove
 	before := r.size
 	r.Insert(hex)
+	hexKey, _ := new(big.Int).SetString(hex, 16)
 	if r.size == before {
 		// This already exists
-		res = append(res, hex)
+		res = append(res, r.get(hex).val)
 		if num == 1 {
 			// Return immediately if only requires one
 			return res, nil
@@ -271,7 +272,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	// Now search
 	current := r.head
 	for ok := true; ok; ok = current.val != r.head.val {
-		if current.val == hex {
+		if current.key.Cmp(hexKey) == 0 {
 			// We found it
 			break
 		}
@@ -377,13 +378,14 @@ func (r *Ring) get(hex string) *ringNode {
 	if r.size == 0 {
 		return nil
 	}
-	if r.head.val == hex {
+	hexKey, _ := new(big.Int).SetString(hex, 16)
+	if r.head.key.Cmp(hexKey) == 0 {
 		return r.head
 	}
 	current := r.head.next
 	for current != nil && current.val != r.head.val {
 		// Loop until we reach nil or we go back to head
-		if current.val == hex {
+		if current.key.Cmp(hexKey) == 0 {
 			return current
 		}
 		current = current.next
-- 
2.43.0


From 44cc9af67940b56a894a482716af7690c6bacb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 49/49] fix: guard the ring against use by several threads at
 once

---
 common/pkg/dhtring/dhtring.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 42ab108..7cb2be7 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"math/big"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 )
@@ -42,6 +43,8 @@ type ringNode struct {
 type Ring struct {
 	head *ringNode
 	size int
+	// lock guards the ring: queries too change it for a while
+	lock sync.Mutex
 }
 
 // CreateRing creates a new ring data structure
@@ -54,6 +57,12 @@ func CreateRing() *Ring {
 
 // Insert inserts a hex string into the ring
 func (r *Ring) Insert(hex string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.insert(hex)
+}
+
+func (r *Ring) insert(hex string) {
 	if !validateInput(hex) {
 		logging.Error("Ring invalid hex: %v", hex)
 		return
@@ -144,6 +153,12 @@ func (r *Ring) Insert(hex string) {
 
 // Remove inserts a given hex string out of the ring
 func (r *Ring) Remove(hex string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.remove(hex)
+}
+
+func (r *Ring) remove(hex string) {
 	if !validateInput(hex) {
 		logging.Error("Ring invalid hex: %v", hex)
 		return
@@ -227,6 +242,8 @@ func (r *Ring) Remove(hex string) {
 
 // GetClosest gets the closest hexes close to the given hex
 func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	if !validateInput(hex) || (exclude != "" && !validateInput(exclude)) {
 		logging.Error("Ring invalid hex: %v %v", hex, exclude)
 		return nil, errors.New("invalid input")
@@ -237,10 +254,9 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	}
 	// Consider exclusion
 	if exclude != "" {
-		before := r.size
-		r.Remove(exclude)
-		if r.size != before {
-			defer r.Insert(exclude)
+		if node := r.get(exclude); node != nil {
+			r.remove(exclude)
+			defer r.insert(node.val)
 		}
 	}
 	if r.size == 0 {
@@ -257,7 +273,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	}
 	// Insert & Search & Remove
 	before := r.size
-	r.Insert(hex)
+	r.insert(hex)
 	hexKey, _ := new(big.Int).SetString(hex, 16)
 	if r.size == before {
 		// This already exists
@@ -267,7 +283,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 			return res, nil
 		}
 	} else {
-		defer r.Remove(hex)
+		defer r.remove(hex)
 	}
 	// Now search
 	current := r.head
@@ -314,6 +330,8 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 
 // GetWithinRange gets all entries within a range
 func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	if !validateInput(startHex) || !validateInput(endHex) {
 		logging.Error("Ring invalid hex: %v %v", startHex, endHex)
 		return nil, errors.New("invalid input")
@@ -346,6 +364,8 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 
 // Size gets the size of the ring
 func (r *Ring) Size() int {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	return r.size
 }
 
-- 
2.43.0

