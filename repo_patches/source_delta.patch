From 119160d16ec45135b63866ec7b5eb24d0661616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 01/88] fix: removing the first entry of a DHT ring left it
 linked from its neighbours

---
 common/pkg/dhtring/dhtring.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..47d301b 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -175,10 +175,12 @@ func (r *Ring) Remove(hex string) {
 	}
 	if r.head.val == hex {
 		oldHead := r.head
+		tail := oldHead.prv
 		// first becomes the head
 		r.head = r.head.next
 		// tail links to the new head
-		oldHead.prv = r.head
+		tail.next = r.head
+		r.head.prv = tail
 		// update distances
 		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
 		r.head.distPrv = tailToNewHeadDistance
-- 
2.43.0


From 6b379578db1651cc1ff2d4e2d10315685fe3d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 02/88] fix: removing an absent key from a DHT ring of one
 entry emptied the ring

---
 common/pkg/dhtring/dhtring.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 47d301b..64fb0ac 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -152,8 +152,10 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.size == 1 {
-		r.head = nil
-		r.size = 0
+		if r.head.val == hex {
+			r.head = nil
+			r.size = 0
+		}
 		return
 	}
 	if r.size == 2 {
-- 
2.43.0


From 1c97203fad370c0a1cfacd2ea2eed2f4502f22e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 03/88] fix: GetClosest ignored the only entry of a DHT ring
 when another key was excluded

---
 common/pkg/dhtring/dhtring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 64fb0ac..c8766f5 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -235,7 +235,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (exclude != "" && r.size == 1) {
+	if num == 0 || r.size == 0 || (r.size == 1 && r.head.val == exclude) {
 		return res, nil
 	}
 	// Consider exclusion
-- 
2.43.0


From f2bb14766f88afbb1c2ca26c530c7d2be86b696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 04/88] fix: GetClosest dropped the first entry of a DHT ring
 smaller than the number asked for

---
 common/pkg/dhtring/dhtring.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index c8766f5..569eba5 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -247,9 +247,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		}
 	}
 	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
+		res = append(res, r.head.val)
 		current := r.head.next
 		for current != nil && current.val != r.head.val {
 			res = append(res, current.val)
-- 
2.43.0


From e640757ce8b6104893bda73309496eb843ad5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 05/88] fix: GetWithinRange crashed or returned duplicates and
 absent keys when both bounds are equal

---
 common/pkg/dhtring/dhtring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 569eba5..8af301c 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -322,6 +322,13 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 	var endNode *ringNode
 	addStart := false
 	addEnd := false
+	if startHex == endHex {
+		// A single point, not a range
+		if r.get(startHex) != nil {
+			res = append(res, startHex)
+		}
+		return res, nil
+	}
 	if temp := r.get(startHex); temp != nil {
 		startNode = temp
 		addStart = true
-- 
2.43.0


From 22e2d104307d1ff80aa09f6c8ff49e0ddef42ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 06/88] fix: malformed identifiers in a received offer or
 message were accepted as nil ones, or crashed the decoder

---
 common/pkg/cid/cid.go                             | 11 +++++++----
 common/pkg/cidoffer/cidoffer.go                   | 11 +++++++++--
 common/pkg/cidoffer/subcidoffer.go                | 10 ++++++++--
 .../client_dht_discover_offer_request.go          | 11 +++++++++--
 .../client_dht_discover_offer_response.go         | 11 +++++++++--
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../client_dht_discover_response_v2.go            | 10 +++++++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 common/pkg/fcrmessages/gateway_ping_request.go    |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go | 11 +++++++++--
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_get_published_offer_request.go  |  6 +++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 .../provideradmin_publish_dht_offer_request.go    |  6 +++++-
 .../provideradmin_publish_group_offer_request.go  |  6 +++++-
 common/pkg/nodeid/nodeid.go                       | 11 +++++++----
 44 files changed, 243 insertions(+), 61 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..f2ef4b3 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -134,12 +134,15 @@ func MapCIDToString(cids []ContentID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+// MapStringToCID parses identifiers from their hex strings, it fails if any of them is malformed.
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
+		contentID, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *contentID
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..75c744f 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,16 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	cids, err := cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.cids = cids
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..60735fb 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..90acd21 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,6 +54,13 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..c262df3 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..5a09d9f 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..a6368b1 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -178,12 +178,15 @@ func MapNodeIDToString(cids []NodeID) []string {
 	return results
 }
 
-// Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+// MapStringToNodeID parses identifiers from their hex strings, it fails if any of them is malformed.
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
+		nodeID, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *nodeID
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From 94f851e90ceefbeac810f8e73615163a33df7fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 07/88] fix: a publish request without an offer was decoded
 into an offer that crashes its reader

---
 common/pkg/fcrmessages/provider_publish_group_offer_request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index 3496a4d..1085583 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -66,5 +66,8 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
+	if msg.Offer.GetProviderID() == nil {
+		return nil, 0, nil, errors.New("missing offer")
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
-- 
2.43.0


From 76b6471baed16744736b8319897c58c979157b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 08/88] fix: decoding an empty key crashed

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 4adbf66..e2b9163 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -63,6 +63,9 @@ func DecodePrivateKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) == 0 {
+		return nil, fmt.Errorf("empty key")
+	}
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
@@ -112,6 +115,9 @@ func DecodePublicKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) == 0 {
+		return nil, fmt.Errorf("empty key")
+	}
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
-- 
2.43.0


From d822ad6b73be58cb3288bb6b1275cdce87dfac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 09/88] fix: extracting the key version of a signature that is
 too short crashed

---
 common/pkg/fcrcrypto/msg_signing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..1ff101f 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -52,6 +52,9 @@ func ExtractKeyVersionFromMessage(signature string) (*KeyVersion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(sigBytes) < sigOfsKeyVersionEnd {
+		return nil, errors.New("signature is too short to hold a key version")
+	}
 	return DecodeKeyVersionFromBytes(sigBytes[sigOfsKeyVersionStart:sigOfsKeyVersionEnd])
 }
 
-- 
2.43.0


From 39558c0804806102bf34b8f2f7261fa3e7224a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 10/88] fix: concurrent users of one key pair raced on its
 derived public key

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 26 +++++++++++------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index e2b9163..1b728fe 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -95,16 +95,22 @@ func decodeSecP256K1PrivateKey(keyBytes []byte) (*KeyPair, error) {
 	return &key, nil
 }
 
+// rawPublicKey returns the public key, derived from the private key if need be. It does not
+// store what it derives: key pairs are shared between goroutines.
+func (k *KeyPair) rawPublicKey() []byte {
+	if k.pubKey == nil {
+		return secp256k1PublicKey(k.pKey)
+	}
+	return k.pubKey
+}
+
 // EncodePublicKey encodes the algorithm and public key as a hex string.
 func (k *KeyPair) EncodePublicKey() (string, error) {
 	if k.alg.IsNot(SigAlgEcdsaSecP256K1Blake2b) {
 		return "", fmt.Errorf("unsupported key algorithm: %d", k.alg.EncodeSigAlg())
 	}
-	if k.pubKey == nil {
-		k.pubKey = secp256k1PublicKey(k.pKey)
-	}
 	data := k.alg.EncodeSigAlgAsBytes()
-	all := append(data, k.pubKey...)
+	all := append(data, k.rawPublicKey()...)
 	return hex.EncodeToString(all), nil
 }
 
@@ -151,12 +157,8 @@ func (k *KeyPair) Verify(signature, toBeSigned []byte) (bool, error) {
 	if k.alg.IsNot(SigAlgEcdsaSecP256K1Blake2b) {
 		return false, fmt.Errorf("unsupported key algorithm: %d", k.alg.EncodeSigAlg())
 	}
-	if k.pubKey == nil {
-		k.pubKey = secp256k1PublicKey(k.pKey)
-	}
-
 	digest := RetrievalV1Hash(toBeSigned)
-	return secp256k1Verify(k.pubKey, digest, signature), nil
+	return secp256k1Verify(k.rawPublicKey(), digest, signature), nil
 }
 
 // RetrievalV1Verify verifies a signature across some data assuming algorithms
@@ -180,12 +182,8 @@ func (k *KeyPair) HashPublicKey() ([]byte, error) {
 		return nil, fmt.Errorf("unsupported key algorithm: %d", k.alg.EncodeSigAlg())
 	}
 
-	if k.pubKey == nil {
-		k.pubKey = secp256k1PublicKey(k.pKey)
-	}
-
 	data := k.alg.EncodeSigAlgAsBytes()
-	all := append(data, k.pubKey...)
+	all := append(data, k.rawPublicKey()...)
 
 	return RetrievalV1Hash(all), nil
 }
-- 
2.43.0


From 6e43f77a65568a831ef85e9e249155ad1f431382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 11/88] fix: concurrent users of the shared random number
 generators corrupted their state

---
 common/pkg/fcrcrypto/prng.go         |  6 ++++++
 common/pkg/fcrcrypto/prng_pool.go    | 12 ++++++++++++
 common/pkg/fcrcrypto/prng_private.go |  4 ++--
 common/pkg/fcrcrypto/prng_public.go  |  2 +-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrcrypto/prng.go b/common/pkg/fcrcrypto/prng.go
index 1f40490..85f46be 100644
--- a/common/pkg/fcrcrypto/prng.go
+++ b/common/pkg/fcrcrypto/prng.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"math/big"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/davidlazar/go-crypto/drbg"
@@ -46,6 +47,7 @@ type Random interface {
 
 // RandomImpl holds the underlying DRBG and the PRF state.
 type randomImpl struct {
+	lock       sync.Mutex // the instances below are shared between goroutines
 	drbg       *drbg.DRBG
 	prfHasher  hash.Hash
 	prfState   []byte
@@ -71,6 +73,8 @@ func NewPRNG(securityDomain []byte) Random {
 
 // ReadBytes reads random values into b
 func (r *randomImpl) ReadBytes(b []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	lengthPerIteration := len(r.prfState)
 	lenOutput := len(b)
 
@@ -115,6 +119,8 @@ func (r *randomImpl) Read(b []byte) (n int, err error) {
 
 // Reseed adds seed material to the PRNG.
 func (r *randomImpl) Reseed(seed []byte) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	r.drbg.Reseed(seed)
 
 	// Combine the current state of the PRF and the seed.
diff --git a/common/pkg/fcrcrypto/prng_pool.go b/common/pkg/fcrcrypto/prng_pool.go
index 5ac9f24..b6f40b9 100644
--- a/common/pkg/fcrcrypto/prng_pool.go
+++ b/common/pkg/fcrcrypto/prng_pool.go
@@ -15,8 +15,18 @@ package fcrcrypto
  * SPDX-License-Identifier: Apache-2.0
  */
 
+import "sync"
+
 // Array of PRNGs that will be reseeded by the global quick reseed.
 var prngPool []Random
+var prngPoolLock sync.Mutex
+
+// addToPRNGPool adds a PRNG to those reseeded by the global quick reseed.
+func addToPRNGPool(prng Random) {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
+	prngPool = append(prngPool, prng)
+}
 
 // PRNGEntropyKick is called when an application event occurs that an attacker
 // on a computer on the network can not observe. For example, when a message
@@ -24,6 +34,8 @@ var prngPool []Random
 // or even micro second when a message is serviced. However, they are unlikely
 // to know the timing down to the nearest nano second.
 func PRNGEntropyKick() {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
 	for _, prng := range prngPool {
 		prng.QuickReseedKick()
 	}
diff --git a/common/pkg/fcrcrypto/prng_private.go b/common/pkg/fcrcrypto/prng_private.go
index 2e2cb42..83e14be 100644
--- a/common/pkg/fcrcrypto/prng_private.go
+++ b/common/pkg/fcrcrypto/prng_private.go
@@ -39,7 +39,7 @@ var doOnce1 sync.Once
 func GetPrivatePRNG() Random {
 	doOnce1.Do(func() {
 		privatePRNG = NewPRNG([]byte("private"))
-		prngPool = append(prngPool, privatePRNG)
+		addToPRNGPool(privatePRNG)
 	})
 	return privatePRNG
 }
@@ -49,6 +49,6 @@ func GetPrivatePRNG() Random {
 // guarentee security domain separation.
 func NewPrivatePRNG(securityDomain []byte) Random {
 	aPRNG := NewPRNG(securityDomain)
-	prngPool = append(prngPool, aPRNG)
+	addToPRNGPool(aPRNG)
 	return aPRNG
 }
diff --git a/common/pkg/fcrcrypto/prng_public.go b/common/pkg/fcrcrypto/prng_public.go
index d1d265c..1b28871 100644
--- a/common/pkg/fcrcrypto/prng_public.go
+++ b/common/pkg/fcrcrypto/prng_public.go
@@ -36,7 +36,7 @@ var doOnce sync.Once
 func GetPublicPRNG() Random {
 	doOnce.Do(func() {
 		publicPRNG = NewPRNG([]byte("public"))
-		prngPool = append(prngPool, publicPRNG)
+		addToPRNGPool(publicPRNG)
 	})
 	return publicPRNG
 }
-- 
2.43.0


From 3eff5fa3c79cb451f74135c18ed362d9acaa78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 12/88] fix: verifying a merkle proof with fewer positions than
 hashes crashed

---
 common/pkg/fcrmerkletree/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..6d4304d 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -36,6 +36,9 @@ type FCRMerkleProof struct {
 
 // VerifyContent is used to verify a given content and a given root matches the proof.
 func (mp *FCRMerkleProof) VerifyContent(content merkletree.Content, root string) bool {
+	if len(mp.path) != len(mp.index) {
+		return false
+	}
 	currentHash, _ := content.CalculateHash()
 	for i, path := range mp.path {
 		hashFunc := sha256.New()
-- 
2.43.0


From b61c182114240aa262f09553033fb5cb97401c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 13/88] fix: a message lost its signature when it failed
 verification

---
 common/pkg/fcrmessages/fcrmessage.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/common/pkg/fcrmessages/fcrmessage.go b/common/pkg/fcrmessages/fcrmessage.go
index d7929d6..69398af 100644
--- a/common/pkg/fcrmessages/fcrmessage.go
+++ b/common/pkg/fcrmessages/fcrmessage.go
@@ -103,9 +103,7 @@ func (fcrMsg *FCRMessage) Sign(privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.Key
 
 // Verify is used to verify the offer with a given public key.
 func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
-	// Clear signature
 	sig := fcrMsg.signature
-	fcrMsg.signature = ""
 	raw, err := fcrMsg.MarshalToSign()
 	if err != nil {
 		return fmt.Errorf("failed to marshal message during verification, error: %s", err.Error())
@@ -117,8 +115,6 @@ func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
 	if !res {
 		return errors.New("message does not pass signature verification")
 	}
-	// Recover signature
-	fcrMsg.signature = sig
 	return nil
 }
 
-- 
2.43.0


From 7a5da9fa17e834d12cd9a5af6cb1284c9b5142b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 14/88] fix: a sub offer was generated for a CID that is not in
 the offer

---
 common/pkg/cidoffer/cidoffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 75c744f..afdd267 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -178,6 +178,9 @@ func (c *CIDOffer) GenerateSubCIDOffer(cid *cid.ContentID) (*SubCIDOffer, error)
 	if err != nil {
 		return nil, err
 	}
+	if !proof.VerifyContent(cid, c.merkleRoot) {
+		return nil, errors.New("Group CID Offer: the CID is not part of the offer")
+	}
 	return NewSubCIDOffer(c.providerID, cid, c.merkleRoot, proof, c.price, c.expiry, c.qos, c.signature), nil
 }
 
-- 
2.43.0


From b633e78488c9a1e467cd4169f579cf94db976ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 15/88] fix: a private key of zero or beyond the order of the
 curve was accepted and crashed its first use

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 3 +++
 common/pkg/fcrcrypto/secp256k1.go         | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 1b728fe..de91607 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -92,6 +92,9 @@ func decodeSecP256K1PrivateKey(keyBytes []byte) (*KeyPair, error) {
 	if len(key.pKey) != secp256k1PrivateKeyBytes {
 		return nil, fmt.Errorf("incorrect secp256k1 private key length: %d", len(key.pKey))
 	}
+	if !secp256k1IsPrivateKey(key.pKey) {
+		return nil, fmt.Errorf("secp256k1 private key is out of range")
+	}
 	return &key, nil
 }
 
diff --git a/common/pkg/fcrcrypto/secp256k1.go b/common/pkg/fcrcrypto/secp256k1.go
index 66fcc68..35d7842 100644
--- a/common/pkg/fcrcrypto/secp256k1.go
+++ b/common/pkg/fcrcrypto/secp256k1.go
@@ -20,6 +20,7 @@ import (
 	"crypto/ecdsa"
 	"crypto/elliptic"
 	"io"
+	"math/big"
 
 	"github.com/ipsn/go-secp256k1"
 )
@@ -38,6 +39,13 @@ const secp256k1PrivateKeyBytes = 32
 // PublicKeyBytes is the size of a serialized public key.
 const secp256k1PublicKeyBytes = 65
 
+// secp256k1IsPrivateKey returns true if the bytes are a number a private key can be: neither zero
+// nor beyond the order of the curve.
+func secp256k1IsPrivateKey(sk []byte) bool {
+	d := new(big.Int).SetBytes(sk)
+	return d.Sign() > 0 && d.Cmp(secp256k1.S256().Params().N) < 0
+}
+
 // PublicKey returns the public key for this private key.
 func secp256k1PublicKey(sk []byte) []byte {
 	x, y := secp256k1.S256().ScalarBaseMult(sk)
-- 
2.43.0


From efc1f0fe762ce80639ed5f1845fcbc24a04468ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 16/88] fix: a refused group offer support notification was
 decoded as acknowledged

---
 ...ateway_notify_provider_group_cid_offer_supported_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
index cc987cd..a25b7c5 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
@@ -48,5 +48,5 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg *FCRMessage)
 	if err != nil {
 		return false, err
 	}
-	return true, nil
+	return msg.Acknowledged, nil
 }
-- 
2.43.0


From aeb01c31c3dd875a1c363fb092374f7e522910b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 17/88] fix: the decoder of a ping response ignored its answer

---
 common/pkg/fcrmessages/gateway_ping_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrmessages/gateway_ping_response.go b/common/pkg/fcrmessages/gateway_ping_response.go
index 668d209..1562003 100644
--- a/common/pkg/fcrmessages/gateway_ping_response.go
+++ b/common/pkg/fcrmessages/gateway_ping_response.go
@@ -60,5 +60,5 @@ func DecodeGatewayPingResponse(fcrMsg *FCRMessage) (
 		return 0, false, err
 	}
 
-	return msg.Nonce, true, nil
+	return msg.Nonce, msg.IsAlive, nil
 }
-- 
2.43.0


From 8f4cb548915041de072c29d96cb6bbaa316e8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 18/88] fix: an offer with a very far expiry was taken for
 expired

---
 common/pkg/cidoffer/cidoffer.go    | 5 ++---
 common/pkg/cidoffer/subcidoffer.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index afdd267..1340d65 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -137,9 +137,8 @@ func (c *CIDOffer) SetSignature(s string) {
 
 // HasExpired returns true if the offer expiry date is in the past.
 func (c *CIDOffer) HasExpired() bool {
-	expiryTime := time.Unix(c.expiry, 0)
-	now := time.Now()
-	return expiryTime.Before(now)
+	// Compare seconds: the year of a far expiry does not fit into a time.Time
+	return c.expiry <= time.Now().Unix()
 }
 
 // Sign is used to sign the offer with a given private key and a key version.
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 60735fb..d65a4e8 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -117,9 +117,8 @@ func (c *SubCIDOffer) GetSignature() string {
 
 // HasExpired returns true if the offer expiry date is in the past.
 func (c *SubCIDOffer) HasExpired() bool {
-	expiryTime := time.Unix(c.expiry, 0)
-	now := time.Now()
-	return expiryTime.Before(now)
+	// Compare seconds: the year of a far expiry does not fit into a time.Time
+	return c.expiry <= time.Now().Unix()
 }
 
 // Verify is used to verify the offer with a given public key.
-- 
2.43.0


From a5bab380b62f5416825b92a2bc993177c775a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 19/88] fix: concurrent additions to the offer manager of
 providers lost offers, and expired offers were found by digest

---
 common/pkg/fcroffermgr/offer_manager.go | 31 ++++++++++---------------
 common/pkg/fcroffermgr/offer_storage.go | 24 ++++++++++++++-----
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..35eecc5 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -23,6 +23,7 @@ package fcroffermgr
 
 import (
 	"errors"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
@@ -34,7 +35,9 @@ import (
 type FCROfferMgr struct {
 	dhtOffers    *offerStorage
 	dhtOfferRing *dhtring.Ring
-	groupOffers  *offerStorage
+	// ringLock guards dhtOfferRing: range queries modify it, too
+	ringLock    sync.Mutex
+	groupOffers *offerStorage
 }
 
 // NewFCROfferMgr returns
@@ -59,7 +62,9 @@ func (mgr *FCROfferMgr) AddDHTOffer(offer *cidoffer.CIDOffer) error {
 	if len(offer.GetCIDs()) != 1 {
 		return errors.New("not a DHT offer")
 	}
+	mgr.ringLock.Lock()
 	mgr.dhtOfferRing.Insert(offer.GetCIDs()[0].ToString())
+	mgr.ringLock.Unlock()
 	return mgr.dhtOffers.add(offer)
 }
 
@@ -79,7 +84,9 @@ func (mgr *FCROfferMgr) GetDHTOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, b
 func (mgr *FCROfferMgr) GetDHTOffersWithinRange(cidMin, cidMax *cid.ContentID, maxOffers int) ([]cidoffer.CIDOffer, bool) {
 	offers := make([]cidoffer.CIDOffer, 0)
 
+	mgr.ringLock.Lock()
 	entries, err := mgr.dhtOfferRing.GetWithinRange(cidMin.ToString(), cidMax.ToString())
+	mgr.ringLock.Unlock()
 	if err != nil {
 		return offers, false
 	}
@@ -111,24 +118,10 @@ func (mgr *FCROfferMgr) GetOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool
 // GetOfferByDigest allows a gateway to be able to respond to a query to search for an offer by the offer digest
 func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (result *cidoffer.CIDOffer, exist bool) {
 	// first, look in DHT offers
-	mgr.dhtOffers.lock.RLock()
-	defer mgr.dhtOffers.lock.RUnlock()
-	for _, digestAndOffer := range mgr.dhtOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
+	result, exist = mgr.dhtOffers.getByDigest(digest)
+	if exist {
+		return result, true
 	}
 	// look in Group offers
-	for _, digestAndOffer := range mgr.groupOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
-	}
-	return nil, false
+	return mgr.groupOffers.getByDigest(digest)
 }
diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index f9010dd..de855a1 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -53,9 +53,10 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 	}
 	testCIDStr := testCIDs[0].ToString()
 	digest := newOffer.GetMessageDigest()
-	o.lock.RLock()
+	// Added as a whole: a concurrent addition must neither replace an entry made here nor see half of an offer
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	digestMap, exists := o.cidMap[testCIDStr]
-	o.lock.RUnlock()
 	if exists {
 		digestMap.lock.RLock()
 		_, exists = digestMap.dMap[digest]
@@ -72,18 +73,14 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 
 	for _, contentID := range newOffer.GetCIDs() {
 		cidStr := contentID.ToString()
-		o.lock.RLock()
 		digestMap, exists = o.cidMap[cidStr]
-		o.lock.RUnlock()
 		if !exists {
 			// Need a new entry in cid map
-			o.lock.Lock()
 			digestMap = &digestOffer{
 				dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
 				lock: sync.RWMutex{},
 			}
 			o.cidMap[cidStr] = digestMap
-			o.lock.Unlock()
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
@@ -136,3 +133,18 @@ func (o *offerStorage) get(cid *cid.ContentID) []cidoffer.CIDOffer {
 	o.lock.RUnlock()
 	return res
 }
+
+// getByDigest returns the offer of the given digest, if it is not yet expired.
+func (o *offerStorage) getByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool) {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	for _, digestAndOffer := range o.cidMap {
+		digestAndOffer.lock.RLock()
+		offer, exist := digestAndOffer.dMap[digest]
+		digestAndOffer.lock.RUnlock()
+		if exist && !offer.HasExpired() {
+			return offer, true
+		}
+	}
+	return nil, false
+}
-- 
2.43.0


From 7ea4c1db29b562132f0275fcd2ece0b3c5530b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 20/88] fix: an offer interrupted while being stored by a
 gateway was served with some of its CIDs

---
 common/pkg/offermgr/offer_manager.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index dbd8eca..11f4837 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -89,7 +89,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 		where not exists (select 1 from content where content_no = ? and digest = ?)`
 	digestArr := offer.GetMessageDigest()
 	digestHex := hex.EncodeToString(digestArr[:])
-	_, err = mgr.db.Exec(sqlInsertOffer, digestHex,
+	// An offer is stored with all of its CIDs or not at all
+	tx, err := mgr.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
 		offer.GetPrice(),
@@ -100,10 +106,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 	}
 	i := 0
 	for _, contentID := range offer.GetCIDs() {
-		_, err = mgr.db.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		_, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		if err != nil {
+			return err
+		}
 		i++
 	}
-	return err
+	return tx.Commit()
 }
 
 // selectOffersSingle retrieves offers by a CID
-- 
2.43.0


From f1b2a60ff13bff96007a50af25017e50f87eab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 21/88] fix: expiry of stored offers depended on the local time
 zone, and far expiries were taken for expired

---
 common/pkg/offermgr/offer_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 11f4837..1e6d3d2 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -121,7 +121,7 @@ func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CID
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o join content c on o.digest=c.digest 
 		where c.content_id=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
 }
@@ -133,7 +133,7 @@ func (mgr *FCROfferMgr) selectOffersRange(maxOffers int, cidMin *cid.ContentID,
 		from offer o, (select distinct digest from content 
 				where content_id>=? and content_id<=?) c
 		where o.digest=c.digest
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString())
 }
@@ -144,7 +144,7 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o
 		where o.digest=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))
 	if !exist {
-- 
2.43.0


From 8f34ee4886d3198527e0d9470e478352acd32437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 22/88] fix: a stored offer that lists a CID twice was returned
 twice

---
 common/pkg/offermgr/offer_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 1e6d3d2..7686116 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -119,8 +119,8 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CIDOffer, find bool) {
 	sqlSelectOffer :=
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
-		from offer o join content c on o.digest=c.digest 
-		where c.content_id=?
+		from offer o
+		where o.digest in (select digest from content where content_id=?)
 		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
-- 
2.43.0


From f7c45ab7f9392e5512be6e6361c3eaab02d78eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 23/88] fix: looking up stored offers left database connections
 open and crashed when a query failed

---
 common/pkg/offermgr/offer_manager.go | 50 +++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 7686116..ff1ba58 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -159,6 +159,7 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 	if err != nil {
 		return
 	}
+	defer offerRows.Close()
 	var cnt int
 	sqlSelectContent := `select content_id from content where digest=? order by content_no`
 	for offerRows.Next() {
@@ -166,22 +167,25 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 		var expiry int64
 		var price, qos uint64
 		var signature string
-		offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature)
-		providerID, _ := nodeid.NewNodeIDFromHexString(providerHex)
-
-		cidRows, _ := mgr.db.Query(sqlSelectContent, digestHex)
-		cids := []cid.ContentID{}
-		for cidRows.Next() {
-			var aCidStr string
-			cidRows.Scan(&aCidStr)
-			aCid, _ := cid.NewContentIDFromHexString(aCidStr)
-			cids = append(cids, *aCid)
-			find = true
+		if err := offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature); err != nil {
+			continue
+		}
+		providerID, err := nodeid.NewNodeIDFromHexString(providerHex)
+		if err != nil {
+			continue
+		}
+		cids, err := mgr.selectContent(sqlSelectContent, digestHex)
+		if err != nil {
+			continue
 		}
 
-		offer, _ := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
+		offer, err := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
+		if err != nil {
+			continue
+		}
 		offer.SetSignature(signature)
 		res = append(res, *offer)
+		find = true
 		cnt++
 		if cnt >= maxOffers && maxOffers > 0 {
 			break
@@ -189,3 +193,25 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 	}
 	return
 }
+
+// selectContent retrieves the CIDs of an offer
+func (mgr *FCROfferMgr) selectContent(sqlSelectContent string, digestHex string) ([]cid.ContentID, error) {
+	cidRows, err := mgr.db.Query(sqlSelectContent, digestHex)
+	if err != nil {
+		return nil, err
+	}
+	defer cidRows.Close()
+	cids := []cid.ContentID{}
+	for cidRows.Next() {
+		var aCidStr string
+		if err := cidRows.Scan(&aCidStr); err != nil {
+			return nil, err
+		}
+		aCid, err := cid.NewContentIDFromHexString(aCidStr)
+		if err != nil {
+			return nil, err
+		}
+		cids = append(cids, *aCid)
+	}
+	return cids, cidRows.Err()
+}
-- 
2.43.0


From e7c44665afea89d616c721c851653e7f60388427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 24/88] fix: messages sent back to back or slowly over a TCP
 connection were lost or misread, and a claimed length took memory

---
 common/pkg/fcrp2pserver/tcp_comms.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..2b50e9e 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -18,6 +18,7 @@ package fcrp2pserver
 import (
 	"bufio"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"net"
 	"time"
@@ -33,27 +34,34 @@ func isTimeoutError(err error) bool {
 
 // readTCPMessage read the tcp message from a given connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
+	// Read from the connection itself: a buffered reader takes bytes of the next message with it
 	// Read the length
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err := io.ReadFull(reader, length)
+	n, err := io.ReadFull(conn, length)
 	if err != nil {
+		if n > 0 {
+			// The rest of this message would be taken for the next one
+			return nil, fmt.Errorf("incomplete message: %s", err.Error())
+		}
 		return nil, err
 	}
 	// Read the data
-	data := make([]byte, int(binary.BigEndian.Uint32(length)))
+	size := int64(binary.BigEndian.Uint32(length))
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err = io.ReadFull(reader, data)
+	// Memory is taken as data arrives, the length is only a claim
+	data, err := io.ReadAll(io.LimitReader(conn, size))
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("incomplete message: %s", err.Error())
+	}
+	if int64(len(data)) < size {
+		return nil, io.ErrUnexpectedEOF
 	}
 	return fcrmessages.FCRMsgFromBytes(data)
 }
-- 
2.43.0


From 0cb2bfa9a6ed0547257136d23210a0af5c0b397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 25/88] fix: a failed request over a shared TCP connection
 crashed or corrupted the requests that waited for it, and closed its
 replacement

---
 common/pkg/fcrp2pserver/pool.go   | 26 +++------
 common/pkg/fcrp2pserver/server.go | 92 +++++++++++++++++--------------
 2 files changed, 59 insertions(+), 59 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..db816fd 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -43,6 +43,8 @@ const (
 type communicationChannel struct {
 	lock sync.RWMutex
 	conn net.Conn
+	// closed is set once conn must not be used anymore, guarded by lock
+	closed bool
 }
 
 // communicationPool holds the node address map and active node connections.
@@ -142,32 +144,20 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	return comm, nil
 }
 
-// removeActiveGateway remove a given gateway, and close the connection.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
+// removeActiveGateway removes a connection to a given gateway, unless it has been replaced already.
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeGatewaysLock.Lock()
 	defer c.activeGatewaysLock.Unlock()
-	comm := c.activeGateways[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
-		}
+	if c.activeGateways[id.ToString()] == comm {
 		delete(c.activeGateways, id.ToString())
 	}
 }
 
-// removeActiveProvider remove a given provider, and close the connection.
-func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
+// removeActiveProvider removes a connection to a given provider, unless it has been replaced already.
+func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID, comm *communicationChannel) {
 	c.activeProvidersLock.Lock()
 	defer c.activeProvidersLock.Unlock()
-	comm := c.activeProviders[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
-		}
+	if c.activeProviders[id.ToString()] == comm {
 		delete(c.activeProviders, id.ToString())
 	}
 }
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..6417cdf 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -169,23 +169,17 @@ func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int3
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getGatewayConn(id, accessFromGateway)
-	if err != nil {
-		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
-	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
-	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
-		return nil, err
+	for {
+		comm, err := s.pool.getGatewayConn(id, accessFromGateway)
+		if err != nil {
+			logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
+			return nil, err
+		}
+		response, used, err := comm.request(requester, args, func() { s.pool.removeActiveGateway(id, comm) })
+		if used {
+			return response, err
+		}
 	}
-	return response, err
 }
 
 // RequestGatewayFromProvider uses a given requester to send a request to a given gateway from provider.
@@ -197,23 +191,17 @@ func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getGatewayConn(id, accessFromProvider)
-	if err != nil {
-		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
-	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
-	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
-		return nil, err
+	for {
+		comm, err := s.pool.getGatewayConn(id, accessFromProvider)
+		if err != nil {
+			logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
+			return nil, err
+		}
+		response, used, err := comm.request(requester, args, func() { s.pool.removeActiveGateway(id, comm) })
+		if used {
+			return response, err
+		}
 	}
-	return response, err
 }
 
 // RequestProvider uses a given requester to send a request to a given provider. (Only possible from gateway)
@@ -225,21 +213,43 @@ func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ..
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getProviderConn(id)
-	if err != nil {
-		logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
+	for {
+		comm, err := s.pool.getProviderConn(id)
+		if err != nil {
+			logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
+			return nil, err
+		}
+		response, used, err := comm.request(requester, args, func() { s.pool.removeActiveProvider(id, comm) })
+		if used {
+			return response, err
+		}
 	}
+}
+
+// request calls the requester with exclusive use of the connection. If there is an error the connection is closed before
+// anyone else gets hold of it: a late response must not be taken for the response of the next request.
+// It does nothing but to return used as false, if the connection has been closed in the meantime.
+func (comm *communicationChannel) request(
+	requester func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error),
+	args []interface{},
+	remove func()) (response *fcrmessages.FCRMessage, used bool, err error) {
 	comm.lock.Lock()
+	defer comm.lock.Unlock()
+	if comm.closed {
+		return nil, false, nil
+	}
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
+	response, err = requester(reader, writer, args...)
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveProvider(id)
-		return nil, err
+		comm.closed = true
+		remove()
+		if closeErr := comm.conn.Close(); closeErr != nil {
+			logging.Error("P2P Server has error closing connection: %s", closeErr.Error())
+		}
+		return nil, true, err
 	}
-	return response, err
+	return response, true, nil
 }
-- 
2.43.0


From a979ff77eb84f04729f7b58917ce5d59fa774405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 26/88] fix: looking up an unknown provider left the map of
 providers locked, which blocked every later refresh

---
 common/pkg/fcrregistermgr/register_manager.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..a483a26 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -201,18 +201,13 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		return nil
 	}
 	mgr.registeredProvidersMapLock.RLock()
+	defer mgr.registeredProvidersMapLock.RUnlock()
 	provider, ok := mgr.registeredProvidersMap[id.ToString()]
 	if !ok {
-		mgr.registeredProvidersMapLock.RUnlock()
 		// TODO: Do we call refresh here, if can't find a provider?
 		// mgr.Refresh()
-		mgr.registeredProvidersMapLock.RLock()
-		provider, ok = mgr.registeredProvidersMap[id.ToString()]
-		if !ok {
-			return nil
-		}
+		return nil
 	}
-	defer mgr.registeredProvidersMapLock.RUnlock()
 	return provider
 }
 
-- 
2.43.0


From 8542532f5ed7027d9248465ac8f9dfb5d478fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 27/88] fix: concurrent searches for gateways near a CID
 corrupted the ring of gateways, and the CID range of a gateway could deadlock

---
 common/pkg/fcrregistermgr/register_manager.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index a483a26..57203df 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -291,9 +291,6 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
@@ -322,8 +319,9 @@ func (mgr *FCRRegisterMgr) GetGatewaysNearCID(cID *cid.ContentID, numDHT int, no
 	if numDHT > 16 {
 		numDHT = 16
 	}
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
+	// The ring is modified while it is searched
+	mgr.closestGatewaysIDsLock.Lock()
+	defer mgr.closestGatewaysIDsLock.Unlock()
 	mgr.registeredGatewaysMapLock.RLock()
 	defer mgr.registeredGatewaysMapLock.RUnlock()
 
-- 
2.43.0


From 9569f08b651f1a633bb547dafa35fa2d4e69af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 28/88] fix: an empty entry in the list of the register crashed
 a node

---
 common/pkg/fcrregistermgr/register_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 57203df..26fcb62 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -261,6 +261,9 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 	var result []register.GatewayRegistrar
 	for _, g := range gateways {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewGatewayRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoProvider, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
@@ -284,6 +287,9 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 	}
 	var result []register.ProviderRegistrar
 	for _, g := range providers {
+		if g == nil {
+			continue
+		}
 		result = append(result, register.NewProviderRegister(g.NodeID, g.Address, g.RootSigningKey, g.SigningKey, g.RegionCode, g.NetworkInfoGateway, g.NetworkInfoClient, g.NetworkInfoAdmin))
 	}
 	return result
-- 
2.43.0


From 731fbb48f68771de5d3ba84af774a691c07b0679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 29/88] fix: concurrent refreshes of the register view returned
 before the refresh, or hung during a shutdown

---
 common/pkg/fcrregistermgr/register_manager.go | 54 ++++++++++++++-----
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 26fcb62..7c2a556 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -38,7 +38,11 @@ import (
 // FCRRegisterMgr Register Manager manages the internal storage of registered nodes.
 type FCRRegisterMgr struct {
 	// Boolean indicates if the manager has started
-	start bool
+	start     bool
+	startLock sync.RWMutex
+
+	// controlLock allows one refresh, start or shutdown at a time: each waits for the answer of the threads
+	controlLock sync.Mutex
 
 	// API for the register
 	registerAPI string
@@ -98,12 +102,28 @@ func NewFCRRegisterMgr(registerAPI string, providerDiscv bool, gatewayDiscv bool
 	return res
 }
 
+// started tells if the manager has started
+func (mgr *FCRRegisterMgr) started() bool {
+	mgr.startLock.RLock()
+	defer mgr.startLock.RUnlock()
+	return mgr.start
+}
+
+// setStarted notes if the manager has started
+func (mgr *FCRRegisterMgr) setStarted(start bool) {
+	mgr.startLock.Lock()
+	defer mgr.startLock.Unlock()
+	mgr.start = start
+}
+
 // Start starts a thread to auto update the internal map every given duration.
 func (mgr *FCRRegisterMgr) Start() error {
-	if mgr.start {
+	mgr.controlLock.Lock()
+	defer mgr.controlLock.Unlock()
+	if mgr.started() {
 		return errors.New("manager has already started")
 	}
-	mgr.start = true
+	mgr.setStarted(true)
 	if mgr.gatewayDiscv {
 		go mgr.updateGateways()
 	}
@@ -115,7 +135,9 @@ func (mgr *FCRRegisterMgr) Start() error {
 
 // Shutdown will shutdown the register manager.
 func (mgr *FCRRegisterMgr) Shutdown() {
-	if !mgr.start {
+	mgr.controlLock.Lock()
+	defer mgr.controlLock.Unlock()
+	if !mgr.started() {
 		return
 	}
 	if mgr.gatewayDiscv {
@@ -124,13 +146,15 @@ func (mgr *FCRRegisterMgr) Shutdown() {
 	if mgr.providerDiscv {
 		mgr.providerShutdownCh <- true
 	}
-	mgr.start = false
+	mgr.setStarted(false)
 }
 
 // ShutdownAndWait stop the register manager
 // Initiates register manager blocking shutdown (waiting for all parties before return)
 func (mgr *FCRRegisterMgr) ShutdownAndWait() {
-	if !mgr.start {
+	mgr.controlLock.Lock()
+	defer mgr.controlLock.Unlock()
+	if !mgr.started() {
 		return
 	}
 	if mgr.gatewayDiscv {
@@ -143,12 +167,14 @@ func (mgr *FCRRegisterMgr) ShutdownAndWait() {
 		// stop the main loop
 		mgr.providerShutdownCh <- true
 	}
-	mgr.start = false
+	mgr.setStarted(false)
 }
 
 // Refresh refreshes the internal map immediately.
 func (mgr *FCRRegisterMgr) Refresh() {
-	if !mgr.start {
+	mgr.controlLock.Lock()
+	defer mgr.controlLock.Unlock()
+	if !mgr.started() {
 		return
 	}
 	if mgr.gatewayDiscv {
@@ -175,7 +201,7 @@ func (mgr *FCRRegisterMgr) RegisterProvider(providerRegistrar register.ProviderR
 
 // GetGateway returns a gateway register if found.
 func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method GetGateway called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -196,7 +222,7 @@ func (mgr *FCRRegisterMgr) GetGateway(id *nodeid.NodeID) register.GatewayRegistr
 
 // GetProvider returns a provider register if found.
 func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		logging.Error("method GetProvider called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -213,7 +239,7 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 
 // GetAllGateways returns  all discovered gateways.
 func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method GetAllGateways called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -228,7 +254,7 @@ func (mgr *FCRRegisterMgr) GetAllGateways() []register.GatewayRegistrar {
 
 // GetAllProviders returns  all discovered providers.
 func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		logging.Error("method GetAllProviders called, Register Manager is not started or provider discovery is not enabled")
 		return nil
 	}
@@ -243,7 +269,7 @@ func (mgr *FCRRegisterMgr) GetAllProviders() []register.ProviderRegistrar {
 
 // pullGatewaysFromRegisterSrv calls remote service to synchronize discovered Gateway nodes
 func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegistrar {
-	if !mgr.start || !mgr.gatewayDiscv {
+	if !mgr.started() || !mgr.gatewayDiscv {
 		logging.Error("method pullGatewaysFromRegisterSrv called, Register Manager is not started or gateway discovery is not enabled")
 		return nil
 	}
@@ -271,7 +297,7 @@ func (mgr *FCRRegisterMgr) pullGatewaysFromRegisterSrv() []register.GatewayRegis
 
 // pullProvidersFromRegisterSrv calls remote service to synchronize discovered Provider nodes
 func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderRegistrar {
-	if !mgr.start || !mgr.providerDiscv {
+	if !mgr.started() || !mgr.providerDiscv {
 		return nil
 	}
 	url := mgr.registerAPI + "/registers/provider/"
-- 
2.43.0


From 5416648f8d142cb3e5dbecc587882cf9e43280f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 30/88] fix: gateways of before a shutdown stayed in the DHT
 ring, which made every search fail after a restart

---
 common/pkg/fcrregistermgr/register_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 7c2a556..1056d37 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -492,6 +492,9 @@ func (mgr *FCRRegisterMgr) shutdownGateways() {
 	mgr.registeredGatewaysMapLock.Lock()
 	mgr.registeredGatewaysMap = make(map[string]register.GatewayRegistrar)
 	mgr.registeredGatewaysMapLock.Unlock()
+	mgr.closestGatewaysIDsLock.Lock()
+	mgr.closestGatewaysIDs = dhtring.CreateRing()
+	mgr.closestGatewaysIDsLock.Unlock()
 	mgr.removeAllGatewaysFromRegisterSrv()
 }
 
-- 
2.43.0


From ef043b674a59b8c2fdb9f33237de00b0e335bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 31/88] fix: a REST server that could not listen reported a
 successful start

---
 common/pkg/fcrrestserver/server.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrrestserver/server.go b/common/pkg/fcrrestserver/server.go
index 9a3f808..31c3c61 100644
--- a/common/pkg/fcrrestserver/server.go
+++ b/common/pkg/fcrrestserver/server.go
@@ -21,6 +21,7 @@ package fcrrestserver
 import (
 	"errors"
 	"io/ioutil"
+	"net"
 	"net/http"
 
 	"github.com/ant0ine/go-json-rest/rest"
@@ -73,8 +74,13 @@ func (s *FCRRESTServer) Start() error {
 		return errors.New("server already started")
 	}
 	for _, listenAddr := range s.listenAddrs {
+		// Listen here: a port that cannot be used is an error of the start
+		ln, err := net.Listen("tcp", ":"+listenAddr)
+		if err != nil {
+			return err
+		}
 		errChan := make(chan bool)
-		go func(addr string, errChan chan bool) {
+		go func(ln net.Listener, addr string, errChan chan bool) {
 			api := rest.NewApi()
 			api.Use(rest.DefaultDevStack...)
 			router, err := rest.MakeRouter(
@@ -89,8 +95,8 @@ func (s *FCRRESTServer) Start() error {
 			}
 			api.SetApp(router)
 			errChan <- false
-			logging.Error(http.ListenAndServe(":"+addr, api.MakeHandler()).Error())
-		}(listenAddr, errChan)
+			logging.Error(http.Serve(ln, api.MakeHandler()).Error())
+		}(ln, listenAddr, errChan)
 		if <-errChan {
 			return errors.New("fail to start REST Server")
 		}
-- 
2.43.0


From 9a017ad5a8fb9bb8ca21db3db079d121910f90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 32/88] fix: a registration the register refused was taken for
 successful

---
 common/pkg/request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 6e2c209..a0f5c8f 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -92,6 +92,9 @@ func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	if err := r.Body.Close(); err != nil {
 		return err
 	}
+	if r.StatusCode >= http.StatusBadRequest {
+		return fmt.Errorf("SendJSON receive error code: %s", r.Status)
+	}
 	return nil
 }
 
-- 
2.43.0


From bdb178689f4d913ee2b3940c5c4537b287472b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 33/88] fix: refused HTTP requests left their connections open

---
 common/pkg/request/request.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index a0f5c8f..00d0819 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -63,14 +63,12 @@ func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer r.Body.Close()
 	result, readErr := ioutil.ReadAll(r.Body)
 	if readErr != nil {
 		return nil, fmt.Errorf("can't read from JSON response, error: %s", readErr.Error())
 	}
 
-	if closeErr := r.Body.Close(); closeErr != nil {
-		return nil, closeErr
-	}
 	return result, nil
 }
 
@@ -117,9 +115,10 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 		return nil, err
 	}
 
+	defer r.Body.Close()
 	bodyBytes, err := ioutil.ReadAll(r.Body)
 	if err != nil {
-		return &data, err
+		return nil, err
 	}
 
 	if r.StatusCode != 200 {
@@ -130,9 +129,6 @@ func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessa
 	if err := json.Unmarshal(bodyBytes, &data); err != nil {
 		return nil, errors.New("SendMessage error, can't unmarshal request body")
 	}
-	if err := r.Body.Close(); err != nil {
-		return &data, errors.New("SendMessage error, can't close request body")
-	}
 	logging.Debug("SendMessage - received response type: %d; HTTP status code: %d", data.GetMessageType(), r.StatusCode)
 	return &data, nil
 }
@@ -149,6 +145,7 @@ func (c *HttpCommunicator) Delete(url string) error {
 	if err != nil {
 		return err
 	}
+	defer r.Body.Close()
 	if r.StatusCode != http.StatusOK {
 		return fmt.Errorf("can't delete, got http status: %d", r.StatusCode)
 	}
-- 
2.43.0


From 2d7a26f7f2a8a3161ae66c0a7a31d68096c9ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 34/88] fix: the addresses of a REST server raced on setting up
 their shared middleware

---
 common/pkg/fcrrestserver/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrrestserver/server.go b/common/pkg/fcrrestserver/server.go
index 31c3c61..cdf35cf 100644
--- a/common/pkg/fcrrestserver/server.go
+++ b/common/pkg/fcrrestserver/server.go
@@ -94,8 +94,10 @@ func (s *FCRRESTServer) Start() error {
 				return
 			}
 			api.SetApp(router)
+			// The stack is shared by all addresses and must not be set up by two of them at once
+			handler := api.MakeHandler()
 			errChan <- false
-			logging.Error(http.Serve(ln, api.MakeHandler()).Error())
+			logging.Error(http.Serve(ln, handler).Error())
 		}(ln, listenAddr, errChan)
 		if <-errChan {
 			return errors.New("fail to start REST Server")
-- 
2.43.0


From 9f2b43049911adebff7ff0adddf08ee0b2b29a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:26 +0000
Subject: [PATCH 35/88] fix: topping up a payment channel again changed the
 amount of the first top up, which belongs to the caller

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..ca24e69 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -165,13 +165,15 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 			return errors.New("error unmarshal receipt")
 		}
 		// Create new channel
-		mgr.outboundChs[recipient] = &channelState{
+		cs = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
 		}
+		// The amount belongs to the caller, the balance needs a copy
+		cs.balance.Set(amount)
+		mgr.outboundChs[recipient] = cs
 	} else {
 		logging.Debug("debug Topup, recipient is known")
 		// No need to create a channel
-- 
2.43.0


From d6f287b1dc9f90b81956d49efe246407bbce63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 36/88] fix: concurrent top ups lost a payment channel, or
 failed because they numbered their messages alike

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 49 +++++++++++++--------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index ca24e69..e7856e5 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -57,6 +57,9 @@ type FCRPaymentMgr struct {
 	authToken    string
 	lotusAPIAddr string
 
+	// Messages are numbered: the next one can only be numbered once the last one is sent
+	msgLock sync.Mutex
+
 	// Channel states.
 	// map[recipient addr] -> channel state
 	outboundChs     map[string]*channelState
@@ -130,27 +133,27 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	// Get channel state
 	mgr.outboundChsLock.RLock()
 	cs, ok := mgr.outboundChs[recipient]
-	if !ok {
-		logging.Debug("debug Topup, recipient is new")
-		// Need to create a channel
+	if ok {
+		defer mgr.outboundChsLock.RUnlock()
+	} else {
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
 		defer mgr.outboundChsLock.Unlock()
+		// Another top up may have created the channel in between
+		cs, ok = mgr.outboundChs[recipient]
+	}
+	if !ok {
+		logging.Debug("debug Topup, recipient is new")
+		// Need to create a channel
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
 		if err != nil {
 			logging.Debug("error in Topup Create %s", err.Error())
 			return err
 		}
-		signedMsg, err := fillMsg(mgr.privKey, api, msg)
-		if err != nil {
-			logging.Debug("error in Topup fillMsg: %s", err.Error())
-			return err
-		}
 		// Send request to lotus
-		contentID, err := api.MpoolPush(context.Background(), signedMsg)
+		contentID, err := mgr.sendMsg(api, msg)
 		if err != nil {
-			logging.Debug("error in Topup MpoolPush: %s", err.Error())
 			return err
 		}
 		receipt := waitReceipt(&contentID, api)
@@ -177,7 +180,6 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 	} else {
 		logging.Debug("debug Topup, recipient is known")
 		// No need to create a channel
-		defer mgr.outboundChsLock.RUnlock()
 		cs.lock.Lock()
 		defer cs.lock.Unlock()
 		// Top up msg
@@ -187,15 +189,9 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 			Value:  lotusbig.NewFromGo(amount),
 			Method: 0,
 		}
-		signedMsg, err := fillMsg(mgr.privKey, api, msg)
-		if err != nil {
-			logging.Debug("error in Topup fillMsg: %s", err.Error())
-			return err
-		}
 		// Send request to lotus
-		contentID, err := api.MpoolPush(context.Background(), signedMsg)
+		contentID, err := mgr.sendMsg(api, msg)
 		if err != nil {
-			logging.Debug("error in Topup MpoolPush: %s", err.Error())
 			return err
 		}
 		receipt := waitReceipt(&contentID, api)
@@ -419,6 +415,23 @@ func encodedVoucher(sv *paych.SignedVoucher) (string, error) {
 	return base64.RawURLEncoding.EncodeToString(buf.Bytes()), nil
 }
 
+// sendMsg will number, fill, sign and send a given message
+func (mgr *FCRPaymentMgr) sendMsg(api *apistruct.FullNodeStruct, msg *types.Message) (cid.Cid, error) {
+	mgr.msgLock.Lock()
+	defer mgr.msgLock.Unlock()
+	signedMsg, err := fillMsg(mgr.privKey, api, msg)
+	if err != nil {
+		logging.Debug("error in Topup fillMsg: %s", err.Error())
+		return cid.Undef, err
+	}
+	contentID, err := api.MpoolPush(context.Background(), signedMsg)
+	if err != nil {
+		logging.Debug("error in Topup MpoolPush: %s", err.Error())
+		return cid.Undef, err
+	}
+	return contentID, nil
+}
+
 // fillMsg will fill the gas and sign a given message
 func fillMsg(privKey []byte, api *apistruct.FullNodeStruct, msg *types.Message) (*types.SignedMessage, error) {
 	//TODO: pass context to here?
-- 
2.43.0


From 62d7a004edc31717da165ba9c1e35d06f585f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 37/88] fix: paying a negative amount let vouchers exceed the
 payment channel

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index e7856e5..d57573b 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -207,6 +207,10 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 // Pay will generate a voucher and pay the recipient a given amount.
 // Return channel address, voucher, true if needs to top up, and error.
 func (mgr *FCRPaymentMgr) Pay(recipient string, lane uint64, amount *big.Int) (string, string, bool, error) {
+	if amount.Sign() < 0 {
+		// Earlier vouchers cannot be taken back
+		return "", "", false, errors.New("cannot pay a negative amount")
+	}
 	zero, err := types.ParseFIL("0")
 	if err != nil {
 		return "", "", false, err
-- 
2.43.0


From 461164dfddb381779eae78a6b57355e510e9c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 38/88] fix: vouchers of another channel, or submitted again
 under another form of the channel's address, were credited

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index d57573b..b88192a 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -284,11 +284,20 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, err
 	}
+	if channelAddr.Protocol() != address.Actor {
+		return nil, errors.New("receive voucher method failed, not the address of a payment channel")
+	}
+	// A channel is one channel, however its address is written
+	channel = channelAddr.String()
 	// Decode voucher
 	sv, err := paych.DecodeSignedVoucher(voucher)
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	// The chain does not redeem vouchers of another channel
+	if sv.ChannelAddr != channelAddr {
+		return nil, fmt.Errorf("receive voucher method failed, voucher is for channel %s", sv.ChannelAddr.String())
+	}
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From 69a415b91d64eb96ee89baa1ca54de32800a21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 39/88] fix: vouchers that cannot be redeemed, or not for their
 full amount, were credited

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index b88192a..79121ca 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -294,6 +294,10 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	// Vouchers with conditions may never be redeemed, those with merges are worth less than they say
+	if sv.TimeLockMin != 0 || sv.TimeLockMax != 0 || len(sv.SecretPreimage) != 0 || sv.Extra != nil || len(sv.Merges) != 0 {
+		return nil, errors.New("receive voucher method failed, voucher has conditions")
+	}
 	// The chain does not redeem vouchers of another channel
 	if sv.ChannelAddr != channelAddr {
 		return nil, fmt.Errorf("receive voucher method failed, voucher is for channel %s", sv.ChannelAddr.String())
-- 
2.43.0


From cc9573f3af8177dea226efce2ff14df43f3d0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 40/88] fix: a voucher for an address that is not a payment
 channel crashed the receiver

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 79121ca..d463460 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -319,6 +319,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if !ok {
 		return nil, errors.New("receive voucher method failed, not a paych state")
 	}
+	stateTo, okTo := paychState["To"].(string)
+	stateFrom, okFrom := paychState["From"].(string)
+	if !okTo || !okFrom {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
 
 	// Get channel state from local storage
 	mgr.inboundChsLock.RLock()
@@ -351,7 +356,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	to, err := address.NewFromString(stateTo)
 	if err != nil {
 		return nil, err
 	}
@@ -364,7 +369,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	f, err := address.NewFromString(stateFrom)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e4cf160e04d3ec61a6faa3331db90f1b2dedcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 41/88] fix: concurrent vouchers of a new channel were credited
 twice, and one that overlapped a top up was refused

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index d463460..002ec59 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -328,11 +328,17 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	// Get channel state from local storage
 	mgr.inboundChsLock.RLock()
 	cs, ok := mgr.inboundChs[channel]
-	if !ok {
-		// Need to create a entry in local storage
+	if ok {
+		defer mgr.inboundChsLock.RUnlock()
+	} else {
 		mgr.inboundChsLock.RUnlock()
 		mgr.inboundChsLock.Lock()
 		defer mgr.inboundChsLock.Unlock()
+		// Another voucher may have created the entry in between
+		cs, ok = mgr.inboundChs[channel]
+	}
+	if !ok {
+		// Need to create a entry in local storage
 		cs = &channelState{
 			addr:       channelAddr,
 			balance:    *state.Balance.Int,
@@ -343,9 +349,15 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		mgr.inboundChs[channel] = cs
 	} else {
 		// Need to update the channel state
-		defer mgr.inboundChsLock.RUnlock()
 		cs.lock.Lock()
 		defer cs.lock.Unlock()
+		if cs.balance.Cmp(state.Balance.Int) > 0 {
+			// The channel may have been topped up since its state was read
+			state, err = api.StateReadState(context.Background(), channelAddr, types.EmptyTSK)
+			if err != nil {
+				return nil, fmt.Errorf("receive voucher method failed, error reading state: %s", err.Error())
+			}
+		}
 		if cs.balance.Cmp(state.Balance.Int) > 0 {
 			// No possible to happen
 			return nil, errors.New("on chain state has smaller balance than local chain state")
-- 
2.43.0


From 7b4e01a7bb07b07c23018f3f659e703e0a5468d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 42/88] fix: creating a payment manager crashed the process
 when another one was in use

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 002ec59..a98af54 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -88,10 +88,13 @@ type laneState struct {
 	vouchers []string
 }
 
+// registerOnce guards the registration of the signature algorithm, which changes a shared map
+var registerOnce sync.Once
+
 // NewFCRPaymentMgr creates a new payment manager.
 func NewFCRPaymentMgr(privateKey, lotusAPIAddr, authToken string) (*FCRPaymentMgr, error) {
 	// Register algorithm for signing and verification
-	sigs.RegisterSignature(crypto2.SigTypeSecp256k1, SecpSigner{})
+	registerOnce.Do(func() { sigs.RegisterSignature(crypto2.SigTypeSecp256k1, SecpSigner{}) })
 	// Get private key and address
 	privKey, err := hex.DecodeString(privateKey)
 	if err != nil {
-- 
2.43.0


From 9b6d05311b579e4736fd4839bfdb0472c8ff45b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 43/88] fix: a search for a negative number of closest members
 crashed

---
 common/pkg/dhtring/dhtring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 8af301c..7c141b4 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -235,7 +235,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (r.size == 1 && r.head.val == exclude) {
+	if num <= 0 || r.size == 0 || (r.size == 1 && r.head.val == exclude) {
 		return res, nil
 	}
 	// Consider exclusion
-- 
2.43.0


From 61e3d754732ddd39c90f8054e3b6f03bbe6dd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 44/88] fix: a client that paid too little for a DHT discovery
 was served at the expense of the gateway

---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go    | 1 +
 gateway/internal/api/clientapi/dht_discover_offer_handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
-- 
2.43.0


From 299ea3af5d6af8ad46f8dbe8629c0fe4838208bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 45/88] fix: after a top up a gateway paid the search price for
 the offers of another gateway

---
 .../internal/api/clientapi/dht_discover_offer_handler.go  | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..c05a39b 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -77,13 +77,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 			return
 		}
 		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
 				s := "Fail to pay recipient."
 				logging.Error(s + err.Error())
-- 
2.43.0


From a594fba506b5e1754646085a796c2dbafc1ee19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 46/88] fix: a DHT offer request naming an unregistered gateway
 crashed the handler after it was paid

---
 gateway/internal/api/clientapi/dht_discover_offer_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index c05a39b..d28a9ff 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -67,6 +67,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	for idx, targetGatewayID := range targetGatewayIDs {
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Info("Uncontactable: gateway %v is not registered", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
-- 
2.43.0


From cc34259d3dca46a09dd478c0585a04ec59b614d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 47/88] fix: a DHT offer request with fewer lists of digests
 than gateways crashed the handler after it was paid

---
 .../internal/api/clientapi/dht_discover_offer_handler.go   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index d28a9ff..afaea49 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -40,6 +40,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if len(targetGatewayIDs) != len(allGatewaysOfferDigests) {
+		s := "The number of gateways differs from the number of lists of offer digests."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	// Check amount
 	amount, err := c.PaymentMgr.Receive(paymentChannel, voucher)
 	if err != nil {
-- 
2.43.0


From 504586512be94a3694bef274e57557a6e8aec1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 48/88] fix: every DHT offer request changed the price of an
 offer

---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..2a80eb5 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -62,7 +62,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
 	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
 	fundedPaymentChannel := make([]bool, len(offerDigests))
-- 
2.43.0


From 9bd479288defa575231f8dcd5f72f9f633d4761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 49/88] fix: a DHT offer request for an unknown digest crashed
 the gateway, and one for another CID got an unusable answer

---
 .../api/gatewayapi/dht_discover_offer_handler.go  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 2a80eb5..0ccaf71 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -64,22 +64,25 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	lenOffers := big.NewInt(int64(len(offerDigests)))
 	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
+	subOffers := make([]cidoffer.SubCIDOffer, 0, len(offerDigests))
+	fundedPaymentChannel := make([]bool, 0, len(offerDigests))
 
-	for i, digest := range offerDigests {
+	for _, digest := range offerDigests {
 		d := cidoffer.DecodeMessageDigest(digest)
 		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
+		if !exist {
+			continue
+		}
 
 		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 		if err != nil {
 			continue
 		}
 
-		subOffers[i] = *cidOffer
+		subOffers = append(subOffers, *cidOffer)
+		fundedPaymentChannel = append(fundedPaymentChannel, exist)
 	}
+	found := len(subOffers) > 0
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
-- 
2.43.0


From 05bcd0b1c580e628ad7bb35bd2035ea565789ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 50/88] fix: a gateway that paid too little got the offers
 nevertheless

---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 0ccaf71..eac4a56 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -87,7 +87,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From cc610800e3905400adfc87bb48dbdba623876a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 51/88] fix: a gateway that paid too little for a search got
 its results nevertheless

---
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..2b6a782 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -81,7 +81,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
-- 
2.43.0


From adb08c4e091b9cd951107980c90fbd1212a9e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 52/88] fix: an offer request for an unknown digest crashed the
 handler after it was paid, and one for another CID got an unusable answer

---
 .../clientapi/standard_discover_offer_handler.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..62401fc 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,23 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
-		found := false
+		subOffers := make([]cidoffer.SubCIDOffer, 0, len(offerDigests))
+		fundedPaymentChannel := make([]bool, 0, len(offerDigests))
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, exist)
 		}
+		found := len(subOffers) > 0
 
 		// Construct response
 		response, err = fcrmessages.EncodeClientStandardDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From 1d4ea43029e505aa1586c6f484dd38019260ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 53/88] fix: a refused publication stored the offers before the
 one it was refused for

---
 .../api/providerapi/publish_dht_offer_handler.go         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..a526620 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -57,13 +57,16 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 	}
 
 	// Verify the offer one by one
-	for _, offer := range offers {
-		if offer.Verify(pubKey) != nil {
+	for i := range offers {
+		if offers[i].Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
+	}
 
-		if c.OffersMgr.AddDHTOffer(&offer) != nil {
+	// Store the offers
+	for i := range offers {
+		if c.OffersMgr.AddDHTOffer(&offers[i]) != nil {
 			logging.Error("Internal error in adding single cid offer.")
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
-- 
2.43.0


From c5f41adf1f8040077e90f0af6630be4e89c2aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 54/88] fix: a provider could publish offers in the name of
 another provider

---
 gateway/internal/api/providerapi/publish_dht_offer_handler.go   | 2 +-
 gateway/internal/api/providerapi/publish_group_offer_handler.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index a526620..71275da 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -58,7 +58,7 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 
 	// Verify the offer one by one
 	for i := range offers {
-		if offers[i].Verify(pubKey) != nil {
+		if offers[i].GetProviderID().ToString() != providerID.ToString() || offers[i].Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 		}
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 016016a..459f58a 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -54,7 +54,7 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	}
 
 	// Verify the offer
-	if offer.Verify(pubKey) != nil {
+	if offer.GetProviderID().ToString() != providerID.ToString() || offer.Verify(pubKey) != nil {
 		logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
-- 
2.43.0


From 993fac57b5417523f80dc7dc4ddb1662a75f1fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 55/88] fix: a gateway acknowledged offers of a list that it
 had refused, and took those of other providers

---
 .../api/gatewayapi/list_dht_offer_requester.go     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..ce8d16f 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -110,17 +110,25 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 			continue
 		}
 		// Verify the offers
-		for _, cidOffer := range cidOffers {
-			if cidOffer.Verify(pubKey) != nil {
+		stored := true
+		for i := range cidOffers {
+			cidOffer := &cidOffers[i]
+			if cidOffer.GetProviderID().ToString() != providerID.ToString() || cidOffer.Verify(pubKey) != nil {
 				logging.Error("Fail to verify the offer")
+				stored = false
 				continue
 			}
 			// Store the offer
-			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
+			if c.OffersMgr.AddDHTOffer(cidOffer) != nil {
 				logging.Error("Fail to store the offer")
+				stored = false
 				continue
 			}
 		}
+		if !stored {
+			// Acknowledges the whole message, so not this one
+			continue
+		}
 
 		// Sign the offer message
 		sig, err := fcrcrypto.SignMessage(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion, cidOfferMsg.GetMessageBody())
-- 
2.43.0


From 1deb5e5429f0cb21a8c98ac2f26be8bd067249df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 56/88] fix: acknowledgements of listed offers were not signed,
 so that clients refused them

---
 gateway/internal/api/gatewayapi/list_dht_offer_requester.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index ce8d16f..df45954 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -139,6 +139,9 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 		if err != nil {
 			return nil, err
 		}
+		if cidOfferMsgAck.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion) != nil {
+			return nil, errors.New("error in signing the acknowledgement of an offer message")
+		}
 		cidOfferMsgAcks = append(cidOfferMsgAcks, *cidOfferMsgAck)
 	}
 	ack, err := fcrmessages.EncodeGatewayListDHTOfferAck(cidOfferMsgAcks)
-- 
2.43.0


From aac80ea6a96f7f5958f49164670f6003f36efd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 57/88] fix: requests to a node that was not initialised, had
 no wallet or was being initialised crashed it or raced

---
 .../api/adminapi/force_refresh_handler.go     |  2 +-
 .../adminapi/get_client_reputation_handler.go |  2 +-
 .../api/adminapi/initialise_key_handler.go    |  6 ++--
 .../api/adminapi/initialise_key_handler_v2.go |  8 ++---
 .../api/adminapi/list_dht_offer_handler.go    |  2 +-
 .../adminapi/set_client_reputation_handler.go |  2 +-
 .../api/adminapi/set_group_cid_support.go     |  7 +++++
 .../api/clientapi/dht_discover_handler.go     |  7 +++++
 .../api/clientapi/dht_discover_handler_v2.go  |  7 +++++
 .../clientapi/dht_discover_offer_handler.go   |  7 +++++
 .../api/clientapi/establishment_handler.go    |  7 +++++
 .../clientapi/standard_discover_handler.go    |  7 +++++
 .../clientapi/standard_discover_handler_v2.go |  7 +++++
 .../standard_discover_offer_handler.go        |  7 +++++
 .../api/gatewayapi/dht_discover_handler.go    |  4 +++
 .../api/gatewayapi/dht_discover_handler_v2.go |  4 +++
 .../gatewayapi/dht_discover_offer_handler.go  |  4 +++
 .../providerapi/publish_dht_offer_handler.go  |  4 +++
 .../publish_group_offer_handler.go            |  4 +++
 gateway/internal/core/core.go                 | 29 +++++++++++++++++++
 .../api/adminapi/force_refresh_handler.go     |  2 +-
 .../adminapi/get_published_offer_handler.go   |  2 +-
 .../api/adminapi/initialise_key_handler.go    |  6 ++--
 .../api/adminapi/initialise_key_handler_v2.go |  8 ++---
 .../api/adminapi/publish_dht_offer_handler.go |  2 +-
 .../adminapi/publish_group_offer_handler.go   |  2 +-
 .../api/clientapi/dht_offer_ack_handler.go    |  7 +++++
 .../api/gatewayapi/list_dht_offer_handler.go  |  4 +++
 .../notify_group_cid_offer_supported.go       |  4 +++
 provider/internal/core/core.go                | 22 ++++++++++++++
 30 files changed, 160 insertions(+), 26 deletions(-)

diff --git a/gateway/internal/api/adminapi/force_refresh_handler.go b/gateway/internal/api/adminapi/force_refresh_handler.go
index 444db4a..c8bab66 100644
--- a/gateway/internal/api/adminapi/force_refresh_handler.go
+++ b/gateway/internal/api/adminapi/force_refresh_handler.go
@@ -36,7 +36,7 @@ func HandleGatewayAdminForceRefreshRequest(w rest.ResponseWriter, request *fcrme
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.GatewayPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This gateway hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/gateway/internal/api/adminapi/get_client_reputation_handler.go b/gateway/internal/api/adminapi/get_client_reputation_handler.go
index 46ff530..97ea8d0 100644
--- a/gateway/internal/api/adminapi/get_client_reputation_handler.go
+++ b/gateway/internal/api/adminapi/get_client_reputation_handler.go
@@ -30,7 +30,7 @@ func HandleGatewayAdminGetReputationRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.GatewayPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This gateway hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/gateway/internal/api/adminapi/initialise_key_handler.go b/gateway/internal/api/adminapi/initialise_key_handler.go
index 0fcee61..c3abb16 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler.go
@@ -38,9 +38,7 @@ func HandleGatewayAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcrm
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
+	c.Initialise(nodeID, privKey, privKeyVer, nil)
 
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
@@ -52,7 +50,7 @@ func HandleGatewayAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcrm
 	}
 
 	// Sign message
-	err = response.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion)
+	err = response.Sign(privKey, privKeyVer)
 	if err != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + err.Error())
diff --git a/gateway/internal/api/adminapi/initialise_key_handler_v2.go b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
index 22e3eeb..0556862 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,16 +39,14 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusBadRequest)
 		return
 	}
+	c.Initialise(nodeID, privKey, privKeyVer, paymentMgr)
 
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
@@ -60,7 +58,7 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 	}
 
 	// Sign message
-	err = response.Sign(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion)
+	err = response.Sign(privKey, privKeyVer)
 	if err != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + err.Error())
diff --git a/gateway/internal/api/adminapi/list_dht_offer_handler.go b/gateway/internal/api/adminapi/list_dht_offer_handler.go
index 74ec335..30f025c 100644
--- a/gateway/internal/api/adminapi/list_dht_offer_handler.go
+++ b/gateway/internal/api/adminapi/list_dht_offer_handler.go
@@ -32,7 +32,7 @@ func HandleGatewayAdminListDHTOffersRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.GatewayPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This gateway hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/gateway/internal/api/adminapi/set_client_reputation_handler.go b/gateway/internal/api/adminapi/set_client_reputation_handler.go
index 8fce17f..c04519f 100644
--- a/gateway/internal/api/adminapi/set_client_reputation_handler.go
+++ b/gateway/internal/api/adminapi/set_client_reputation_handler.go
@@ -30,7 +30,7 @@ func HandleGatewayAdminSetReputationRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.GatewayPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This gateway hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index f9f0382..cd266d5 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -31,6 +31,13 @@ import (
 // HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest handles updating state of the Gateway, namely if it supports group CID offers
 func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
 	c := core.GetSingleInstance()
+
+	if !c.Initialised() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
 	_, providerIDs, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_handler.go b/gateway/internal/api/clientapi/dht_discover_handler.go
index 00f2989..5059495 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler.go
@@ -37,6 +37,13 @@ func HandleClientDHTCIDDiscoverRequest(w rest.ResponseWriter, request *fcrmessag
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.Initialised() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, _, _, err := fcrmessages.DecodeClientDHTDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 159801d..45b54d8 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -36,6 +36,13 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.AcceptsPayments() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, ttl, numDHT, _, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientDHTDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index afaea49..d7ceea4 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -32,6 +32,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.AcceptsPayments() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, nonce, allGatewaysOfferDigests, targetGatewayIDs, paymentChannel, voucher, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/establishment_handler.go b/gateway/internal/api/clientapi/establishment_handler.go
index ff9fb13..ebc6538 100644
--- a/gateway/internal/api/clientapi/establishment_handler.go
+++ b/gateway/internal/api/clientapi/establishment_handler.go
@@ -31,6 +31,13 @@ func HandleClientEstablishmentRequest(w rest.ResponseWriter, request *fcrmessage
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.Initialised() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	clientID, challenge, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler.go b/gateway/internal/api/clientapi/standard_discover_handler.go
index cf1613d..085ef70 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler.go
@@ -33,6 +33,13 @@ func HandleClientStandardCIDDiscoverRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.Initialised() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeClientStandardDiscoverRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_handler_v2.go b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
index 1fd911f..9a4adb3 100644
--- a/gateway/internal/api/clientapi/standard_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/standard_discover_handler_v2.go
@@ -32,6 +32,13 @@ func HandleClientStandardCIDDiscoverRequestV2(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.AcceptsPayments() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverRequestV2(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index 62401fc..636a9da 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -33,6 +33,13 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.AcceptsPayments() {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(writer, s, http.StatusBadRequest)
+		return
+	}
+
 	pieceCID, nonce, ttl, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler.go b/gateway/internal/api/gatewayapi/dht_discover_handler.go
index 3d00290..46a937c 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler.go
@@ -34,6 +34,10 @@ import (
 func HandleGatewayDHTDiscoverRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) error {
 	// Get the core structure
 	c := core.GetSingleInstance()
+	if !c.Initialised() {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 
 	gatewayID, pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(request)
 	if err != nil {
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 2b6a782..af32b58 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -29,6 +29,10 @@ import (
 func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) error {
 	// Get the core structure
 	c := core.GetSingleInstance()
+	if !c.AcceptsPayments() {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 
 	gatewayID, pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(request)
 	if err != nil {
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index eac4a56..b0bf465 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -29,6 +29,10 @@ import (
 func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) error {
 	// Get the core structure
 	c := core.GetSingleInstance()
+	if !c.AcceptsPayments() {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 
 	// TODO, Need to have an id
 	pieceCID, nonce, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(request)
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 71275da..76a3b81 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -32,6 +32,10 @@ import (
 func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) error {
 	// Get the core structure
 	c := core.GetSingleInstance()
+	if !c.Initialised() {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 
 	providerID, nonce, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
 	if err != nil {
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 459f58a..2e00716 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -28,6 +28,10 @@ import (
 func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) error {
 	// Get the core structure
 	c := core.GetSingleInstance()
+	if !c.Initialised() {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 
 	// TODO Add nonce, it looks like nonce is not needed
 	providerID, _, offer, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(request)
diff --git a/gateway/internal/core/core.go b/gateway/internal/core/core.go
index 728e66d..4f4ea30 100644
--- a/gateway/internal/core/core.go
+++ b/gateway/internal/core/core.go
@@ -78,6 +78,9 @@ type Core struct {
 	// PaymentMgr manages all payment related activities
 	PaymentMgr *fcrpaymentmgr.FCRPaymentMgr
 
+	// identityLock orders the initialisation by the admin and the requests that need it
+	identityLock sync.RWMutex
+
 	// RegistrationBlockHash is the hash of the block that registers this gateway
 	// RegistrationTransactionReceipt is the transaction receipt containing the registration event
 	// RegistrationMerkleRoot is the root of the merkle trie containing the transaction receipt
@@ -139,3 +142,29 @@ func GetSingleInstance(confs ...*settings.AppSettings) *Core {
 	})
 	return instance
 }
+
+// Initialise sets the identity of this gateway, and its payment manager if there is one.
+func (c *Core) Initialise(id *nodeid.NodeID, key *fcrcrypto.KeyPair, keyVersion *fcrcrypto.KeyVersion, paymentMgr *fcrpaymentmgr.FCRPaymentMgr) {
+	c.identityLock.Lock()
+	defer c.identityLock.Unlock()
+	c.GatewayID = id
+	c.GatewayPrivateKey = key
+	c.GatewayPrivateKeyVersion = keyVersion
+	if paymentMgr != nil {
+		c.PaymentMgr = paymentMgr
+	}
+}
+
+// Initialised tells whether the admin has initialised this gateway.
+func (c *Core) Initialised() bool {
+	c.identityLock.RLock()
+	defer c.identityLock.RUnlock()
+	return c.GatewayPrivateKey != nil
+}
+
+// AcceptsPayments tells whether the admin has initialised this gateway with a wallet.
+func (c *Core) AcceptsPayments() bool {
+	c.identityLock.RLock()
+	defer c.identityLock.RUnlock()
+	return c.GatewayPrivateKey != nil && c.PaymentMgr != nil
+}
diff --git a/provider/internal/api/adminapi/force_refresh_handler.go b/provider/internal/api/adminapi/force_refresh_handler.go
index da0c0b3..f8a5f98 100644
--- a/provider/internal/api/adminapi/force_refresh_handler.go
+++ b/provider/internal/api/adminapi/force_refresh_handler.go
@@ -35,7 +35,7 @@ func HandleProviderAdminForceRefreshRequest(w rest.ResponseWriter, request *fcrm
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.ProviderPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This provider hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/provider/internal/api/adminapi/get_published_offer_handler.go b/provider/internal/api/adminapi/get_published_offer_handler.go
index 62a39a7..e113b46 100644
--- a/provider/internal/api/adminapi/get_published_offer_handler.go
+++ b/provider/internal/api/adminapi/get_published_offer_handler.go
@@ -31,7 +31,7 @@ func HandleProviderAdminGetPublishedOfferRequest(w rest.ResponseWriter, request
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.ProviderPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This provider hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/provider/internal/api/adminapi/initialise_key_handler.go b/provider/internal/api/adminapi/initialise_key_handler.go
index 88eb471..8e2a6bb 100644
--- a/provider/internal/api/adminapi/initialise_key_handler.go
+++ b/provider/internal/api/adminapi/initialise_key_handler.go
@@ -38,9 +38,7 @@ func HandleProviderAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcr
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
+	c.Initialise(nodeID, privKey, privKeyVer, nil)
 
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
@@ -52,7 +50,7 @@ func HandleProviderAdminInitialiseKeyRequest(w rest.ResponseWriter, request *fcr
 	}
 
 	// Sign message
-	if signErr := response.Sign(c.ProviderPrivateKey, c.ProviderPrivateKeyVersion); signErr != nil {
+	if signErr := response.Sign(privKey, privKeyVer); signErr != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + signErr.Error())
 		rest.Error(w, s, http.StatusInternalServerError)
diff --git a/provider/internal/api/adminapi/initialise_key_handler_v2.go b/provider/internal/api/adminapi/initialise_key_handler_v2.go
index 37831b1..cabc496 100644
--- a/provider/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/provider/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,16 +39,14 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
 		rest.Error(w, s, http.StatusBadRequest)
 		return
 	}
+	c.Initialise(nodeID, privKey, privKeyVer, paymentMgr)
 
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
@@ -60,7 +58,7 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 	}
 
 	// Sign message
-	if signErr := response.Sign(c.ProviderPrivateKey, c.ProviderPrivateKeyVersion); signErr != nil {
+	if signErr := response.Sign(privKey, privKeyVer); signErr != nil {
 		s := "Internal error: Fail to sign message."
 		logging.Error(s + signErr.Error())
 		rest.Error(w, s, http.StatusInternalServerError)
diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 33d94ca..766cae6 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -33,7 +33,7 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.ProviderPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This provider hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/provider/internal/api/adminapi/publish_group_offer_handler.go b/provider/internal/api/adminapi/publish_group_offer_handler.go
index bd73ca5..feda867 100644
--- a/provider/internal/api/adminapi/publish_group_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_group_offer_handler.go
@@ -32,7 +32,7 @@ func HandleProviderAdminPublishGroupOfferRequest(w rest.ResponseWriter, request
 	// Get core structure
 	c := core.GetSingleInstance()
 
-	if c.ProviderPrivateKey == nil {
+	if !c.Initialised() {
 		s := "This provider hasn't been initialised by the admin"
 		logging.Error(s)
 		rest.Error(w, s, http.StatusBadRequest)
diff --git a/provider/internal/api/clientapi/dht_offer_ack_handler.go b/provider/internal/api/clientapi/dht_offer_ack_handler.go
index 1c8d379..f9166ad 100644
--- a/provider/internal/api/clientapi/dht_offer_ack_handler.go
+++ b/provider/internal/api/clientapi/dht_offer_ack_handler.go
@@ -35,6 +35,13 @@ func HandleClientDHTOfferAckRequest(w rest.ResponseWriter, request *fcrmessages.
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if !c.Initialised() {
+		s := "This provider hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, gatewayID, err := fcrmessages.DecodeClientDHTOfferAckRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..83d78c6 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -33,6 +33,10 @@ import (
 func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) error {
 	// Get core structure
 	c := core.GetSingleInstance()
+	if !c.Initialised() {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 
 	gatewayID, cidMin, cidMax, registrationBlock, registrationTransactionReceipt, registrationMerkleRoot, registrationMerkleProof, err := fcrmessages.DecodeGatewayListDHTOfferRequest(request)
 	if err != nil {
diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 9624ece..3f12c56 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -27,6 +27,10 @@ import (
 func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2pserver.FCRServerWriter, request *fcrmessages.FCRMessage) error {
 	// Get core structure
 	c := core.GetSingleInstance()
+	if !c.Initialised() {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 
 	gatewayID, groupCIDOfferSupported, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(request)
 	if err != nil {
diff --git a/provider/internal/core/core.go b/provider/internal/core/core.go
index 42cd484..927a974 100644
--- a/provider/internal/core/core.go
+++ b/provider/internal/core/core.go
@@ -67,6 +67,9 @@ type Core struct {
 	// ProviderPrivateKeyVersion is the key version number of the private key.
 	ProviderPrivateKeyVersion *fcrcrypto.KeyVersion
 
+	// identityLock orders the initialisation by the admin and the requests that need it
+	identityLock sync.RWMutex
+
 	// RegisterMgr manages all register related activities
 	RegisterMgr *fcrregistermgr.FCRRegisterMgr
 
@@ -123,3 +126,22 @@ func GetSingleInstance(confs ...*settings.AppSettings) *Core {
 	})
 	return instance
 }
+
+// Initialise sets the identity of this provider, and its payment manager if there is one.
+func (c *Core) Initialise(id *nodeid.NodeID, key *fcrcrypto.KeyPair, keyVersion *fcrcrypto.KeyVersion, paymentMgr *fcrpaymentmgr.FCRPaymentMgr) {
+	c.identityLock.Lock()
+	defer c.identityLock.Unlock()
+	c.ProviderID = id
+	c.ProviderPrivateKey = key
+	c.ProviderPrivateKeyVersion = keyVersion
+	if paymentMgr != nil {
+		c.PaymentMgr = paymentMgr
+	}
+}
+
+// Initialised tells whether the admin has initialised this provider.
+func (c *Core) Initialised() bool {
+	c.identityLock.RLock()
+	defer c.identityLock.RUnlock()
+	return c.ProviderPrivateKey != nil
+}
-- 
2.43.0


From 8de64afdc8d71243e0b36c0404dca947d320fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 58/88] fix: setting the supported providers of a gateway was
 answered with a message of another kind

---
 gateway/internal/api/adminapi/set_group_cid_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index cd266d5..55d7f2e 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -49,7 +49,7 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 	c.GroupCIDOfferSupportedForProviders = providerIDs
 
 	// Construct message
-	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
+	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
 	if err != nil {
 		s := "Internal error: Fail to encode message."
 		logging.Error(s + err.Error())
-- 
2.43.0


From 195d9ec814d9151671ec81cb80e212b1a37387f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 59/88] fix: providers were never told whether a gateway
 supports their group offers

---
 .../api/adminapi/set_group_cid_support.go     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index 55d7f2e..c112438 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -70,25 +70,31 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
     logging.Error("can't write JSON during HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest %s", err.Error())
   }
 
-	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, c.GatewayID)
+	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, providerIDs)
 }
 
-func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, callerGatewayId *nodeid.NodeID) {
+func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, supportedProviders []nodeid.NodeID) {
 	for _, pvd := range providers {
 		providerID, err := nodeid.NewNodeIDFromHexString(pvd.GetNodeID())
 		if err != nil {
 			logging.Error("Error in generating node id")
 			continue
 		}
-		const thisGatewaySupportsGroupCIDOffer = true
-    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayListDHTOfferRequestType, callerGatewayId, thisGatewaySupportsGroupCIDOffer)
+		thisGatewaySupportsGroupCIDOffer := false
+		for _, supported := range supportedProviders {
+			if supported.ToString() == providerID.ToString() {
+				thisGatewaySupportsGroupCIDOffer = true
+			}
+		}
+		go notifyProvider(p2pServer, providerID, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, thisGatewaySupportsGroupCIDOffer)
 	}
 }
 
-func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, gatewayID *nodeid.NodeID, thisGatewaySupportsGroupCIDOffer bool) {
-  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, gatewayID, thisGatewaySupportsGroupCIDOffer)
+func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, thisGatewaySupportsGroupCIDOffer bool) {
+  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, thisGatewaySupportsGroupCIDOffer)
   if err != nil {
-    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID)
+    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID.ToString())
+    return
   }
   logging.Info("Provider response: %v", providerResponse)
 }
-- 
2.43.0


From 85b57f48efc2ae0d0760be9336d8a224e67c65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 60/88] fix: a provider that published several DHT offers
 stored only the last one, under the CIDs of all

---
 .../internal/api/adminapi/publish_dht_offer_handler.go    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 766cae6..132a78d 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -76,10 +76,10 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 	}
 
 	// Add offers
-	for _, offer := range offers {
-		if err := c.OffersMgr.AddDHTOffer(&offer); err != nil {
-      logging.Error("can't add DHT offer: %v", offer)
-    }
+	for i := range offers {
+		if err := c.OffersMgr.AddDHTOffer(&offers[i]); err != nil {
+			logging.Error("can't add DHT offer: %v", offers[i])
+		}
 	}
 
 	for _, contendID := range cids {
-- 
2.43.0


From a12463ed05c570f2fdace6bdafe973ad6191cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 61/88] fix: the acknowledgement of a listed offer that no
 gateway had acknowledged before crashed the provider

---
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 83d78c6..60a646c 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -154,7 +154,12 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
-- 
2.43.0


From cffaa538c5006f395fe64e2ada4ec4cbe7de5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 62/88] fix: a provider recorded unsigned acknowledgements,
 which clients refuse

---
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 60a646c..a898be2 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -135,6 +135,9 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		return errors.New("invalid response")
 	}
 	for i, acknowledgement := range acknowledgements {
+		if acknowledgement.Verify(pubKey) != nil {
+			return errors.New("fail to verify an acknowledgement")
+		}
 		// TODO: Check nonce.
 		_, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acknowledgement)
 		if err != nil {
-- 
2.43.0


From 558d3a3554f8505f0a870077cffc508e48746605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 63/88] fix: offers that a provider refused to store were
 published and reported as published

---
 .../internal/api/adminapi/publish_dht_offer_handler.go     | 5 ++++-
 .../internal/api/adminapi/publish_group_offer_handler.go   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 132a78d..f4ea82b 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -78,7 +78,10 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 	// Add offers
 	for i := range offers {
 		if err := c.OffersMgr.AddDHTOffer(&offers[i]); err != nil {
-			logging.Error("can't add DHT offer: %v", offers[i])
+			s := "Fail to store offer."
+			logging.Error(s + err.Error())
+			rest.Error(w, s, http.StatusBadRequest)
+			return
 		}
 	}
 
diff --git a/provider/internal/api/adminapi/publish_group_offer_handler.go b/provider/internal/api/adminapi/publish_group_offer_handler.go
index feda867..3e2dcff 100644
--- a/provider/internal/api/adminapi/publish_group_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_group_offer_handler.go
@@ -64,8 +64,11 @@ func HandleProviderAdminPublishGroupOfferRequest(w rest.ResponseWriter, request
 
 	// Add offer to storage
 	if addErr := c.OffersMgr.AddGroupOffer(offer); addErr != nil {
-	  logging.Error("can't add group offer: %v", offer)
-  }
+		s := "Fail to store offer."
+		logging.Error(s + addErr.Error())
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
 
 	// Get all gateways
 	gateways := c.RegisterMgr.GetAllGateways()
-- 
2.43.0


From fc70387fa1c2e1cd8552b2035f0e5db38d29e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 64/88] fix: DHT offers published together went to the gateways
 near each of their CIDs, several times

---
 provider/internal/api/adminapi/publish_dht_offer_handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index f4ea82b..66753e0 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -85,7 +85,7 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 		}
 	}
 
-	for _, contendID := range cids {
+	for i, contendID := range cids {
 		gateways, err := c.RegisterMgr.GetGatewaysNearCID(&contendID, 16, nil)
 		if err != nil {
 			s := "Internal error: Fail to get gateways near the given cid."
@@ -102,7 +102,7 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 				rest.Error(w, s, http.StatusBadRequest)
 				return
 			}
-			_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, offers, gatewayID)
+			_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, offers[i:i+1], gatewayID)
 			if err != nil {
 				logging.Error("Error in publishing dht offer to %s: %s", gatewayID.ToString(), err.Error())
 			}
-- 
2.43.0


From b9a8aca119f9f7f24f362dc767ed54462d2c3b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:56 +0000
Subject: [PATCH 65/88] fix: the first requests handled at once raced to set up
 the clock

---
 gateway/internal/util/time.go  | 6 ++----
 provider/internal/util/time.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/gateway/internal/util/time.go b/gateway/internal/util/time.go
index 9ed9d4b..0488634 100644
--- a/gateway/internal/util/time.go
+++ b/gateway/internal/util/time.go
@@ -17,13 +17,11 @@ type Clock interface {
 	//	After(d time.Duration) <-chan time.Time
 }
 
-var clock Clock
+// The real clock, until another one is set: requests handled at once must not set it up each
+var clock = newRealClock()
 
 // GetTimeImpl returns the implementation of clock to use.
 func GetTimeImpl() Clock {
-	if clock == nil {
-		SetRealClock()
-	}
 	return clock
 }
 
diff --git a/provider/internal/util/time.go b/provider/internal/util/time.go
index 5f30e40..8f1adfb 100644
--- a/provider/internal/util/time.go
+++ b/provider/internal/util/time.go
@@ -12,13 +12,11 @@ type Clock interface {
 	//	After(d time.Duration) <-chan time.Time
 }
 
-var clock Clock
+// The real clock, until another one is set: requests handled at once must not set it up each
+var clock = newRealClock()
 
 // GetTimeImpl returns the implementation of clock to use.
 func GetTimeImpl() Clock {
-	if clock == nil {
-		SetRealClock()
-	}
 	return clock
 }
 
-- 
2.43.0


From e0dafc262bb5fd3389462c5618e07b6f0d8126cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 66/88] fix: vouchers for one gateway overtook each other when
 clients asked at once, and were refused by it

---
 .../internal/api/clientapi/dht_discover_handler_v2.go |  4 ++++
 .../api/clientapi/dht_discover_offer_handler.go       |  4 ++++
 gateway/internal/core/core.go                         | 11 +++++++++++
 3 files changed, 19 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 45b54d8..c4768ca 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -97,9 +97,11 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 			return
 		}
 		// Pay this gateway
+		unlock := c.LockPayments(gw.GetAddress())
 		var needTopup bool
 		paymentChannelAddress, voucher, needTopup, err = c.PaymentMgr.Pay(gw.GetAddress(), 0, c.Settings.SearchPrice)
 		if err != nil {
+			unlock()
 			s := "Fail to pay recipient."
 			logging.Error(s + err.Error())
 			rest.Error(w, s, http.StatusBadRequest)
@@ -108,6 +110,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		if needTopup {
 			paymentChannelAddress, voucher, err = topupAndPay(c, gw.GetAddress(), defaultPaymentLane, c.Settings.SearchPrice)
 			if err != nil {
+				unlock()
 				s := "Internal error: Failure to topup the gateway: " + gw.GetAddress()
 				logging.Error(s + err.Error())
 				rest.Error(w, s, http.StatusInternalServerError)
@@ -115,6 +118,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 			}
 		}
 		res, err := c.P2PServer.RequestGatewayFromGateway(id, fcrmessages.GatewayDHTDiscoverRequestV2Type, cid, id, paymentChannelAddress, voucher)
+		unlock()
 		if err != nil {
 			unContactable = append(unContactable, *id)
 		} else {
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index d7ceea4..89b8bfd 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -87,9 +87,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 			continue
 		}
 		// Pay this gateway
+		unlock := c.LockPayments(targetGateway.GetAddress())
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
 		if err != nil {
+			unlock()
 			s := "Fail to pay recipient."
 			logging.Error(s + err.Error())
 			rest.Error(w, s, http.StatusBadRequest)
@@ -98,6 +100,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		if topup {
 			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
+				unlock()
 				s := "Fail to pay recipient."
 				logging.Error(s + err.Error())
 				rest.Error(w, s, http.StatusBadRequest)
@@ -106,6 +109,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		}
 		// using index from one collection to access another; create a struct?
 		res, err := c.P2PServer.RequestGatewayFromGateway(&targetGatewayID, fcrmessages.GatewayDHTDiscoverOfferRequestType, cid, &targetGatewayID, nonce, thisGatewayOfferDigests, paychAddr, voucher)
+		unlock()
 		if err != nil {
 			logging.Info("Uncontactable: %v", err.Error())
 			unContactable = append(unContactable, targetGatewayID)
diff --git a/gateway/internal/core/core.go b/gateway/internal/core/core.go
index 4f4ea30..6c41c75 100644
--- a/gateway/internal/core/core.go
+++ b/gateway/internal/core/core.go
@@ -81,6 +81,9 @@ type Core struct {
 	// identityLock orders the initialisation by the admin and the requests that need it
 	identityLock sync.RWMutex
 
+	// paymentLocks holds a lock for each recipient of payments
+	paymentLocks sync.Map
+
 	// RegistrationBlockHash is the hash of the block that registers this gateway
 	// RegistrationTransactionReceipt is the transaction receipt containing the registration event
 	// RegistrationMerkleRoot is the root of the merkle trie containing the transaction receipt
@@ -143,6 +146,14 @@ func GetSingleInstance(confs ...*settings.AppSettings) *Core {
 	return instance
 }
 
+// LockPayments keeps others from paying a recipient until unlock is called. Vouchers have to reach the recipient in the
+// order they were made, it refuses those that are overtaken.
+func (c *Core) LockPayments(recipient string) (unlock func()) {
+	lock, _ := c.paymentLocks.LoadOrStore(recipient, &sync.Mutex{})
+	lock.(*sync.Mutex).Lock()
+	return lock.(*sync.Mutex).Unlock
+}
+
 // Initialise sets the identity of this gateway, and its payment manager if there is one.
 func (c *Core) Initialise(id *nodeid.NodeID, key *fcrcrypto.KeyPair, keyVersion *fcrcrypto.KeyVersion, paymentMgr *fcrpaymentmgr.FCRPaymentMgr) {
 	c.identityLock.Lock()
-- 
2.43.0


From 0671ede58fc505d4e58e435473294acd020430b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 67/88] fix: a request served while another address was set up
 raced on the shared middleware

---
 common/pkg/fcrrestserver/server.go | 51 ++++++++++++++++--------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/common/pkg/fcrrestserver/server.go b/common/pkg/fcrrestserver/server.go
index cdf35cf..6e73324 100644
--- a/common/pkg/fcrrestserver/server.go
+++ b/common/pkg/fcrrestserver/server.go
@@ -73,35 +73,40 @@ func (s *FCRRESTServer) Start() error {
 	if s.start {
 		return errors.New("server already started")
 	}
-	for _, listenAddr := range s.listenAddrs {
+	// The handlers share one stack of middlewares: it is set up for all of them before the first request is served
+	handlers := make([]http.Handler, len(s.listenAddrs))
+	listeners := make([]net.Listener, len(s.listenAddrs))
+	for i, listenAddr := range s.listenAddrs {
+		addr := listenAddr
+		api := rest.NewApi()
+		api.Use(rest.DefaultDevStack...)
+		router, err := rest.MakeRouter(
+			rest.Post("/v1", func(w rest.ResponseWriter, r *rest.Request) {
+				s.msgRouter(w, r, addr)
+			}),
+		)
+		if err != nil {
+			logging.Error(err.Error())
+			return errors.New("fail to start REST Server")
+		}
+		api.SetApp(router)
+		handlers[i] = api.MakeHandler()
+	}
+	for i, listenAddr := range s.listenAddrs {
 		// Listen here: a port that cannot be used is an error of the start
 		ln, err := net.Listen("tcp", ":"+listenAddr)
 		if err != nil {
+			for _, opened := range listeners[:i] {
+				opened.Close()
+			}
 			return err
 		}
-		errChan := make(chan bool)
-		go func(ln net.Listener, addr string, errChan chan bool) {
-			api := rest.NewApi()
-			api.Use(rest.DefaultDevStack...)
-			router, err := rest.MakeRouter(
-				rest.Post("/v1", func(w rest.ResponseWriter, r *rest.Request) {
-					s.msgRouter(w, r, addr)
-				}),
-			)
-			if err != nil {
-				logging.Error(err.Error())
-				errChan <- true
-				return
-			}
-			api.SetApp(router)
-			// The stack is shared by all addresses and must not be set up by two of them at once
-			handler := api.MakeHandler()
-			errChan <- false
+		listeners[i] = ln
+	}
+	for i, listenAddr := range s.listenAddrs {
+		go func(ln net.Listener, handler http.Handler) {
 			logging.Error(http.Serve(ln, handler).Error())
-		}(ln, listenAddr, errChan)
-		if <-errChan {
-			return errors.New("fail to start REST Server")
-		}
+		}(listeners[i], handlers[i])
 		logging.Info("REST server starts listening on %s for connections.", listenAddr)
 	}
 	s.start = true
-- 
2.43.0


From 6ab67573a68ac5a5c69ffb1bb76eba585ec4b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 68/88] fix: fix: challenges of a new client at once reset each
 other's reputation

---
 gateway/internal/reputation/reputation.go       |  4 ++--
 gateway/internal/reputation/reputation_store.go | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..51e86c0 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -56,9 +56,9 @@ func GetSingleInstance() *Reputation {
 	return instance
 }
 
-// establishClientReputation initialises the reputation of a Retrieval Client
+// establishClientReputation initialises the reputation of a Retrieval Client, unless it has one already
 func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
+	r.addClientReputation(clientNodeID, clientInitialReputation)
 }
 
 // SetClientReputation sets the reputation of a Retrieval Client
diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..cfda66a 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -24,6 +24,16 @@ func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64)
 	r.clientsMapLock.Unlock()
 }
 
+// addClientReputation sets the reputation of a client that has none.
+func (r *Reputation) addClientReputation(clientNodeID *nodeid.NodeID, val int64) {
+	clientNodeIDStr := clientNodeID.ToString()
+	r.clientsMapLock.Lock()
+	defer r.clientsMapLock.Unlock()
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
+		r.clients[clientNodeIDStr] = val
+	}
+}
+
 func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount int64) int64 {
 	clientNodeIDStr := clientNodeID.ToString()
 	var val int64
-- 
2.43.0


From acf1fb9385f698e8f79d1b5ad3bef5e3ee58827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 69/88] fix: concurrent changes of the group offer support
 raced

---
 gateway/internal/api/adminapi/set_group_cid_support.go | 2 +-
 gateway/internal/core/core.go                          | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index c112438..4352622 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -46,7 +46,7 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 		return
 	}
 
-	c.GroupCIDOfferSupportedForProviders = providerIDs
+	c.SetGroupCIDOfferSupport(providerIDs)
 
 	// Construct message
 	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
diff --git a/gateway/internal/core/core.go b/gateway/internal/core/core.go
index 6c41c75..3300677 100644
--- a/gateway/internal/core/core.go
+++ b/gateway/internal/core/core.go
@@ -166,6 +166,13 @@ func (c *Core) Initialise(id *nodeid.NodeID, key *fcrcrypto.KeyPair, keyVersion
 	}
 }
 
+// SetGroupCIDOfferSupport sets the providers this gateway supports group CID offers of.
+func (c *Core) SetGroupCIDOfferSupport(providerIDs []nodeid.NodeID) {
+	c.identityLock.Lock()
+	defer c.identityLock.Unlock()
+	c.GroupCIDOfferSupportedForProviders = providerIDs
+}
+
 // Initialised tells whether the admin has initialised this gateway.
 func (c *Core) Initialised() bool {
 	c.identityLock.RLock()
-- 
2.43.0


From 890ad37ce9d912e84855820e4cf9f6df5a38d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 70/88] fix: the client returned offers that were forged or for
 another cid

---
 .../fcrclient/filecoin_retrieval_client.go    | 101 +++++-------------
 1 file changed, 25 insertions(+), 76 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3002ad8..0b4f49a 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -305,8 +305,17 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
 	}
-	// Verify the offer one by one
+	return c.genuineOffers(contentID, offers), nil
+}
+
+// genuineOffers returns those of the offers that are for the given cid and signed by their provider.
+func (c *FilecoinRetrievalClient) genuineOffers(contentID *cid.ContentID, offers []cidoffer.SubCIDOffer) []cidoffer.SubCIDOffer {
+	res := make([]cidoffer.SubCIDOffer, 0)
 	for _, offer := range offers {
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is for another cid.")
+			continue
+		}
 		// Get provider's pubkey
 		provider := c.registerMgr.GetProvider(offer.GetProviderID())
 		if provider == nil {
@@ -323,9 +332,8 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 			continue
 		}
 		// Verify the offer sig
-		err = offer.Verify(pubKey)
-		if err != nil {
-			logging.Error("Offer signature fail to verify 4, with error: " + fmt.Sprintf("%v", err))
+		if err := offer.Verify(pubKey); err != nil {
+			logging.Error("Offer signature fail to verify, with error: %s", err.Error())
 			continue
 		}
 		// Now Verify the merkle proof
@@ -335,8 +343,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		}
 		// Offer pass verification
 		logging.Info("Offer pass every verification, added to result")
+		res = append(res, offer)
 	}
-	return offers, nil
+	return res
 }
 
 // FindOffersDHTDiscovery finds offer using dht discovery from given gateways
@@ -383,43 +392,16 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 			logging.Error("Fail to verify sub response.")
 			continue
 		}
-		_, _, _, offers, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(&resp)
+		respCID, _, _, offers, _, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(&resp)
 		if err != nil {
 			logging.Error("Fail to decode response")
 			continue
 		}
-		entry := make([]cidoffer.SubCIDOffer, 0)
-		for _, offer := range offers {
-			// Get provider's pubkey
-			provider := c.registerMgr.GetProvider(offer.GetProviderID())
-			if provider == nil {
-				logging.Error("Error getting provider info.")
-				continue
-			}
-			if !validateProviderInfo(provider) {
-				logging.Error("Provider register info not valid.")
-				continue
-			}
-			pubKey, err := provider.GetSigningKey()
-			if err != nil {
-				logging.Error("Fail to obtain public key.")
-				continue
-			}
-			// Verify the offer sig
-			err = offer.Verify(pubKey)
-			if err != nil {
-				logging.Error("Offer signature fail to verify 5, with error: " + fmt.Sprintf("%v", err))
-				continue
-			}
-			// Now Verify the merkle proof
-			if offer.VerifyMerkleProof() != nil {
-				logging.Error("Merkle proof verification failed.")
-				continue
-			}
-			// Offer pass verification
-			entry = append(entry, offer)
-			logging.Info("Offer pass every verification, added to result")
+		if respCID.ToString() != contentID.ToString() {
+			logging.Error("CID mismatch in sub response.")
+			continue
 		}
+		entry := c.genuineOffers(contentID, offers)
 		offersMap[id.ToString()] = &entry
 	}
 
@@ -720,46 +702,13 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
 
-	var validOffers []cidoffer.SubCIDOffer
-	// Verify the offer one by one
-	for _, offer := range offers {
-		// Get provider's pubkey
-		provider := c.registerMgr.GetProvider(offer.GetProviderID())
-		if provider == nil {
-			logging.Error("Error getting provider info.")
-			continue
-		}
-		if !validateProviderInfo(provider) {
-			logging.Error("Provider register info not valid.")
-			continue
-		}
-		if err != nil {
-			logging.Error("Offer signature fail to verify 1, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
-		pubKey, err := provider.GetSigningKey()
-		if err != nil {
-			logging.Error("Fail to obtain public key.")
-			continue
-		}
-		// Verify the offer sig
-		err = offer.Verify(pubKey)
-		if err != nil {
-			logging.Error("Offer signature fail to verify 2, with error: " + fmt.Sprintf("%v", err))
-			continue
-		}
-		// Now Verify the merkle proof
-		if offer.VerifyMerkleProof() != nil {
-			logging.Error("Merkle proof verification failed.")
-			continue
-		}
-		// Offer pass verification
-		logging.Info("Offer pass every verification, added to result")
+	if err != nil {
+		return nil, fmt.Errorf("error getting offers from gateway: %s; error: %s", gw.GetNodeID(), err.Error())
+	}
 
-		validOffers = append(validOffers, offer)
-		if len(validOffers) == maxOffers {
-			break
-		}
+	validOffers := c.genuineOffers(contentID, offers)
+	if len(validOffers) > maxOffers {
+		validOffers = validOffers[:maxOffers]
 	}
 
 	return validOffers, nil
-- 
2.43.0


From c6b77c5dca403d51a9d80108a14dfdff024466f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 71/88] fix: the client returned unverified offers of a DHT
 search, under the names of gateways that had not sent them

---
 .../clientapi/dht_discover_offer_requester.go | 26 +++++++++++++++----
 .../fcrclient/filecoin_retrieval_client.go    | 18 ++++++++++++-
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 2046265..ec7659d 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -36,6 +36,9 @@ import (
 type GatewaySubOffers struct {
 	GatewayID *nodeid.NodeID         `json:"gateway_id"`
 	SubOffers []cidoffer.SubCIDOffer `json:"sub_cid_offers"`
+
+	// Response is the message the offers came in, signed by the gateway
+	Response *fcrmessages.FCRMessage `json:"-"`
 }
 
 func (c *Client) RequestDHTOfferDiscover(
@@ -70,10 +73,16 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, errors.New("verification failed")
 	}
 
-	_, _, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
+	recvCID, recvNonce, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
 	if err != nil {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response %s", err.Error())
 	}
+	if recvCID.ToString() != contentID.ToString() {
+		return nil, errors.New("CID mismatch")
+	}
+	if recvNonce != nonce {
+		return nil, errors.New("nonce mismatch")
+	}
 	if len(gatewayIDs) != len(fcrMessages) {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response, lengths of gateway IDs = %d and FCR messages = %d do not match", len(gatewayIDs), len(fcrMessages))
 	}
@@ -81,19 +90,26 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopupCl)
 	}
 	var result []GatewaySubOffers
-	for idx, fcrMessage := range fcrMessages {
-		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
+	for idx := range fcrMessages {
+		fcrMessage := &fcrMessages[idx]
+		subCID, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(fcrMessage)
 		if decodeErr != nil {
 			logging.Error("error decoding gateway DHT discover offer response %s", decodeErr.Error())
+			continue
+		}
+		if subCID.ToString() != contentID.ToString() {
+			logging.Error("CID mismatch in the response of gateway %s", gatewayIDs[idx].ToString())
+			continue
 		}
 		if paymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+			logging.Error("gateway %s requires payment on payment channel address: %s", gatewayIDs[idx].ToString(), paymentChannelAddrToTopup)
+			continue
 		}
-		// return first good one
 		if found && len(subCIDOffers) > 0 {
 			gatewaysSubOffers := GatewaySubOffers{
 				GatewayID: &gatewayIDs[idx],
 				SubOffers: subCIDOffers,
+				Response:  fcrMessage,
 			}
 			result = append(result, gatewaysSubOffers)
 		}
diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 0b4f49a..bfb0fef 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -538,7 +538,23 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
 	for _, entry := range allGatewaysOffers {
-		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
+		// Verify the sub response
+		gateway := c.registerMgr.GetGateway(entry.GatewayID)
+		if gateway == nil {
+			logging.Error("Error in getting gateway info.")
+			continue
+		}
+		pubKey, signErr := gateway.GetSigningKey()
+		if signErr != nil {
+			logging.Error("Fail to obtain public key.")
+			continue
+		}
+		if entry.Response.Verify(pubKey) != nil {
+			logging.Error("Fail to verify sub response.")
+			continue
+		}
+		offers := c.genuineOffers(contentID, entry.SubOffers)
+		offersMap[entry.GatewayID.ToString()] = &offers
 	}
 
 	return offersMap, nil
-- 
2.43.0


From 0867e8ae030ac28ec923765bf81d16352332a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 72/88] fix: a DHT search ended at the first gateway without
 offers, and asked gateways for the offers of others

---
 .../fcrclient/filecoin_retrieval_client.go    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index bfb0fef..a3b98b6 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -463,6 +463,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 
 	var addedSubOffersCount int
+	var gatewaysWithOffers []nodeid.NodeID
 	var offersDigestsFromAllGateways [][]string
 	for i := 0; i < len(contactedGateways); i++ {
 		contactedGatewayID := contactedGateways[i]
@@ -487,22 +488,28 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			logging.Error("Fail to verify sub response.")
 			continue
 		}
-		_, _, found, offerDigests, _, decodedPaymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&resp)
+		respCID, _, found, offerDigests, _, decodedPaymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(&resp)
 		if decodeErr != nil {
 			logging.Error("Fail to decode response")
 			continue
 		}
+		if respCID.ToString() != contentID.ToString() {
+			logging.Error("CID mismatch in sub response.")
+			continue
+		}
 		if decodedPaymentRequired {
-			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
+			logging.Error("Gateway %s requires payment on payment channel address: %s", contactedGatewayID.ToString(), paymentChannelAddrToTopup)
+			continue
 		}
-		if !found {
-			return offersMap, nil
+		if !found || len(offerDigests) == 0 {
+			continue
 		}
 		// comply with given offers number limit
 		if addedSubOffersCount+len(offerDigests) > offersNumberLimit {
 			offerDigests = offerDigests[:(offersNumberLimit - addedSubOffersCount)]
 		}
 
+		gatewaysWithOffers = append(gatewaysWithOffers, contactedGatewayID)
 		offersDigestsFromAllGateways = append(offersDigestsFromAllGateways, offerDigests)
 		addedSubOffersCount += len(offerDigests)
 
@@ -517,7 +524,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		unit += len(entry)
 	}
 	if unit == 0 {
-		logging.Warn("have zero offer digests from all gateways, about to pay amount of 0")
+		// No offer found
+		return offersMap, nil
 	}
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
@@ -533,7 +541,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, contactedGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, gatewaysWithOffers, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-- 
2.43.0


From cf75a28830f678ffb89a953538f36f6e5d7e6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 73/88] fix: searches panicked with a negative maximum of
 offers, and returned more than the maximum

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index a3b98b6..940e390 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -413,6 +413,10 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.ContentID, gatewayID *nodeid.NodeID, numDHT int64, offersNumberLimit int) (map[string]*[]cidoffer.SubCIDOffer, error) {
 	offersMap := make(map[string]*[]cidoffer.SubCIDOffer)
 
+	if offersNumberLimit <= 0 {
+		return offersMap, nil
+	}
+
 	c.ActiveGatewaysLock.RLock()
 	defer c.ActiveGatewaysLock.RUnlock()
 
@@ -562,6 +566,10 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			continue
 		}
 		offers := c.genuineOffers(contentID, entry.SubOffers)
+		if len(offers) > offersNumberLimit {
+			offers = offers[:offersNumberLimit]
+		}
+		offersNumberLimit -= len(offers)
 		offersMap[entry.GatewayID.ToString()] = &offers
 	}
 
@@ -661,6 +669,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
+	if maxOffers <= 0 {
+		return cidOffers, nil
+	}
+
 	// It will call the payment manager to pay for the initial request
 	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
-- 
2.43.0


From aefd19530bb099481048ac3dab2edb40c43e578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 74/88] fix: a DHT search was not paid with the configured
 price, and its second payment went to a payment channel instead of the
 gateway

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 940e390..c963c45 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -426,7 +426,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
-	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
+	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
@@ -448,7 +448,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 	}
 	if paymentRequired {
-		paymentChannel, voucher, err = c.topupAndPay(paymentChannel, defaultPaymentLane, c.Settings.searchPrice)
+		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 		if err != nil {
 			return nil, fmt.Errorf("topup error while requesting DHT discovery: %s", err.Error())
 		}
@@ -459,7 +459,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 		}
 		if paymentRequired {
-			logging.Error("gateway DHT discovery error: received 'payment required' twice")
+			return nil, errors.New("error in requesting dht discovery: received 'payment required' twice")
 		}
 	}
 	for i := 0; i < len(uncontactable); i++ {
@@ -706,7 +706,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			return make([]cidoffer.SubCIDOffer, 0), fmt.Errorf("error getting offer from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
 		}
 		if paymentRequired {
-			logging.Error("find offers standard discovery - received 'payment required' twice")
+			return cidOffers, errors.New("error in requesting standard discovery: received 'payment required' twice")
 		}
 	}
 	if len(offerDigests) == 0 {
-- 
2.43.0


From 17658f38af33b24d2449c2d9e3b4cafd66290aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 75/88] fix: a paid search crashed if the payment manager had
 not been used before or could not be set up

---
 .../fcrclient/filecoin_retrieval_client.go    | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index c963c45..9f3dcf3 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -77,17 +77,15 @@ func NewFilecoinRetrievalClient(settings ClientSettings, registerMgr *fcrregiste
 
 func (c *FilecoinRetrievalClient) PaymentMgr() *fcrpaymentmgr.FCRPaymentMgr {
 	// lazy init
+	c.paymentMgrLock.Lock()
+	defer c.paymentMgrLock.Unlock()
 	if c.paymentMgr == nil {
-		c.paymentMgrLock.Lock()
-		defer c.paymentMgrLock.Unlock()
-		if c.paymentMgr == nil {
-			mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
-			if err != nil {
-				logging.Error("Error initializing payment manager.")
-				return nil
-			}
-			c.paymentMgr = mgr
+		mgr, err := fcrpaymentmgr.NewFCRPaymentMgr(c.Settings.walletPrivateKey, c.Settings.lotusAP, c.Settings.lotusAuthToken)
+		if err != nil {
+			logging.Error("Error initializing payment manager.")
+			return nil
 		}
+		c.paymentMgr = mgr
 	}
 
 	return c.paymentMgr
@@ -426,6 +424,9 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
+	if c.PaymentMgr() == nil {
+		return nil, errors.New("error initializing payment manager")
+	}
 	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
@@ -673,8 +674,12 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 		return cidOffers, nil
 	}
 
+	if c.PaymentMgr() == nil {
+		return cidOffers, errors.New("error initializing payment manager")
+	}
+
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -723,7 +728,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
-- 
2.43.0


From e18221d9badb49fe76fab613caf21c5fe8116f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 76/88] fix: a gateway removed while it was being contacted
 stayed active, and one added twice at once was counted twice

---
 .../fcrclient/filecoin_retrieval_client.go    | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 9f3dcf3..dfe9d46 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -145,9 +145,11 @@ func (c *FilecoinRetrievalClient) AddGatewaysToUse(gwNodeIDs []*nodeid.NodeID) i
 		}
 		// Success
 		c.GatewaysToUseLock.Lock()
-		c.GatewaysToUse[gwToAddID.ToString()] = gateway
+		if _, exist = c.GatewaysToUse[gwToAddID.ToString()]; !exist {
+			c.GatewaysToUse[gwToAddID.ToString()] = gateway
+			numAdded++
+		}
 		c.GatewaysToUseLock.Unlock()
-		numAdded++
 	}
 	return numAdded
 }
@@ -234,14 +236,30 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			continue
 		}
 		// It is success
-		c.ActiveGatewaysLock.Lock()
-		c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
-		c.ActiveGatewaysLock.Unlock()
-		numAdded++
+		if c.activate(gwToAddID, gatewayRegistrar) {
+			numAdded++
+		}
 	}
 	return numAdded
 }
 
+// activate adds a gateway to the active gateways, unless it is there or has been removed from the gateways to use meanwhile.
+func (c *FilecoinRetrievalClient) activate(id *nodeid.NodeID, gateway register.GatewayRegistrar) bool {
+	c.GatewaysToUseLock.RLock()
+	defer c.GatewaysToUseLock.RUnlock()
+	c.ActiveGatewaysLock.Lock()
+	defer c.ActiveGatewaysLock.Unlock()
+
+	if _, inUse := c.GatewaysToUse[id.ToString()]; !inUse {
+		return false
+	}
+	if _, exist := c.ActiveGateways[id.ToString()]; exist {
+		return false
+	}
+	c.ActiveGateways[id.ToString()] = gateway
+	return true
+}
+
 // RemoveActiveGateways removes one or more gateways from the list of Gateways in active.
 func (c *FilecoinRetrievalClient) RemoveActiveGateways(gwNodeIDs []*nodeid.NodeID) int {
 	c.ActiveGatewaysLock.Lock()
-- 
2.43.0


From bb0b167f35391b6a4035c77ea784b1b1a5cc200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 77/88] fix: vouchers of concurrent client searches overtook
 each other and were refused

---
 .../fcrclient/filecoin_retrieval_client.go    | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index dfe9d46..25a54f0 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -57,6 +57,9 @@ type FilecoinRetrievalClient struct {
 	paymentMgr     *fcrpaymentmgr.FCRPaymentMgr
 	paymentMgrLock sync.RWMutex
 
+	// One lock for each recipient of payments, see lockPayments
+	paymentLocks sync.Map
+
 	clientApi   clientapi.ClientApi
 	registerMgr *fcrregistermgr.FCRRegisterMgr
 }
@@ -445,6 +448,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	if c.PaymentMgr() == nil {
 		return nil, errors.New("error initializing payment manager")
 	}
+	unlockPayments := c.lockPayments(entryGateway.GetAddress())
+	defer unlockPayments()
 	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
@@ -481,6 +486,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			return nil, errors.New("error in requesting dht discovery: received 'payment required' twice")
 		}
 	}
+	unlockPayments()
 	for i := 0; i < len(uncontactable); i++ {
 		logging.Warn("Gateway: %v is uncontactable.", uncontactable[i].ToString())
 	}
@@ -550,6 +556,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		// No offer found
 		return offersMap, nil
 	}
+	unlockPayments = c.lockPayments(entryGateway.GetAddress())
+	defer unlockPayments()
 	offerRequestPaymentAmount := new(big.Int).Mul(big.NewInt(int64(unit)), c.Settings.offerPrice)
 
 	paymentChannel, voucher, needTopup, err = c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, offerRequestPaymentAmount)
@@ -697,6 +705,8 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	// It will call the payment manager to pay for the initial request
+	unlockPayments := c.lockPayments(gw.GetAddress())
+	defer unlockPayments()
 	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
@@ -732,6 +742,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			return cidOffers, errors.New("error in requesting standard discovery: received 'payment required' twice")
 		}
 	}
+	unlockPayments()
 	if len(offerDigests) == 0 {
 		// No offer found
 		return cidOffers, nil
@@ -746,6 +757,8 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
+	unlockPayments = c.lockPayments(gw.GetAddress())
+	defer unlockPayments()
 	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -773,6 +786,19 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	return validOffers, nil
 }
 
+// lockPayments lets one payment at a time travel to the given recipient: a voucher has to arrive before any voucher
+// made after it, or the recipient will not redeem it. It is held from making a payment until the request carrying it
+// has been answered. The returned function can be called more than once.
+func (c *FilecoinRetrievalClient) lockPayments(recipient string) (unlock func()) {
+	lock, _ := c.paymentLocks.LoadOrStore(recipient, &sync.Mutex{})
+	mutex := lock.(*sync.Mutex)
+	mutex.Lock()
+	var once sync.Once
+	return func() {
+		once.Do(mutex.Unlock)
+	}
+}
+
 func (c *FilecoinRetrievalClient) topupAndPay(recipient string, paymentLane uint64, amount *big.Int) (paymentChannel string, voucher string, err error) {
 	if err := c.PaymentMgr().Topup(recipient, c.Settings.topUpAmount); err != nil {
 		return "", "", fmt.Errorf("Unable to topup, error: %s ", err.Error())
-- 
2.43.0


From afcd1be3e6608bfb307f014264205c70e8c29bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 78/88] fix: a client that asked for no gateways was given one

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 25a54f0..c579972 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -105,8 +105,10 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 	}
 
 	res := make([]*nodeid.NodeID, 0)
-	count := 0
 	for _, info := range gateways {
+		if len(res) >= maxNumToLocate {
+			break
+		}
 		if info.GetRegionCode() == location {
 			nodeID, err := nodeid.NewNodeIDFromHexString(info.GetNodeID())
 			if err != nil {
@@ -114,10 +116,6 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 				continue
 			}
 			res = append(res, nodeID)
-			count++
-			if count >= maxNumToLocate {
-				break
-			}
 		}
 	}
 	return res, nil
-- 
2.43.0


From a34122ae637593a02d0cc42bc0ead343b034cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 79/88] fix: register answers an error instead of panicking
 when a record cannot be stored or deleted

---
 register/internal/handlers/gateways_handler.go  | 10 ++++++----
 register/internal/handlers/providers_handler.go |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 924ab8e..1f47935 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -28,8 +28,9 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
-		log.Error("Unable to set Redis value")
-		panic(err)
+		msg := "Unable to set Redis value"
+		log.Error("%s, error in AddGatewayRegister: %s", msg, err.Error())
+		return op.NewAddGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	log.Info("register created a gateway record with ID: %s", params.Register.NodeID)
@@ -120,8 +121,9 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		log.Info("register deleted a gateway record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeGateway, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to set Redis value"
+			log.Error("%s, error in DeleteGatewayRegisters: %s", msg, err.Error())
+			return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
 	}
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 62b7c0e..48a2093 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -122,8 +122,9 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		log.Info("register deleted a provider record with ID: %s", index)
 		err := rdb.HDel(ctx, registerTypeProvider, index).Err()
 		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
+			msg := "Unable to set Redis value"
+			log.Error("%s, error in DeleteProviderRegisters: %s", msg, err.Error())
+			return op.NewDeleteProviderRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 		}
 	}
 
-- 
2.43.0


From 49110bc3b9459f3a3357b97c4e5581c3b079507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 80/88] fix: register left a Redis connection open for every
 request

---
 register/internal/handlers/gateways_handler.go  | 4 ++++
 register/internal/handlers/providers_handler.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 1f47935..6ec1fcd 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -25,6 +25,7 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
@@ -47,6 +48,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegisters, err := rdb.HGetAll(ctx, "gateway").Result()
 	if err != nil {
@@ -81,6 +83,7 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegister, err := rdb.HGet(ctx, "gateway", registerID).Result()
 	if err != nil {
@@ -107,6 +110,7 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 48a2093..c9bade0 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -25,6 +25,7 @@ func AddProviderRegister(params op.AddProviderRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "provider", register.NodeID, register).Err()
 	if err != nil {
@@ -48,6 +49,7 @@ func GetProviderRegisters(_ op.GetProviderRegistersParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	providerRegisters, err := rdb.HGetAll(ctx, "provider").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetProviderRegisterByID(params op.GetProviderRegistersByIDParams) middlewar
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	register, err := rdb.HGet(ctx, "provider", registerID).Result()
 	if err != nil {
@@ -108,6 +111,7 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
-- 
2.43.0


From 37de631569d3d09cb12a0cc9fd2dc9455832d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 81/88] fix: gateways refused genuine offers with a price or
 quality of service of 2^63 or more

---
 common/pkg/offermgr/offer_manager.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index ff1ba58..41fea5f 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -98,8 +98,8 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
-		offer.GetPrice(),
-		offer.GetQoS(),
+		int64(offer.GetPrice()), // the driver takes no uint64 with the high bit set; the bits are kept
+		int64(offer.GetQoS()),
 		offer.GetSignature(), digestHex)
 	if err != nil {
 		return err
@@ -164,8 +164,7 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 	sqlSelectContent := `select content_id from content where digest=? order by content_no`
 	for offerRows.Next() {
 		var digestHex, providerHex string
-		var expiry int64
-		var price, qos uint64
+		var expiry, price, qos int64
 		var signature string
 		if err := offerRows.Scan(&digestHex, &providerHex, &expiry, &price, &qos, &signature); err != nil {
 			continue
@@ -179,7 +178,7 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 			continue
 		}
 
-		offer, err := cidoffer.NewCIDOffer(providerID, cids, price, expiry, qos)
+		offer, err := cidoffer.NewCIDOffer(providerID, cids, uint64(price), expiry, uint64(qos))
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From bbf4b715df34c231737038fc484e7ddb096fdeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 82/88] fix: a gateway with an invalid identifier in the
 register stopped a provider's group offers from being published to the others

---
 .../internal/api/adminapi/publish_group_offer_handler.go    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_group_offer_handler.go b/provider/internal/api/adminapi/publish_group_offer_handler.go
index 3e2dcff..eaee1a7 100644
--- a/provider/internal/api/adminapi/publish_group_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_group_offer_handler.go
@@ -75,10 +75,8 @@ func HandleProviderAdminPublishGroupOfferRequest(w rest.ResponseWriter, request
 	for _, gateway := range gateways {
 		gatewayID, err := nodeid.NewNodeIDFromHexString(gateway.GetNodeID())
 		if err != nil {
-			s := "Fail to generate node id."
-			logging.Error(s + err.Error())
-			rest.Error(w, s, http.StatusBadRequest)
-			return
+			logging.Error("Error in generating node id of gateway %s: %s", gateway.GetNodeID(), err.Error())
+			continue
 		}
 		_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishGroupOfferRequestType, offer, gatewayID)
 		if err != nil {
-- 
2.43.0


From 527cb4ad32640b7e08468c5972b45fa0710aa081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 83/88] fix: a client checked a gateway against the key and
 address it had when it was added, not those in the register

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index c579972..c2738fd 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -221,12 +221,18 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			continue
 		}
 		c.GatewaysToUseLock.RLock()
-		gatewayRegistrar, exist := c.GatewaysToUse[strings.ToLower(gwToAddID.ToString())]
+		_, exist = c.GatewaysToUse[strings.ToLower(gwToAddID.ToString())]
 		c.GatewaysToUseLock.RUnlock()
 		if !exist {
 			logging.Error("Given node id: %v does not exist in gateways to use map, consider add the gateway first.", gwToAddID.ToString())
 			continue
 		}
+		// The gateway may have registered again, with another key or address, since it was added
+		gatewayRegistrar := c.registerMgr.GetGateway(gwToAddID)
+		if gatewayRegistrar == nil || !validateGatewayInfo(gatewayRegistrar) {
+			logging.Error("Register info of gateway %v not valid.", gwToAddID.ToString())
+			continue
+		}
 		// Attempt an establishment
 		challenge := make([]byte, 32)
 		rand.Read(challenge)
-- 
2.43.0


From 239dae2e8e8cc1cf5f66254266b1a8f389fbf385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 84/88] fix: the JavaScript client used one gateway as another
 when the register gave the wrong entry

---
 client-js/src/FilecoinRetrievalClient.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client-js/src/FilecoinRetrievalClient.ts b/client-js/src/FilecoinRetrievalClient.ts
index a17b045..0dcb410 100644
--- a/client-js/src/FilecoinRetrievalClient.ts
+++ b/client-js/src/FilecoinRetrievalClient.ts
@@ -53,6 +53,9 @@ export class FilecoinRetrievalClient {
       try {
         const gateway = await getGatewayByID(this.settings.registerURL, _gatewayID)
         gateway.validateInfo()
+        if (gateway.nodeId.toLowerCase() != _gatewayID.toLowerCase()) {
+          throw Error(`Registration issue: the entry is that of ${gateway.nodeId}`)
+        }
         this.gatewaysToUse.set(_gatewayID, gateway)
         numAdded++
       } catch (e) {
-- 
2.43.0


From fa96f3dd55ec4bac056e770e682c683246d6dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 85/88] fix: the JavaScript client counted a gateway for every
 caller that was adding it

---
 client-js/src/FilecoinRetrievalClient.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client-js/src/FilecoinRetrievalClient.ts b/client-js/src/FilecoinRetrievalClient.ts
index 0dcb410..efc6af8 100644
--- a/client-js/src/FilecoinRetrievalClient.ts
+++ b/client-js/src/FilecoinRetrievalClient.ts
@@ -56,6 +56,10 @@ export class FilecoinRetrievalClient {
         if (gateway.nodeId.toLowerCase() != _gatewayID.toLowerCase()) {
           throw Error(`Registration issue: the entry is that of ${gateway.nodeId}`)
         }
+        if (this.gatewaysToUse.has(_gatewayID)) {
+          // Added by another caller meanwhile
+          continue
+        }
         this.gatewaysToUse.set(_gatewayID, gateway)
         numAdded++
       } catch (e) {
@@ -93,6 +97,10 @@ export class FilecoinRetrievalClient {
           console.log(`Error in initial establishment: gatewayID=${_gatewayID}`)
           continue
         }
+        if (this.activeGateways.has(_gatewayID)) {
+          // Added by another caller meanwhile
+          continue
+        }
         this.activeGateways.set(_gatewayID, gatewayInfo)
         numAdded++
       } catch (e) {
-- 
2.43.0


From c4372047993e4d495e022459c4f21db067955227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 86/88] fix: a JavaScript client whose wallet had sent nothing
 yet could not open a payment channel

---
 client-js/src/fcrPaymentMgr/payment_manager.class.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client-js/src/fcrPaymentMgr/payment_manager.class.ts b/client-js/src/fcrPaymentMgr/payment_manager.class.ts
index fa2925d..d560ced 100644
--- a/client-js/src/fcrPaymentMgr/payment_manager.class.ts
+++ b/client-js/src/fcrPaymentMgr/payment_manager.class.ts
@@ -101,7 +101,7 @@ export class FCRPaymentMgr {
     // Need to create a channel
     // Get nonce
     const nonceRes = await this.filRPC.getNonce(this.recoveredKey.address)
-    if (!nonceRes.result) {
+    if (nonceRes.result == null) {
       throw new Error('Error in getting nonce')
     }
     const nonce = nonceRes.result
-- 
2.43.0


From db102be4ed3ffc0faef344c6f4441cd71cc1379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 87/88] fix: the JavaScript client counted a top up that failed
 on the chain as money in the channel

---
 client-js/src/fcrPaymentMgr/payment_manager.class.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client-js/src/fcrPaymentMgr/payment_manager.class.ts b/client-js/src/fcrPaymentMgr/payment_manager.class.ts
index d560ced..d0f73d2 100644
--- a/client-js/src/fcrPaymentMgr/payment_manager.class.ts
+++ b/client-js/src/fcrPaymentMgr/payment_manager.class.ts
@@ -81,7 +81,10 @@ export class FCRPaymentMgr {
     const topup = topupRes.result
     const signedMessage = JSON.parse(filecoin_signer.transactionSignLotus(topup, this.recoveredKey.private_base64))
     const cid = await this.filRPC.sendSignedMessage(signedMessage)
-    await this.filRPC.waitMessage(cid)
+    const res = await this.filRPC.waitMessage(cid)
+    if (res.result?.Receipt?.ExitCode !== 0) {
+      throw new Error('Error in topping up payment channel')
+    }
     const cs = this.outboundChs.get(recipient)
     if (cs != undefined) {
       cs.balance = cs.balance.add(amount)
-- 
2.43.0


From 4ab93eafb11b43ed4b253fe2490e22cc96c0b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 88/88] fix: top ups of the JavaScript client at the same time
 failed, or opened several channels to one recipient

---
 client-js/src/fcrPaymentMgr/payment_manager.class.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client-js/src/fcrPaymentMgr/payment_manager.class.ts b/client-js/src/fcrPaymentMgr/payment_manager.class.ts
index d0f73d2..acbd2f0 100644
--- a/client-js/src/fcrPaymentMgr/payment_manager.class.ts
+++ b/client-js/src/fcrPaymentMgr/payment_manager.class.ts
@@ -36,6 +36,8 @@ export class FCRPaymentMgr {
 
   outboundChs: Map<string, ChannelState>
 
+  private lastTopup: Promise<unknown> = Promise.resolve()
+
   // Make sure the private key provided is in hex string
   constructor(privateKeyHex: string, lotusAPIAddr: string, authToken: string) {
     this.recoveredKey = filecoin_signer.keyRecover(Buffer.from(privateKeyHex, 'hex').toString('base64'))
@@ -46,6 +48,13 @@ export class FCRPaymentMgr {
   }
 
   async topup(recipient: string, amount: BN) {
+    // One at a time: a top up needs the nonce and the channel that the one before it leaves
+    const result = this.lastTopup.then(() => this.topupInTurn(recipient, amount))
+    this.lastTopup = result.catch(() => undefined)
+    return result
+  }
+
+  private async topupInTurn(recipient: string, amount: BN) {
     if (this.outboundChs.has(recipient)) {
       return this.updateExistingChannelState(recipient, amount)
     } else {
-- 
2.43.0

