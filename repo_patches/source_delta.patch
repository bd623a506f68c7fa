From 20efbdc4145952fa95b01f40f556733e1a84ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 01/36] fix: threshold signatures need Threshold distinct,
 known signers

---
 crypto/bls.go           | 16 +++++++++++++---
 crypto/crypto_config.go | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/crypto/bls.go b/crypto/bls.go
index a414c4a..c53c935 100644
--- a/crypto/bls.go
+++ b/crypto/bls.go
@@ -95,10 +95,17 @@ func ThresholdAggregate(sigs []SigFragment, threshold int) (ThresholdSig, error)
 
 // Verify an aggregated threshold signature against the message and the public keys
 func (sig ThresholdSig) Verify(msg string, pubs *BlsPublicMap) bool {
-	// Construct the list of public keys
+	if sig.Sign == nil {
+		return false
+	}
+	// Construct the list of public keys, every signer must be a known entity.
 	pubList := make([]bls.PublicKey, len(sig.IDs))
 	for i := range sig.IDs {
-		pubList[i] = (*pubs)[sig.IDs[i]]
+		pub, ok := (*pubs)[sig.IDs[i]]
+		if !ok {
+			return false
+		}
+		pubList[i] = pub
 	}
 	// FastAggregateVerify agregates the public signatures of the signers of the message and then verifies the message against that aggregated signature.
 	return sig.Sign.FastAggregateVerify(pubList, []byte(msg))
@@ -106,7 +113,10 @@ func (sig ThresholdSig) Verify(msg string, pubs *BlsPublicMap) bool {
 
 // Given a message and a public key mapping, verify the signature runs.
 func (f SigFragment) Verify(msg string, pubs *BlsPublicMap) bool {
-	pub := (*pubs)[f.ID]
+	pub, ok := (*pubs)[f.ID]
+	if !ok || f.Sign == nil {
+		return false
+	}
 	return (f.Sign).Verify(&pub, msg)
 }
 
diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index ad6a345..b4ae418 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -41,7 +41,10 @@ func (c *CryptoConfig) Sign(msg []byte) (RSASig, error) {
 // Verify a message using the configured "normal signature" scheme, and the stored public keys.
 func (c *CryptoConfig) Verify(msg []byte, sig RSASig) error {
 	if c.SignScheme == "rsa" {
-		pub := c.SignPublicMap[sig.ID]
+		pub, ok := c.SignPublicMap[sig.ID]
+		if !ok {
+			return errors.New("No public key known for the signer")
+		}
 		//fmt.Println("PublicKey Found: ",pub)
 		return RSAVerify(msg, sig, &pub)
 	}
@@ -74,6 +77,14 @@ func (c *CryptoConfig) ThresholdAggregate(sigs []SigFragment) (ThresholdSig, err
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 	if c.ThresholdScheme == "bls" {
+		// A threshold signature needs the contribution of at least Threshold different entities.
+		signers := make(map[CTngID]bool)
+		for _, id := range sig.IDs {
+			signers[id] = true
+		}
+		if len(signers) < c.Threshold || len(signers) != len(sig.IDs) {
+			return errors.New("Threshold Signature does not have enough distinct signers")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
-- 
2.43.0


From 02fa0311ef8fe5e831231be4505782606b6dcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 02/36] fix: bind gossip objects and conflict PoMs to the
 entity, type and period they are about

---
 definition/Verify.go | 115 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 106 insertions(+), 9 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 957beda..12c557e 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -5,11 +5,11 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/util"
-	//"strings"
-	//"time"
 )
 
 // Types of errors that can occur when parsing a Gossip_object
@@ -19,13 +19,91 @@ const (
 	Invalid_Type = "Invalid Type"
 )
 
+// Returns the kind of statement ("STH" or "REV") and the period carried by the signed part of a payload.
+func signedPeriod(payload1 string, payload2 string) (string, int, error) {
+	if payload1 == "CRV" {
+		var rev Revocation
+		if err := json.Unmarshal([]byte(payload2), &rev); err != nil {
+			return "", 0, errors.New(Mislabel)
+		}
+		period, err := strconv.Atoi(rev.Period)
+		return "REV", period, err
+	}
+	sthBytes, err := hex.DecodeString(payload1)
+	if err != nil || payload2 != "" {
+		return "", 0, errors.New(Mislabel)
+	}
+	var sth STH
+	if err = json.Unmarshal(sthBytes, &sth); err != nil {
+		return "", 0, errors.New(Mislabel)
+	}
+	period, err := strconv.Atoi(sth.Period)
+	return "STH", period, err
+}
+
+// Same as signedPeriod, for the concatenated form found in a CON_INIT payload.
+func conflictStatement(entity string, statement string) (string, int, error) {
+	if !strings.HasPrefix(statement, entity) {
+		return "", 0, errors.New(Mislabel)
+	}
+	body := strings.TrimPrefix(statement, entity)
+	if strings.HasPrefix(body, "CRV") {
+		return signedPeriod("CRV", strings.TrimPrefix(body, "CRV"))
+	}
+	return signedPeriod(body, "")
+}
+
+// The signatures cover the concatenated payload only, so the fields have to match the type of the object:
+// otherwise an object could be relabeled as an object of another type.
+func verifyFields(g Gossip_object, c *crypto.CryptoConfig) error {
+	if _, ok := c.SignPublicMap[crypto.CTngID(g.Payload[0])]; !ok {
+		return errors.New(Mislabel)
+	}
+	switch g.Type {
+	case ACC_INIT, ACC_FRAG, ACC_FULL:
+		if g.Payload[1] != "" || g.Payload[2] != "" {
+			return errors.New(Mislabel)
+		}
+	case STH_INIT, STH_FRAG, STH_FULL, REV_INIT, REV_FRAG, REV_FULL:
+		kind, period, err := signedPeriod(g.Payload[1], g.Payload[2])
+		if err != nil {
+			return errors.New(Mislabel)
+		}
+		isREV := g.Type == REV_INIT || g.Type == REV_FRAG || g.Type == REV_FULL
+		if isREV != (kind == "REV") {
+			return errors.New(Mislabel)
+		}
+		if g.Type == STH_INIT || g.Type == REV_INIT {
+			// An STH is published in the period that follows the one it was built in.
+			if kind == "STH" {
+				period = (period + 1) % 60
+			}
+			objPeriod, err := strconv.Atoi(g.Period)
+			if err != nil || objPeriod != period {
+				return errors.New(Mislabel)
+			}
+		}
+	}
+	return nil
+}
+
 func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	rsaSig1, sigerr1 := crypto.RSASigFromString(g.Signature[0])
 	rsaSig2, sigerr2 := crypto.RSASigFromString(g.Signature[1])
 	// Verify the signatures were made successfully
 	if sigerr1 == nil && sigerr2 == nil {
-		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
-		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
+		// Both statements have to come from the accused entity
+		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] {
+			return errors.New(No_Sig_Match)
+		}
+		// and contradict each other: different statements of the same kind for the same period
+		kind1, period1, err1 := conflictStatement(g.Payload[0], g.Payload[1])
+		kind2, period2, err2 := conflictStatement(g.Payload[0], g.Payload[2])
+		if err1 != nil || err2 != nil || kind1 != kind2 || period1 != period2 || g.Payload[1] == g.Payload[2] {
+			return errors.New(Mislabel)
+		}
+		err1 = c.Verify([]byte(g.Payload[1]), rsaSig1)
+		err2 = c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
 		if err1 == nil && err2 == nil {
 			return nil
@@ -41,8 +119,14 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.SigFragmentFromString(g.Signature[0])
-		err := c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.SigFragmentFromString(g.Signature[0])
+		if err != nil || sig.ID.String() != g.Signer {
+			return errors.New(No_Sig_Match)
+		}
+		if err = verifyFields(g, c); err != nil {
+			return err
+		}
+		err = c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -55,8 +139,14 @@ func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies threshold signatures match payload
 func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.ThresholdSigFromString(g.Signature[0])
-		err := c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.ThresholdSigFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		if err = verifyFields(g, c); err != nil {
+			return err
+		}
+		err = c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -70,9 +160,16 @@ func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
 		sig, err := crypto.RSASigFromString(g.Signature[0])
-		if err != nil {
+		if err != nil || sig.ID.String() != g.Signer {
 			return errors.New(No_Sig_Match)
 		}
+		// STHs and revocations are statements of the signer about itself
+		if g.Type != ACC_INIT && g.Signer != g.Payload[0] {
+			return errors.New(Mislabel)
+		}
+		if err = verifyFields(g, c); err != nil {
+			return err
+		}
 		return c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)
 
 	} else {
-- 
2.43.0


From fa70fc8cb526094cb298f9472c75ab06a1524668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 03/36] fix: only valid fragments of distinct gossipers on the
 same payload count towards the threshold, and an invalid full object is not
 forwarded

---
 gossiper/Interface.go       | 37 ++++++++++++++++++++++---------------
 gossiper/gossiper_server.go | 22 ++++++++++++++++++++--
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index e63eb06..241a1da 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -224,32 +224,39 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	return true
 }
 
+// Returns the number of fragments (from other signers) already stored for the same payload, the fragment is stored if more are needed.
+// A signer only counts once per payload, for a repeated fragment the number returned is the Threshold: there is nothing left to do.
+func (ctx *GossiperContext) storeFragment(fragmentMap map[definition.Gossip_ID][]definition.Gossip_object, gossip_object definition.Gossip_object) int {
+	before := 0
+	for _, v := range fragmentMap[gossip_object.GetID()] {
+		if v.Payload != gossip_object.Payload {
+			continue
+		}
+		if v.Signer == gossip_object.Signer {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
+		before++
+	}
+	if before < ctx.Gossiper_crypto_config.Threshold {
+		fragmentMap[gossip_object.GetID()] = append(fragmentMap[gossip_object.GetID()], gossip_object)
+	}
+	return before
+}
+
 func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Gossip_object) int {
 	switch gossip_object.Type {
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
-			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
-		}
-		return before
+		return ctx.storeFragment(ctx.Gossip_object_storage.STH_FRAG, gossip_object)
 	case definition.REV_FRAG:
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
-			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
-		}
-		return before
+		return ctx.storeFragment(ctx.Gossip_object_storage.REV_FRAG, gossip_object)
 	case definition.ACC_FRAG:
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
-		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
-		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
-			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
-		}
-		return before
+		return ctx.storeFragment(ctx.Gossip_object_storage.ACC_FRAG, gossip_object)
 	}
 	return 0
 
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3fef5f4..025119d 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -343,6 +343,11 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		fmt.Println(util.BLUE, "Received a fragment for a full object.", util.RESET)
 		return
 	}
+	// only valid fragments count
+	if err := gossip_obj.Verify(c.Gossiper_crypto_config); err != nil {
+		fmt.Println(util.RED, "Invalid object "+definition.TypeString(gossip_obj.Type)+" signed by "+gossip_obj.Signer+".", util.RESET)
+		return
+	}
 	itemcount := 0
 	switch gossip_obj.Type {
 	case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
@@ -350,7 +355,17 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	//fmt.Println(itemcount)
 	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
-		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+		// aggregate the fragments on this payload
+		itemlist := []definition.Gossip_object{}
+		for _, frag := range c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type) {
+			if frag.Payload == gossip_obj.Payload {
+				itemlist = append(itemlist, frag)
+			}
+		}
+		// the storage may have been wiped in the meantime
+		if len(itemlist) < c.Gossiper_crypto_config.Threshold {
+			return
+		}
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
@@ -368,7 +383,10 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), gossip_obj.Type)
 	if icount == 0 {
-		c.Store(gossip_obj)
+		proceed := c.Store(gossip_obj)
+		if !proceed {
+			return
+		}
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-- 
2.43.0


From 33a85701e442c229a7e230c4c34c8e293512f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:11 +0000
Subject: [PATCH 04/36] fix: conflicting objects that arrive at the same time
 are still reported as a conflict

---
 gossiper/Interface.go       |  8 ++++----
 gossiper/gossiper_server.go | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 241a1da..62d0dd6 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -134,8 +134,8 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	switch gossip_object.Type {
 	case definition.STH_INIT:
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Lock()
-		// if it is a duplicate, ignore it
-		if ctx.DupCheckInLock(gossip_object) {
+		// if there is an object already, a duplicate or a conflicting one, keep it
+		if _, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]; ok {
 			ctx.Gossip_object_storage.STH_INIT_LOCK.Unlock()
 			return false
 		}
@@ -147,8 +147,8 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		}
 	case definition.REV_INIT:
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Lock()
-		// if it is a duplicate, ignore it
-		if ctx.DupCheckInLock(gossip_object) {
+		// if there is an object already, a duplicate or a conflicting one, keep it
+		if _, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]; ok {
 			ctx.Gossip_object_storage.REV_INIT_LOCK.Unlock()
 			return false
 		}
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 025119d..c268f15 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -232,6 +232,11 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// if not malicious, we store the object
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
+			Handle_Gossip_object(c, c.Generate_CON_INIT(obj_1, gossip_obj))
+		}
 		return
 	}
 	// we send the object to the gossipers
@@ -274,6 +279,11 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// we send the object to the gossipers
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since the check above
+		if c.IsMalicious(gossip_obj) {
+			obj_1 := c.GetObject(gossip_obj.GetID(), gossip_obj.Type)
+			Handle_Gossip_object(c, c.Generate_CON_INIT(obj_1, gossip_obj))
+		}
 		return
 	}
 	c.Send_to_Gossipers(gossip_obj)
-- 
2.43.0


From d26e6f6e267973cc104b520f50356b779b2e649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 05/36] fix: wiping and saving the gossiper storage no longer
 races with the request handlers

---
 gossiper/Interface.go       | 119 ++++++++++++++++++++++++++----------
 gossiper/gossiper_server.go |   3 +-
 2 files changed, 89 insertions(+), 33 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index 62d0dd6..a6a25f0 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -40,6 +40,13 @@ func countFragments(fragmentMap map[definition.Gossip_ID][]definition.Gossip_obj
 	return count
 }
 
+func (ctx *GossiperContext) setConvergeTime(converge_time *string, label string) {
+	ctx.Counter1_lock.Lock()
+	*converge_time = util.GetCurrentSecond()
+	fmt.Println(util.BLUE, label, *converge_time, util.RESET)
+	ctx.Counter1_lock.Unlock()
+}
+
 func (ctx *GossiperContext) SavePayload(g definition.Gossip_object) {
 	err := g.Verify(ctx.Gossiper_crypto_config)
 	if err != nil {
@@ -79,28 +86,52 @@ func (ctx *GossiperContext) GetREVrequested(gid definition.Gossip_ID) definition
 
 func (ctx *GossiperContext) Save() {
 	Period, _ := strconv.Atoi(util.GetCurrentPeriod())
+	storage := ctx.Gossip_object_storage
+	ctx.Counter1_lock.Lock()
 	g_log_entry := Gossiper_log_entry{
 		Period:                 Period,
 		Converge_time:          ctx.Converge_time,
 		Converge_time_init:     ctx.Converge_time_init,
 		Total_traffic_received: ctx.Total_traffic_received,
-		Total_traffic_sent:     ctx.Total_traffic_sent,
-		NUM_STH_INIT:           len(ctx.Gossip_object_storage.STH_INIT),
-		NUM_REV_INIT:           len(ctx.Gossip_object_storage.REV_INIT),
-		NUM_ACC_INIT:           len(ctx.Gossip_object_storage.ACC_INIT),
-		NUM_CON_INIT:           len(ctx.Gossip_object_storage.CON_INIT),
-		NUM_STH_FRAG:           0,
-		NUM_REV_FRAG:           0,
-		NUM_ACC_FRAG:           0,
-		NUM_STH_FULL:           len(ctx.Gossip_object_storage.STH_FULL),
-		NUM_REV_FULL:           len(ctx.Gossip_object_storage.REV_FULL),
-		NUM_ACC_FULL:           len(ctx.Gossip_object_storage.ACC_FULL),
-		NUM_BLACKLIST_PERM:     len(ctx.Gossip_blacklist.BLACKLIST_PERM),
 		Timerlist:              ctx.Timerlist,
 	}
-	g_log_entry.NUM_STH_FRAG = countFragments(ctx.Gossip_object_storage.STH_FRAG)
-	g_log_entry.NUM_REV_FRAG = countFragments(ctx.Gossip_object_storage.REV_FRAG)
-	g_log_entry.NUM_ACC_FRAG = countFragments(ctx.Gossip_object_storage.ACC_FRAG)
+	ctx.Counter1_lock.Unlock()
+	ctx.Counter2_lock.Lock()
+	g_log_entry.Total_traffic_sent = ctx.Total_traffic_sent
+	ctx.Counter2_lock.Unlock()
+	storage.STH_INIT_LOCK.RLock()
+	g_log_entry.NUM_STH_INIT = len(storage.STH_INIT)
+	storage.STH_INIT_LOCK.RUnlock()
+	storage.REV_INIT_LOCK.RLock()
+	g_log_entry.NUM_REV_INIT = len(storage.REV_INIT)
+	storage.REV_INIT_LOCK.RUnlock()
+	storage.ACC_INIT_LOCK.RLock()
+	g_log_entry.NUM_ACC_INIT = len(storage.ACC_INIT)
+	storage.ACC_INIT_LOCK.RUnlock()
+	storage.CON_INIT_LOCK.RLock()
+	g_log_entry.NUM_CON_INIT = len(storage.CON_INIT)
+	storage.CON_INIT_LOCK.RUnlock()
+	storage.STH_FULL_LOCK.RLock()
+	g_log_entry.NUM_STH_FULL = len(storage.STH_FULL)
+	storage.STH_FULL_LOCK.RUnlock()
+	storage.REV_FULL_LOCK.RLock()
+	g_log_entry.NUM_REV_FULL = len(storage.REV_FULL)
+	storage.REV_FULL_LOCK.RUnlock()
+	storage.ACC_FULL_LOCK.RLock()
+	g_log_entry.NUM_ACC_FULL = len(storage.ACC_FULL)
+	storage.ACC_FULL_LOCK.RUnlock()
+	storage.STH_FRAG_LOCK.RLock()
+	g_log_entry.NUM_STH_FRAG = countFragments(storage.STH_FRAG)
+	storage.STH_FRAG_LOCK.RUnlock()
+	storage.REV_FRAG_LOCK.RLock()
+	g_log_entry.NUM_REV_FRAG = countFragments(storage.REV_FRAG)
+	storage.REV_FRAG_LOCK.RUnlock()
+	storage.ACC_FRAG_LOCK.RLock()
+	g_log_entry.NUM_ACC_FRAG = countFragments(storage.ACC_FRAG)
+	storage.ACC_FRAG_LOCK.RUnlock()
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RLock()
+	g_log_entry.NUM_BLACKLIST_PERM = len(ctx.Gossip_blacklist.BLACKLIST_PERM)
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RUnlock()
 
 	// if not all entries are zero, log it
 	if g_log_entry.NUM_STH_INIT != 0 || g_log_entry.NUM_REV_INIT != 0 || g_log_entry.NUM_ACC_INIT != 0 || g_log_entry.NUM_CON_INIT != 0 ||
@@ -130,7 +161,9 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	}
 	clock := util.GetCurrentSecond()
 	clock_float, _ := strconv.ParseFloat(clock, 64)
+	ctx.Counter1_lock.Lock()
 	ctx.Timerlist = append(ctx.Timerlist, clock_float)
+	ctx.Counter1_lock.Unlock()
 	switch gossip_object.Type {
 	case definition.STH_INIT:
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Lock()
@@ -142,8 +175,7 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.setConvergeTime(&ctx.Converge_time_init, "INIT Converge time: ")
 		}
 	case definition.REV_INIT:
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Lock()
@@ -155,8 +187,7 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.setConvergeTime(&ctx.Converge_time_init, "INIT Converge time: ")
 		}
 	case definition.ACC_INIT:
 		ctx.Gossip_object_storage.ACC_INIT_LOCK.Lock()
@@ -168,8 +199,7 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		ctx.Gossip_object_storage.ACC_INIT[gossip_object.GetID()] = gossip_object
 		ctx.Gossip_object_storage.ACC_INIT_LOCK.Unlock()
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.setConvergeTime(&ctx.Converge_time_init, "INIT Converge time: ")
 		}
 	case definition.CON_INIT:
 		ctx.Gossip_object_storage.CON_INIT_LOCK.Lock()
@@ -187,8 +217,7 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 			ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.Unlock()
 		}
 		if ctx.IsInitConvergent() {
-			ctx.Converge_time_init = util.GetCurrentSecond()
-			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
+			ctx.setConvergeTime(&ctx.Converge_time_init, "INIT Converge time: ")
 		}
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
@@ -591,6 +620,8 @@ func (ctx *GossiperContext) IsConvergent() bool {
 	defer ctx.Gossip_object_storage.STH_FULL_LOCK.RUnlock()
 	ctx.Gossip_object_storage.ACC_FULL_LOCK.RLock()
 	defer ctx.Gossip_object_storage.ACC_FULL_LOCK.RUnlock()
+	ctx.Gossip_object_storage.CON_INIT_LOCK.RLock()
+	defer ctx.Gossip_object_storage.CON_INIT_LOCK.RUnlock()
 	count1 := len(ctx.Gossip_object_storage.REV_FULL)
 	count2 := len(ctx.Gossip_object_storage.STH_FULL)
 	count3 := len(ctx.Gossip_object_storage.ACC_FULL)
@@ -634,14 +665,40 @@ func (ctx *GossiperContext) IsMalicious(obj definition.Gossip_object) bool {
 }
 
 func (ctx *GossiperContext) WipeStorage() {
-	// clear all storage
-	CON_INIT := ctx.Gossip_object_storage.CON_INIT
-	*ctx.Gossip_object_storage = *InitializeGossipObjectStorage()
-	ctx.Gossip_object_storage.CON_INIT = CON_INIT
-	// clear all temperary blacklist
-	Blacklistperm := ctx.Gossip_blacklist.BLACKLIST_PERM
-	*ctx.Gossip_blacklist = *InitializeGossipBlacklist()
-	ctx.Gossip_blacklist.BLACKLIST_PERM = Blacklistperm
+	// clear all storage, the locks stay in place because they may be in use
+	storage := ctx.Gossip_object_storage
+	empty := InitializeGossipObjectStorage()
+	storage.STH_INIT_LOCK.Lock()
+	storage.STH_INIT = empty.STH_INIT
+	storage.STH_INIT_LOCK.Unlock()
+	storage.REV_INIT_LOCK.Lock()
+	storage.REV_INIT = empty.REV_INIT
+	storage.REV_INIT_LOCK.Unlock()
+	storage.ACC_INIT_LOCK.Lock()
+	storage.ACC_INIT = empty.ACC_INIT
+	storage.ACC_INIT_LOCK.Unlock()
+	storage.STH_FRAG_LOCK.Lock()
+	storage.STH_FRAG = empty.STH_FRAG
+	storage.STH_FRAG_LOCK.Unlock()
+	storage.REV_FRAG_LOCK.Lock()
+	storage.REV_FRAG = empty.REV_FRAG
+	storage.REV_FRAG_LOCK.Unlock()
+	storage.ACC_FRAG_LOCK.Lock()
+	storage.ACC_FRAG = empty.ACC_FRAG
+	storage.ACC_FRAG_LOCK.Unlock()
+	storage.STH_FULL_LOCK.Lock()
+	storage.STH_FULL = empty.STH_FULL
+	storage.STH_FULL_LOCK.Unlock()
+	storage.REV_FULL_LOCK.Lock()
+	storage.REV_FULL = empty.REV_FULL
+	storage.REV_FULL_LOCK.Unlock()
+	storage.ACC_FULL_LOCK.Lock()
+	storage.ACC_FULL = empty.ACC_FULL
+	storage.ACC_FULL_LOCK.Unlock()
+	storage.REV_PAYLOAD_LOCK.Lock()
+	storage.REV_PAYLOAD = empty.REV_PAYLOAD
+	storage.REV_PAYLOAD_LOCK.Unlock()
+	// CON_INIT and the permanent blacklist are kept
 	// clear all PoM counter and gossiper log
 }
 
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index c268f15..6567cf7 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -400,8 +400,7 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-		c.Converge_time = util.GetCurrentSecond()
-		fmt.Println(util.BLUE, "Converge time: ", c.Converge_time, util.RESET)
+		c.setConvergeTime(&c.Converge_time, "Converge time: ")
 	}
 
 	return
-- 
2.43.0


From c49bc692118b89d27f1074fbb96a9477f1b01c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 06/36] fix: CA and logger label the period after minute 59 and
 the first ten minutes like every other entity

---
 CA/server.go          | 21 ++++-----------------
 Logger/buildmerkle.go |  4 ++--
 Logger/server.go      |  3 ++-
 3 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 238c020..0e417dc 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -142,17 +142,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		c.Request_Count = c.Request_Count + 1
 		c.Request_Count_lock.Unlock()
 	}
-	Period := GetCurrentPeriod()
-	// convert string to int
-	periodnum, err := strconv.Atoi(Period)
-	if err != nil {
-	}
-	// convert int to string
-	// add a leading 0 if the string is only 1 digit
-	if periodnum < 10 {
-		Period = "0" + strconv.Itoa(periodnum)
-	}
-	Period = strconv.Itoa(periodnum)
+	Period := util.GetCurrentPeriod()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
@@ -408,14 +398,11 @@ func PeriodicTask(ctx *CAContext) {
 		periodnum, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		// add 1 to current period
-		periodnum = periodnum + 1
+		// add 1 to current period, the period after 59 is 00
+		periodnum = (periodnum + 1) % 60
 		// convert int to string
 		// add a leading 0 if the string is only 1 digit
-		if periodnum < 10 {
-			period = "0" + strconv.Itoa(periodnum)
-		}
-		period = strconv.Itoa(periodnum)
+		period = fmt.Sprintf("%02d", periodnum)
 		rev := Generate_Revocation(ctx, period, 0)
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 42fdaf2..d9567c6 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -4,7 +4,7 @@ import (
 	"crypto/x509"
 	"encoding/hex"
 	"encoding/json"
-	"strconv"
+	"fmt"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -40,7 +40,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	gossipSTH := definition.Gossip_object{
 		Application:   "CTng",
 		Type:          definition.STH_INIT,
-		Period:        strconv.Itoa(periodNum),
+		Period:        fmt.Sprintf("%02d", periodNum),
 		Signer:        string(ctx.Logger_private_config.Signer),
 		Timestamp:     STH1.Timestamp,
 		Signature:     [2]string{signature.String(), ""},
diff --git a/Logger/server.go b/Logger/server.go
index 18d5f2e..07f5396 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -214,7 +214,8 @@ func PeriodicTask(ctx *LoggerContext) {
 		periodint, err := strconv.Atoi(period)
 		if err != nil {
 		}
-		periodint = periodint + 1
+		// the period after 59 is 00
+		periodint = (periodint + 1) % 60
 		period = strconv.Itoa(periodint)
 		// add a leading zero if the period is less than 10
 		if periodint < 10 {
-- 
2.43.0


From 9561a7162c80863e25f9edac7e578c91e8e12778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:13 +0000
Subject: [PATCH 07/36] fix: a logger that received less than two
 precertificates in a period still publishes an STH

---
 Logger/server.go     |  6 +++++-
 crypto/MerkleTree.go | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 07f5396..b3d8f4f 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -228,7 +228,11 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
 		certlist2 := ctx.CurrentPrecertPool.GetCerts()
-		certlist2 = append(certlist2, certlist2[0])
+		if len(certlist2) > 0 {
+			certlist2 = append(certlist2, certlist2[0])
+		} else {
+			certlist2 = append(certlist2, x509.Certificate{})
+		}
 		fmt.Println("len of certlist2: ", len(certlist2))
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
diff --git a/crypto/MerkleTree.go b/crypto/MerkleTree.go
index 2332d0b..552bfd5 100644
--- a/crypto/MerkleTree.go
+++ b/crypto/MerkleTree.go
@@ -53,7 +53,22 @@ func GenerateDataBlocks(certs []x509.Certificate) (dataBlocks []merkletree.DataB
 }
 
 func GenerateMerkleTree(blocks []merkletree.DataBlock) (tree *merkletree.MerkleTree, error error) {
-	tree, error = merkletree.New(nil, blocks)
+	config := &merkletree.Config{}
+	// The library only builds trees with two or more blocks: the root of an empty tree is the hash of nothing,
+	// the root of a tree with one leaf is that leaf.
+	if len(blocks) == 0 {
+		root, err := GenerateSHA256(nil)
+		return &merkletree.MerkleTree{Config: config, Root: root}, err
+	}
+	if len(blocks) == 1 {
+		data, err := blocks[0].Serialize()
+		if err != nil {
+			return nil, err
+		}
+		leaf, err := GenerateSHA256(data)
+		return &merkletree.MerkleTree{Config: config, Root: leaf, Leaves: [][]byte{leaf}, Proofs: []*merkletree.Proof{{}}, NumLeaves: 1}, err
+	}
+	tree, error = merkletree.New(config, blocks)
 	return
 }
 
-- 
2.43.0


From c00e00ea34a4765b00c3ee583048e62248627b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:16 +0000
Subject: [PATCH 08/36] fix: Merkle trees and proofs of inclusion do not share
 one hash digest between goroutines

---
 crypto/MerkleTree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypto/MerkleTree.go b/crypto/MerkleTree.go
index 552bfd5..9804497 100644
--- a/crypto/MerkleTree.go
+++ b/crypto/MerkleTree.go
@@ -53,7 +53,8 @@ func GenerateDataBlocks(certs []x509.Certificate) (dataBlocks []merkletree.DataB
 }
 
 func GenerateMerkleTree(blocks []merkletree.DataBlock) (tree *merkletree.MerkleTree, error error) {
-	config := &merkletree.Config{}
+	// The default hash function of the library shares one digest, it is not safe for concurrent use
+	config := &merkletree.Config{HashFunc: GenerateSHA256}
 	// The library only builds trees with two or more blocks: the root of an empty tree is the hash of nothing,
 	// the root of a tree with one leaf is that leaf.
 	if len(blocks) == 0 {
@@ -82,6 +83,6 @@ func GeneratePOI(tree *merkletree.MerkleTree) (proofs []*merkletree.Proof) {
 }
 
 func VerifyPOI(rootHash []byte, poi *merkletree.Proof, cert x509.Certificate) (ok bool, err error) {
-	ok, err = merkletree.Verify(&Certblock{Content: cert}, poi, rootHash, nil)
+	ok, err = merkletree.Verify(&Certblock{Content: cert}, poi, rootHash, &merkletree.Config{HashFunc: GenerateSHA256})
 	return
 }
-- 
2.43.0


From 0681a543ad7fd962f41e825e74c6ab27b8e3d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:14 +0000
Subject: [PATCH 09/36] fix: revocations issued after the first period reach
 the monitors and the clients

---
 CA/CRV.go          |  7 +++++--
 CA/server.go       |  2 +-
 client/client.go   | 15 ++++++++-------
 monitor/monitor.go | 17 +++++++++--------
 monitor/types.go   |  2 +-
 5 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/CA/CRV.go b/CA/CRV.go
index 2c15353..c4f5f6f 100644
--- a/CA/CRV.go
+++ b/CA/CRV.go
@@ -94,8 +94,7 @@ func (crv *CRV) MassRevoke(ratio float64) {
 func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.Gossip_object {
 	// if REV_type == 1 generate a REV based on another Delta_CRV
 	// hash c.CRV.CRVcurrent
-	hashmsg, _ := c.CRV.CRV_current.MarshalBinary()
-	hash, _ := crypto.GenerateSHA256(hashmsg)
+	crv_signed := c.CRV.CRV_current
 	var hashmsgdelta []byte
 	// hash delta CRV
 	if REV_type == 0 {
@@ -114,7 +113,11 @@ func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.G
 		if err != nil {
 			panic(err)
 		}
+		// the other CRV contains the other delta
+		crv_signed = crv_signed.Union(&m2)
 	}
+	hashmsg, _ := crv_signed.MarshalBinary()
+	hash, _ := crypto.GenerateSHA256(hashmsg)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsgdelta)
 	// hash Period||hash CRVcurrent||hash delta CRV
 	hash_revocation, _ := crypto.GenerateSHA256([]byte(Period + string(hash) + string(hash_delta)))
diff --git a/CA/server.go b/CA/server.go
index 0e417dc..51e52d5 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -407,7 +407,7 @@ func PeriodicTask(ctx *CAContext) {
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
-		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current
+		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
diff --git a/client/client.go b/client/client.go
index f8054fa..ee82a30 100644
--- a/client/client.go
+++ b/client/client.go
@@ -100,12 +100,12 @@ func fetch(url string) ([]byte, error) {
 
 func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
-	CRV_old := ctx.CRV_database[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	CRV_new := dCRV
+	if CRV_old := ctx.CRV_database[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
-	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	// verify the SRH: the CA signs the CRV that results from the update
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
 	hash1, _ := crypto.GenerateSHA256(hashmsg1)
 	hash2, _ := crypto.GenerateSHA256(hashmsg2)
@@ -114,8 +114,9 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
-	if err != nil {
+	if err != nil || rsasig.ID != crypto.CTngID(CAID) {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
 	}
 	ca_publickey := ctx.Crypto.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
@@ -150,7 +151,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		if _, ok := ctx.CRV_database[key]; !ok {
 			ctx.CRV_database[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].Union(&DCRV)
+			ctx.CRV_database[key].InPlaceUnion(&DCRV)
 		}
 	}
 	ctx.CRV_DB_RWLock.Unlock()
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2b56a0e..f73b429 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -492,22 +492,23 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
-	CRV_old := ctx.Storage_CRV[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	CRV_new := dCRV
+	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
-	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	// verify the SRH: the CA signs the CRV that results from the update
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
-	hash_old, _ := crypto.GenerateSHA256(hashmsg1)
+	hash_new, _ := crypto.GenerateSHA256(hashmsg1)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsg2)
 
-	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_old) + string(hash_delta)))
+	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_new) + string(hash_delta)))
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
-	if err != nil {
+	if err != nil || rsasig.ID != crypto.CTngID(CAID) {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
 	}
 	ca_publickey := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
diff --git a/monitor/types.go b/monitor/types.go
index 8c537a1..a3550a8 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -255,7 +255,7 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 				c.CRV_lock.Unlock()
 			} else {
 				c.CRV_lock.Lock()
-				c.Storage_CRV[key].Union(&DCRV)
+				c.Storage_CRV[key].InPlaceUnion(&DCRV)
 				c.CRV_lock.Unlock()
 			}
 		}
-- 
2.43.0


From 5024d614029e2fa45eb415f4be99d0fa2d1049df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:16 +0000
Subject: [PATCH 10/36] fix: a malformed precertificate or an unreachable peer
 does not stop the logger or the CA

---
 CA/ca.go         | 3 ++-
 CA/server.go     | 3 ++-
 Logger/server.go | 7 ++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/CA/ca.go b/CA/ca.go
index 85ee8d5..08142f4 100644
--- a/CA/ca.go
+++ b/CA/ca.go
@@ -197,7 +197,8 @@ func Marshall_Signed_PreCert(precert *x509.Certificate) []byte {
 func Unmarshall_Signed_PreCert(precert []byte) *x509.Certificate {
 	cert, err := x509.ParseCertificate(precert)
 	if err != nil {
-		log.Fatalf("Failed to parse certificate: %v", err)
+		fmt.Println("Failed to parse certificate: ", err)
+		return nil
 	}
 	return cert
 }
diff --git a/CA/server.go b/CA/server.go
index 51e52d5..cd1a21c 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -261,8 +261,9 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 	resp, err := c.Client.Post(PROTOCOL+logger+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
 	if err != nil {
 		fmt.Println("Failed to send precert to loggers: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 // send a signed precert to all loggers
diff --git a/Logger/server.go b/Logger/server.go
index b3d8f4f..90c20c5 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -119,6 +119,10 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 	}
 	// Parse the DER-encoded certificate
 	cert_ca = CA.Unmarshall_Signed_PreCert(body)
+	if cert_ca == nil {
+		http.Error(w, "Invalid precertificate", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
@@ -154,8 +158,9 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	resp, err := c.Client.Post(PROTOCOL+ca+"/CA/receive-poi", "application/json", bytes.NewBuffer(poi_json))
 	if err != nil {
 		fmt.Println("Failed to send POI to CA: ", err)
+	} else {
+		defer resp.Body.Close()
 	}
-	defer resp.Body.Close()
 }
 
 func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, roothash []byte) {
-- 
2.43.0


From c259e57e87056ab9f6463fea7273af57e6cc36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 11/36] fix: the CA only embeds logger information it has
 verified

---
 CA/server.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index cd1a21c..25986ac 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -206,13 +206,15 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&gossip_sth)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("STH received from logger: ", gossip_sth.Signer)
 	// Verify the STH
 	err = gossip_sth.Verify(c.CA_crypto_config)
-	if err != nil {
-		panic(err)
+	if err != nil || gossip_sth.Type != definition.STH_INIT {
+		http.Error(w, "Invalid STH", http.StatusBadRequest)
+		return
 	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
@@ -229,12 +231,24 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&poi)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
 	// Get the STH of the logger
-	sth := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Lock()
+	sth, ok := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Unlock()
+	if !ok {
+		http.Error(w, "No STH from this logger", http.StatusBadRequest)
+		return
+	}
+	roothash, err := definition.ExtractRootHash(sth)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
 	//fmt.Println("sth: ", sth, c.STH_storage)
 	// Construct the logger info
 
@@ -242,13 +256,19 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		STH: sth,
 		POI: poi,
 	}
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
+		// the proof has to prove the inclusion of this certificate
+		pass, err := crypto.VerifyPOI(roothash, poi.Poi, *target_cert)
+		if err != nil || !pass {
+			http.Error(w, "Invalid POI", http.StatusBadRequest)
+			return
+		}
 		//fmt.Println(poi.SubjectKeyId)
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
-		c.Certpool_lock.Lock()
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-		c.Certpool_lock.Unlock()
 	}
 }
 
-- 
2.43.0


From 6f1e1bc049eefd8d2ef6386767661071b868d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:13 +0000
Subject: [PATCH 12/36] fix: CA and logger storage shared between the periodic
 task and the request handlers is protected

---
 CA/server.go     | 17 ++++++++++++++---
 Logger/server.go | 20 +++++++++++++++-----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 25986ac..73c24e1 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -135,12 +135,13 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	if c.Max_latency > 0 {
 		time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 	}
+	// the lock also protects the storage, which is updated by the periodic task
+	c.Request_Count_lock.Lock()
+	defer c.Request_Count_lock.Unlock()
 	req_count := 1
 	if c.CA_Type != 0 {
-		c.Request_Count_lock.Lock()
 		req_count = c.Request_Count + 1
 		c.Request_Count = c.Request_Count + 1
-		c.Request_Count_lock.Unlock()
 	}
 	Period := util.GetCurrentPeriod()
 	switch c.CA_Type {
@@ -303,6 +304,8 @@ func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, log
 }
 
 func wipeSTHstorage(c *CAContext) {
+	c.STH_storage_lock.Lock()
+	defer c.STH_storage_lock.Unlock()
 	for k := range c.STH_storage {
 		delete(c.STH_storage, k)
 	}
@@ -375,7 +378,9 @@ func PeriodicTask(ctx *CAContext) {
 	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
+		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
 		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
@@ -383,7 +388,9 @@ func PeriodicTask(ctx *CAContext) {
 	f1 := func() {
 		// want to see if the STHs and POIs are updated
 		var certlist []x509.Certificate
+		ctx.Certpool_lock.Lock()
 		certlist = ctx.CurrentCertificatePool.GetCerts()
+		ctx.Certpool_lock.Unlock()
 		for i := 0; i < len(certlist); i++ {
 			//var ctngexts []CTngExtension
 			//ctngexts = GetCTngExtensions(&certlist[i])
@@ -429,9 +436,11 @@ func PeriodicTask(ctx *CAContext) {
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
 		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
+		ctx.Request_Count_lock.Lock()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
-		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
+		ctx.Request_Count_lock.Unlock()
+		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(rev.Payload, fake_rev.Payload))
 		//fmt.Println(ctx.REV_storage_fake[period].Verify(ctx.CA_crypto_config))
 		//fmt.Println(ctx.REV_storage[period].Verify(ctx.CA_crypto_config))
 		fmt.Println("CA Finished Generating Revocation for next period")
@@ -442,7 +451,9 @@ func PeriodicTask(ctx *CAContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
+		ctx.Certpool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
 }
diff --git a/Logger/server.go b/Logger/server.go
index 90c20c5..20bde21 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -170,6 +170,9 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
 			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
+			if precert == nil {
+				continue
+			}
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
 				fmt.Println("POI verification failed: ", err)
@@ -227,12 +230,17 @@ func PeriodicTask(ctx *LoggerContext) {
 			period = "0" + period
 		}
 		// update STH
-		certlist := ctx.CurrentPrecertPool.GetCerts()
+		// take the precertificates of this period, the ones that arrive from now on belong to the next STH
+		ctx.CertPool_lock.Lock()
+		precertPool := ctx.CurrentPrecertPool
+		ctx.CurrentPrecertPool = crypto.NewCertPool()
+		ctx.CertPool_lock.Unlock()
+		certlist := precertPool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
-		certlist2 := ctx.CurrentPrecertPool.GetCerts()
+		certlist2 := append([]x509.Certificate{}, certlist...)
 		if len(certlist2) > 0 {
 			certlist2 = append(certlist2, certlist2[0])
 		} else {
@@ -242,23 +250,25 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
+		ctx.Request_Count_lock.Lock()
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
+		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
 			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
 		}
 		// send POI to the Issuer CA
-		Send_POIs_to_CAs(ctx, POIs, sth)
+		snapshot := *ctx
+		snapshot.CurrentPrecertPool = precertPool
+		Send_POIs_to_CAs(&snapshot, POIs, sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool
-		ctx.CurrentPrecertPool = crypto.NewCertPool()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 2bfe0cfe8569ef2473f3083205388f2651a710ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 13/36] fix: a monitor recognises a conflict PoM in every
 period, not only in period 0

---
 monitor/monitor.go |  7 +------
 monitor/types.go   | 28 +++++++++++++++-------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index f73b429..fbfbe80 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -380,12 +380,7 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
-	GID2 := definition.Gossip_ID{
-		Period:     "0",
-		Type:       definition.CON_INIT,
-		Entity_URL: Accused,
-	}
-	if _, ok := (*c.Storage_CONFLICT_POM)[GID2]; ok {
+	if c.HasConflictPOM(Accused) {
 		fmt.Println(util.BLUE + "Entity has Conflict_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
diff --git a/monitor/types.go b/monitor/types.go
index a3550a8..8b80290 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -85,26 +85,28 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	}
 	return 0
 }
+
+// A conflict PoM holds against the entity no matter in which period it was found
+func (c *MonitorContext) HasConflictPOM(entity string) bool {
+	c.CONFLICT_POM_lock.RLock()
+	defer c.CONFLICT_POM_lock.RUnlock()
+	for key := range *c.Storage_CONFLICT_POM {
+		if key.Entity_URL == entity {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *MonitorContext) Clean_Conflicting_Object() {
-	GID := definition.Gossip_ID{}
 	for key := range *c.Storage_STH_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPOM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
 	for key := range *c.Storage_REV_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPOM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
-- 
2.43.0


From 9341e523216f6a210c33c50fc24cd608c37f3402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:33 +0000
Subject: [PATCH 14/36] fix: a monitor only stores gossip objects that verify

---
 monitor/monitor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index fbfbe80..3cac8e8 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -46,6 +46,13 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 	r.Body.Close()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	// Anyone can reach this endpoint: only verified objects are stored and passed on to the clients
+	if err = gossip_obj.Verify(c.Monitor_crypto_config); err != nil {
+		fmt.Println("received invalid object from " + util.GetSenderURL(r) + ".")
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
-- 
2.43.0


From 4ce81da516ac4e1902c4848bdd716560d16585a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 15/36] fix: a PoM that reaches the monitor after the update of
 its period is published in the next update

---
 monitor/monitor.go |  1 +
 monitor/types.go   | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3cac8e8..f94bb50 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -463,6 +463,7 @@ func PeriodicTasks(c *MonitorContext) {
 		c.Clean_Conflicting_Object()
 		c.WipeStorage()
 		update := GenerateUpdate(c)
+		c.WipePublishedPOMs(update)
 		current, _ := strconv.Atoi(util.GetCurrentPeriod())
 		offsetint, _ := strconv.Atoi(c.Period_Offset)
 		PeriodIO := strconv.Itoa(current - offsetint)
diff --git a/monitor/types.go b/monitor/types.go
index 8b80290..4284967 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -285,17 +285,18 @@ func (c *MonitorContext) WipeStorage() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
-	for key := range *c.Storage_CONFLICT_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_CONFLICT_POM_DELTA, key)
-		}
+	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
+}
+
+// The delta PoMs are kept until they were part of an update:
+// a PoM that arrives after the update of its period goes into the next one
+func (c *MonitorContext) WipePublishedPOMs(update ClientUpdate) {
+	for _, o := range update.POM_CONs {
+		delete(*c.Storage_CONFLICT_POM_DELTA, o.GetID())
 	}
-	for key := range *c.Storage_ACCUSATION_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
-		}
+	for _, o := range update.POM_ACCs {
+		delete(*c.Storage_ACCUSATION_POM_DELTA, o.GetID())
 	}
-	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
 func (c *MonitorContext) InitializeMonitorStorage(filepath string) {
-- 
2.43.0


From 8ccc5ce18763f6afc43d36d921a902775ff1a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:18 +0000
Subject: [PATCH 16/36] fix: monitor storage shared between the periodic task
 and the request handlers is protected

---
 monitor/monitor.go | 19 ++++++++++++++++++-
 monitor/types.go   | 28 ++++++++++++++++++++++------
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index f94bb50..c13ae05 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -330,14 +330,18 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 				Type:       definition.STH_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		} else if Entity_type == "ca" {
 			GID = definition.Gossip_ID{
 				Period:     util.GetCurrentPeriod(),
 				Type:       definition.REV_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		}
 		if Check_entity_pom(c, Accused) == false && !ok {
 			AccuseEntity(c, Accused)
@@ -383,7 +387,10 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		Type:       definition.ACC_FULL,
 		Entity_URL: Accused,
 	}
-	if _, ok := (*c.Storage_ACCUSATION_POM)[GID]; ok {
+	c.ACCUSATION_POM_lock.RLock()
+	_, ok := (*c.Storage_ACCUSATION_POM)[GID]
+	c.ACCUSATION_POM_lock.RUnlock()
+	if ok {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
@@ -417,18 +424,26 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
+	c.STH_FULL_lock.RUnlock()
+	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
+	c.REV_FULL_lock.RUnlock()
+	c.CONFLICT_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
 	}
+	c.CONFLICT_POM_lock.RUnlock()
+	c.ACCUSATION_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
 	}
+	c.ACCUSATION_POM_lock.RUnlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
@@ -496,9 +511,11 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
 	CRV_new := dCRV
+	ctx.CRV_lock.Lock()
 	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
 		CRV_new = CRV_old.Union(dCRV)
 	}
+	ctx.CRV_lock.Unlock()
 	// verify the SRH: the CA signs the CRV that results from the update
 	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
diff --git a/monitor/types.go b/monitor/types.go
index 4284967..180c3f9 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -99,12 +99,16 @@ func (c *MonitorContext) HasConflictPOM(entity string) bool {
 }
 
 func (c *MonitorContext) Clean_Conflicting_Object() {
+	c.STH_FULL_lock.Lock()
+	defer c.STH_FULL_lock.Unlock()
 	for key := range *c.Storage_STH_FULL {
 		if c.HasConflictPOM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Lock()
+	defer c.REV_FULL_lock.Unlock()
 	for key := range *c.Storage_REV_FULL {
 		if c.HasConflictPOM(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
@@ -123,11 +127,13 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
+	c.CRV_lock.Lock()
 	for key, value := range c.Storage_CRV {
 		crvbin, _ := value.MarshalBinary()
 		crvstorage[key], _ = util.CompressData(crvbin)
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
+	c.CRV_lock.Unlock()
 	util.WriteData(c.StorageFile_CRV, crvstorage)
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
@@ -221,15 +227,15 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
 		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		c.CONFLICT_POM_lock.Unlock()
 		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
 		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		c.ACCUSATION_POM_lock.Unlock()
 		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
 		c.STH_FULL_lock.Lock()
@@ -251,52 +257,62 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		//Update CRV
 		// look for CRV first
 		f := func() {
+			c.CRV_lock.Lock()
 			if _, ok := c.Storage_CRV[key]; !ok {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key] = &DCRV
-				c.CRV_lock.Unlock()
 			} else {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key].InPlaceUnion(&DCRV)
-				c.CRV_lock.Unlock()
 			}
+			c.CRV_lock.Unlock()
 		}
 		time.AfterFunc(20*time.Second, f)
 		fmt.Println(util.BLUE, "REV_FULL Stored", util.RESET)
 	default:
+		c.TEMP_lock.Lock()
 		(*c.Storage_TEMP)[o.GetID()] = o
+		c.TEMP_lock.Unlock()
 	}
 
 }
 
 // wipe all temp data
 func (c *MonitorContext) WipeStorage() {
+	c.TEMP_lock.Lock()
 	for key := range *c.Storage_TEMP {
 		delete(*c.Storage_TEMP, key)
 	}
+	c.TEMP_lock.Unlock()
 	// we can clear All STH and REV storage, because we will write them to file at the end of the period
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
 // The delta PoMs are kept until they were part of an update:
 // a PoM that arrives after the update of its period goes into the next one
 func (c *MonitorContext) WipePublishedPOMs(update ClientUpdate) {
+	c.CONFLICT_POM_lock.Lock()
 	for _, o := range update.POM_CONs {
 		delete(*c.Storage_CONFLICT_POM_DELTA, o.GetID())
 	}
+	c.CONFLICT_POM_lock.Unlock()
+	c.ACCUSATION_POM_lock.Lock()
 	for _, o := range update.POM_ACCs {
 		delete(*c.Storage_ACCUSATION_POM_DELTA, o.GetID())
 	}
+	c.ACCUSATION_POM_lock.Unlock()
 }
 
 func (c *MonitorContext) InitializeMonitorStorage(filepath string) {
-- 
2.43.0


From 1c69daf3beea6402f873ae42c4ee8474e227d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:38 +0000
Subject: [PATCH 17/36] fix: a rejected update does not leave the client
 databases locked

---
 client/client.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index ee82a30..85db1bb 100644
--- a/client/client.go
+++ b/client/client.go
@@ -130,6 +130,7 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 
 func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool, newmonitor bool) bool {
 	ctx.CRV_DB_RWLock.Lock()
+	defer ctx.CRV_DB_RWLock.Unlock()
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
@@ -154,8 +155,8 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			ctx.CRV_database[key].InPlaceUnion(&DCRV)
 		}
 	}
-	ctx.CRV_DB_RWLock.Unlock()
 	ctx.STH_DB_RWLock.Lock()
+	defer ctx.STH_DB_RWLock.Unlock()
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
@@ -178,8 +179,8 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		// look for STH first
 		ctx.STH_database[key] = newrecord
 	}
-	ctx.STH_DB_RWLock.Unlock()
 	ctx.POM_DB_RWLock.Lock()
+	defer ctx.POM_DB_RWLock.Unlock()
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
@@ -204,11 +205,17 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		key := pom.Payload[0]
 		ctx.POM_database[key] = pom
 	}
-	ctx.POM_DB_RWLock.Unlock()
 	return true
 }
 
 func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
+	// same order as in HandleUpdate
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	var CTngext CA.CTngExtension
 	CTngext = CA.ParseCTngextension(cert)
 	var total int
-- 
2.43.0


From a7272f909fdc9dadd1137a4f8dafe1dae3ebbf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:40 +0000
Subject: [PATCH 18/36] fix: the client only takes threshold signed STHs,
 revocations and accusations, and conflict PoMs, from an update

---
 client/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 85db1bb..9265440 100644
--- a/client/client.go
+++ b/client/client.go
@@ -134,7 +134,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || rev.Type != definition.REV_FULL {
 				fmt.Println("REV verification failed")
 				return false
 			}
@@ -160,7 +160,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || sth.Type != definition.STH_FULL {
 				fmt.Println("sth verification failed")
 				return false
 			}
@@ -184,7 +184,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.ACC_FULL {
 				fmt.Println("pom verification failed")
 				return false
 			}
@@ -196,7 +196,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_CONs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.CON_INIT {
 				fmt.Println("pom verification failed")
 				return false
 			}
-- 
2.43.0


From 9c57a9015aebc2d47a77b55387eb318f2a8e0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:42 +0000
Subject: [PATCH 19/36] fix: the client rejects certificates of an issuer
 without revocation information and STHs that are not from a logger itself

---
 client/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 9265440..055c033 100644
--- a/client/client.go
+++ b/client/client.go
@@ -225,12 +225,12 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	Precert := util.ParseTBSCertificate(cert)
 	for _, loggerinfo := range CTngext.LoggerInformation {
 		// if logger is blacklisted already
-		if _, ok := ctx.POM_database[loggerinfo.STH.Signer]; ok {
+		if _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {
 			fmt.Println("Logger is blacklisted")
 			faulty_logger++
 		} else {
 			err := loggerinfo.STH.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || loggerinfo.STH.Type != definition.STH_INIT {
 				fmt.Println("Cert logger STH verification failed")
 				faulty_logger++
 			} else {
@@ -271,6 +271,10 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 
 	RID := CA.GetRIDfromCert(cert)
 	CRV_to_check := ctx.CRV_database[cert.Issuer.CommonName]
+	if CRV_to_check == nil {
+		fmt.Println("No revocation information from the issuer")
+		return false
+	}
 	if CRV_to_check.Test(uint(RID)) {
 		fmt.Println("Certificate has been revoked")
 		return false
-- 
2.43.0


From 1189f1ff5156b4b0e25ca90670211df3f727d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:45 +0000
Subject: [PATCH 20/36] fix: a client that is not new loads its PoM database

---
 client/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/types.go b/client/types.go
index f16cb50..0d4ca44 100644
--- a/client/types.go
+++ b/client/types.go
@@ -64,7 +64,7 @@ func LoadSTHDatabase(ctx *ClientContext) {
 		ctx.STH_database = make(map[string]string)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.STH_database)
+	err = json.Unmarshal(databyte, &ctx.STH_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -94,7 +94,7 @@ func LoadPoMdatabase(ctx *ClientContext) {
 		ctx.POM_database = make(map[string]definition.Gossip_object)
 		return
 	}
-	json.Unmarshal(databyte, &ctx.POM_database)
+	err = json.Unmarshal(databyte, &ctx.POM_database)
 	if err != nil {
 		log.Fatal(err)
 	}
@@ -131,5 +131,6 @@ func (ctx *ClientContext) InitializeClientContext() {
 	if ctx.Status != "NEW" {
 		LoadSTHDatabase(ctx)
 		LoadCRVDatabase(ctx)
+		LoadPoMdatabase(ctx)
 	}
 }
-- 
2.43.0


From 6ce1f97f913382b849561832ec2abf85ba858aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:47 +0000
Subject: [PATCH 21/36] fix: the monitor answers update requests with the
 update, and with an error if there is none

---
 monitor/client-update-monitor.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 30fe80d..1a5d934 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"strconv"
 
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
@@ -45,12 +46,20 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 	err := json.NewDecoder(r.Body).Decode(&periodnum)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	if _, err = strconv.Atoi(periodnum); err != nil {
+		http.Error(w, "Invalid period", http.StatusBadRequest)
+		return
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-	ctupdate, _ := PrepareClientUpdate(c, filepath)
+	ctupdate, err := PrepareClientUpdate(c, filepath)
+	if err != nil {
+		http.Error(w, "No update for this period", http.StatusNotFound)
+		return
+	}
 	fmt.Println(ctupdate.Period)
-	msg, _ := json.Marshal(ctupdate)
-	json.NewEncoder(w).Encode(msg)
+	json.NewEncoder(w).Encode(ctupdate)
 	fmt.Println("Update request Processed")
 }
-- 
2.43.0


From bed208df3594fe0ac73bda4a7ba6fa72ef868121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 22/36] fix: IP mapping keeps the address of every logger, CA
 and monitor consistent, and all configs are written below the given path

---
 Gen/Gen.go       |  8 ++++----
 Gen/IPmapping.go | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Gen/Gen.go b/Gen/Gen.go
index ae4f649..c2d6679 100644
--- a/Gen/Gen.go
+++ b/Gen/Gen.go
@@ -325,7 +325,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate CA crypto config map
 	ca_crypto_config_map = GenerateCryptoconfig_map(Total, num_ca, Threshold, "CA")
 	// Create CA directory
-	os.Mkdir("ca_testconfig", 0777)
+	os.MkdirAll(config_path+"ca_testconfig", 0777)
 	// Generate Logger public config map
 	logger_public_config := GenerateLogger_public_config(L_list, C_list, MMD, MMD, []string{"1.1"})
 	// Generate Logger private config map
@@ -333,7 +333,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Logger crypto config map
 	logger_crypto_config_map = GenerateCryptoconfig_map(Total, num_logger, Threshold, "Logger")
 	// Create Logger directory
-	os.Mkdir("logger_testconfig", 0777)
+	os.MkdirAll(config_path+"logger_testconfig", 0777)
 	// write all CA public config, private config, crypto config to file
 	for i := 0; i < num_ca; i++ {
 		// create a new folder for each CA if not exist
@@ -373,7 +373,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Monitor crypto config map
 	monitor_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Monitor")
 	// Create Monitor directory
-	os.Mkdir("monitor_testconfig", 0777)
+	os.MkdirAll(config_path+"monitor_testconfig", 0777)
 	// write all Monitor public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Monitor
@@ -399,7 +399,7 @@ func Generateall(num_gossiper int, Threshold int, num_logger int, num_ca int, nu
 	// Generate Gossiper crypto config map
 	gossiper_crypto_config_map = GenerateCryptoconfig_map(Total, Total, Threshold, "Gossiper")
 	// Create Gossiper directory
-	os.Mkdir("gossiper_testconfig", 0777)
+	os.MkdirAll(config_path+"gossiper_testconfig", 0777)
 	// write all Gossiper public config, private config, crypto config to file
 	for i := 0; i < num_gossiper; i++ {
 		// create a new folder for each Gossiper
diff --git a/Gen/IPmapping.go b/Gen/IPmapping.go
index 1625c0e..9a9524f 100644
--- a/Gen/IPmapping.go
+++ b/Gen/IPmapping.go
@@ -245,7 +245,7 @@ func Map_local_to_Gossiper_IP_priv_config(priv_config_path string, ip_json_confi
 		gossiper_priv_config.Connected_Gossipers[index] = new_dest
 	}
 	semicolon_and_port_1 := gossiper_priv_config.Owner_URL[len(gossiper_priv_config.Owner_URL)-5:]
-	gossiper_priv_config.Owner_URL = ip_json_config.Gossiper_ip_map[MID-1] + semicolon_and_port_1
+	gossiper_priv_config.Owner_URL = ip_json_config.Monitor_ip_map[MID-1] + semicolon_and_port_1
 	fmt.Println("gossiper_priv_config.Owner_URL: ", gossiper_priv_config.Owner_URL)
 	util.WriteData(priv_config_path, gossiper_priv_config)
 }
@@ -262,8 +262,10 @@ func Map_local_to_CA_IP_priv_config(priv_config_path string, ip_json_config IP_J
 	for index, logger := range ca_priv_config.Loggerlist {
 		//change localhost to actual IP
 		//take the data out and slice out the last 5 characters
+		//the CA only uses some of the loggers: the logger is given by the last 3 characters of the port number
+		sindex, _ := strconv.Atoi(logger[len(logger)-3:])
 		semicolon_and_port := logger[len(logger)-5:]
-		new_dest := ip_json_config.Logger_ip_map[MID-1] + semicolon_and_port
+		new_dest := ip_json_config.Logger_ip_map[sindex] + semicolon_and_port
 		ca_priv_config.Loggerlist[index] = new_dest
 	}
 	// iterate over MonitorList
@@ -293,6 +295,14 @@ func Map_local_to_Logger_IP_priv_config(priv_config_path string, ip_json_config
 	new_dest_1 := logger_ip + semicolon_and_port_1
 	logger_priv_config.Signer = new_dest_1
 	fmt.Println("logger_priv_config.Signer: ", logger_priv_config.Signer)
+	// iterate over CAlist
+	for index, ca := range logger_priv_config.CAlist {
+		//change localhost to actual IP
+		//take the data out and slice out the last 5 characters
+		semicolon_and_port := ca[len(ca)-5:]
+		new_dest := ip_json_config.CA_ip_map[index] + semicolon_and_port
+		logger_priv_config.CAlist[index] = new_dest
+	}
 	// iterate over MonitorList
 	for index, monitor := range logger_priv_config.Monitorlist {
 		//change localhost to actual IP
-- 
2.43.0


From 50585c9e48f67afc0da6e1e2d7ec5007cd2329eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 23/36] fix: certificates of the same subject with different
 keys are not dropped from a certificate pool

---
 crypto/certpool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/certpool.go b/crypto/certpool.go
index dd95625..6c77fd2 100644
--- a/crypto/certpool.go
+++ b/crypto/certpool.go
@@ -5,6 +5,7 @@ package crypto
 
 import (
 	//"CTng/gossip"
+	"bytes"
 	"encoding/pem"
 	"fmt"
 
@@ -71,7 +72,8 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 
 	candidates := s.byName[string(cert.RawSubject)]
 	for _, c := range candidates {
-		if s.certs[c].Equal(cert) {
+		// a TBS certificate has no raw content to compare
+		if s.certs[c].Equal(cert) && bytes.Equal(s.certs[c].SubjectKeyId, cert.SubjectKeyId) {
 			return true
 		}
 	}
-- 
2.43.0


From ab2b8114a3a0193d34a6bad8a2791e1b32a88657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:37 +0000
Subject: [PATCH 24/36] fix: a gossiper only endorses accusations of its own
 monitor

---
 gossiper/gossiper_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 6567cf7..cfaff30 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -302,6 +302,10 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 }
 
 func Handle_ACC_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
+	// an accusation counts once per monitor: every gossiper speaks for its own monitor only
+	if gossip_obj.Signer != c.Gossiper_private_config.Owner_URL {
+		return
+	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), definition.ACC_FULL)
 	if icount > 0 {
 		// we already have the full object, we just ignore the init
-- 
2.43.0


From cace2741dafb6e42bc2634d9b503039ecb608467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:18 +0000
Subject: [PATCH 25/36] fix: final certificates keep the host names of their
 precertificates

---
 util/IO.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/IO.go b/util/IO.go
index d6c304c..0a85628 100644
--- a/util/IO.go
+++ b/util/IO.go
@@ -188,6 +188,8 @@ func ParseTBSCertificate(cert *x509.Certificate) *x509.Certificate {
 		RawSubject:            cert.RawSubject,
 		Issuer:                cert.Issuer,
 		PublicKey:             cert.PublicKey,
+		DNSNames:              cert.DNSNames,
+		IPAddresses:           cert.IPAddresses,
 	}
 }
 
-- 
2.43.0


From 90175c20f3ce6c136888a85bb619fd042073c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:20 +0000
Subject: [PATCH 26/36] fix: a crypto config that cannot be parsed is reported
 as an error

---
 crypto/crypto_IO.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto_IO.go b/crypto/crypto_IO.go
index 50be549..64b9c3a 100644
--- a/crypto/crypto_IO.go
+++ b/crypto/crypto_IO.go
@@ -81,7 +81,10 @@ func SaveCryptoFiles(directory string, configs []CryptoConfig) error {
 func ReadCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
@@ -92,7 +95,10 @@ func ReadCryptoConfig(file string) (*CryptoConfig, error) {
 func ReadVerifyOnlyCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
@@ -104,7 +110,10 @@ func ReadVerifyOnlyCryptoConfig(file string) (*CryptoConfig, error) {
 func ReadBasicCryptoConfig(file string) (*CryptoConfig, error) {
 	scc := new(StoredCryptoConfig)
 	bytes, err := util.ReadByte(file)
-	json.Unmarshal(bytes, scc)
+	if err != nil {
+		return nil, err
+	}
+	err = json.Unmarshal(bytes, scc)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ca4d4ca5a9753b3326fce1ed8e568b02339317ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:48 +0000
Subject: [PATCH 27/36] fix: the second revocation of a split-world CA differs
 from the first, whatever is revoked

---
 CA/CRV.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CA/CRV.go b/CA/CRV.go
index c4f5f6f..4f14652 100644
--- a/CA/CRV.go
+++ b/CA/CRV.go
@@ -108,7 +108,12 @@ func Generate_Revocation(c *CAContext, Period string, REV_type int) definition.G
 		if err != nil {
 			panic(err)
 		}
-		m2.Set(1 + uint(c.OnlineDuration))
+		// the other delta revokes one more certificate, one that is not revoked yet
+		extra := 1 + uint(c.OnlineDuration)
+		for crv_signed.Test(extra) || m2.Test(extra) {
+			extra++
+		}
+		m2.Set(extra)
 		hashmsgdelta, err = m2.MarshalBinary()
 		if err != nil {
 			panic(err)
-- 
2.43.0


From d777f17ea91ad4488e6a63be49d9666e3530064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:47 +0000
Subject: [PATCH 28/36] fix: a statement is only accepted under the one label
 of its period

---
 definition/Verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 12c557e..1b04975 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -78,8 +78,8 @@ func verifyFields(g Gossip_object, c *crypto.CryptoConfig) error {
 			if kind == "STH" {
 				period = (period + 1) % 60
 			}
-			objPeriod, err := strconv.Atoi(g.Period)
-			if err != nil || objPeriod != period {
+			// There is one label per period: objects are stored and compared by it.
+			if g.Period != fmt.Sprintf("%02d", period) {
 				return errors.New(Mislabel)
 			}
 		}
-- 
2.43.0


From cb1a0e11c135d0a67fd0d01e0404cafd662935d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:45 +0000
Subject: [PATCH 29/36] fix: certificates of the same subject and key by
 different CAs are not dropped from a certificate pool

---
 crypto/certpool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/certpool.go b/crypto/certpool.go
index 6c77fd2..da87bed 100644
--- a/crypto/certpool.go
+++ b/crypto/certpool.go
@@ -73,7 +73,7 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 	candidates := s.byName[string(cert.RawSubject)]
 	for _, c := range candidates {
 		// a TBS certificate has no raw content to compare
-		if s.certs[c].Equal(cert) && bytes.Equal(s.certs[c].SubjectKeyId, cert.SubjectKeyId) {
+		if s.certs[c].Equal(cert) && bytes.Equal(s.certs[c].SubjectKeyId, cert.SubjectKeyId) && s.certs[c].Issuer.String() == cert.Issuer.String() {
 			return true
 		}
 	}
-- 
2.43.0


From 7f85ff10d8092cdd2ce9076a05b6817a0bb70565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 30/36] fix: a logger only takes precertificates that a known
 CA has signed

---
 Logger/Types.go  | 2 +-
 Logger/server.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Logger/Types.go b/Logger/Types.go
index e1696e3..5b936e5 100644
--- a/Logger/Types.go
+++ b/Logger/Types.go
@@ -69,7 +69,7 @@ func inList(item string, list []string) bool {
 	return false
 }
 
-func Verifyprecert(precert x509.Certificate, ctx LoggerContext) bool {
+func Verifyprecert(precert x509.Certificate, ctx *LoggerContext) bool {
 	issuer := precert.Issuer.CommonName
 	//check if issuer is in CAlist
 	if !inList(issuer, ctx.Logger_private_config.CAlist) {
diff --git a/Logger/server.go b/Logger/server.go
index 20bde21..0cd5ceb 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -123,6 +123,11 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		http.Error(w, "Invalid precertificate", http.StatusBadRequest)
 		return
 	}
+	// only the known CAs may log their precertificates
+	if !Verifyprecert(*cert_ca, c) {
+		http.Error(w, "Precertificate not signed by a known CA", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
-- 
2.43.0


From be0aeb41e5fe8ba41b86e8a0b53cb746de0ce8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 31/36] fix: precertificates for the same key all get their
 proofs of inclusion

---
 Logger/server.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 0cd5ceb..3038f57 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -174,14 +174,16 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 		// create POI, using merkle node.ProofofInclusion and node.SubjectKeyId
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
-			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
-			if precert == nil {
-				continue
+			// several precerts may have the same key
+			pass := false
+			for _, precert := range c.CurrentPrecertPool.GetCertList() {
+				if bytes.Equal(precert.SubjectKeyId, POIs[i].SubjectKeyId) && !pass {
+					pass, _ = crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
+				}
 			}
-			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
-			if err != nil || pass == false {
-				fmt.Println("POI verification failed: ", err)
-				return
+			if !pass {
+				fmt.Println("POI verification failed")
+				continue
 			}
 			// Get the Issuer CA
 			ca := POIs[i].Issuer
-- 
2.43.0


From b186e904bc235c56df915f28ae89ef80f9daa358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:13 +0000
Subject: [PATCH 32/36] fix: the logger closes a period on a copy of its
 context taken under the lock of the request handlers

---
 Logger/server.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 3038f57..2e1c8db 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -242,10 +242,15 @@ func PeriodicTask(ctx *LoggerContext) {
 		precertPool := ctx.CurrentPrecertPool
 		ctx.CurrentPrecertPool = crypto.NewCertPool()
 		ctx.CertPool_lock.Unlock()
+		// the request handlers update the context while the period is closed, so it is copied under their lock
+		ctx.Request_Count_lock.Lock()
+		snapshot := *ctx
+		ctx.Request_Count_lock.Unlock()
+		snapshot.CurrentPrecertPool = precertPool
 		certlist := precertPool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
-		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
+		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, snapshot, periodint)
 		// duplicate the STH for testing
 		certlist2 := append([]x509.Certificate{}, certlist...)
 		if len(certlist2) > 0 {
@@ -254,7 +259,7 @@ func PeriodicTask(ctx *LoggerContext) {
 			certlist2 = append(certlist2, x509.Certificate{})
 		}
 		fmt.Println("len of certlist2: ", len(certlist2))
-		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
+		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, snapshot, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
 		ctx.Request_Count_lock.Lock()
@@ -267,8 +272,6 @@ func PeriodicTask(ctx *LoggerContext) {
 			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
 		}
 		// send POI to the Issuer CA
-		snapshot := *ctx
-		snapshot.CurrentPrecertPool = precertPool
 		Send_POIs_to_CAs(&snapshot, POIs, sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
-- 
2.43.0


From a774cfccda400cbe6de86ccd6549fec5f6097785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:13 +0000
Subject: [PATCH 33/36] fix: signing the certificates of a period is protected
 like the other uses of the pool

---
 CA/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index 73c24e1..addbc32 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -314,8 +314,10 @@ func wipeSTHstorage(c *CAContext) {
 func SignAllCerts(c *CAContext) []*x509.Certificate {
 	root := c.Rootcert
 	priv := c.CA_crypto_config.SignSecretKey
+	c.Certpool_lock.Lock()
 	certs := c.CurrentCertificatePool.GetCertList()
 	tbscerts := UpdateAllforSigning(certs)
+	c.Certpool_lock.Unlock()
 	var signed_certs []*x509.Certificate
 	for i := 0; i < len(tbscerts); i++ {
 		cert := tbscerts[i]
-- 
2.43.0


From 11d4b3e1422a1f317983df6db3d90c8cb93ff648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:27 +0000
Subject: [PATCH 34/36] fix: a PoM delivered again while the update is made is
 not published twice

---
 monitor/types.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/monitor/types.go b/monitor/types.go
index 180c3f9..55ca625 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -226,15 +226,21 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		c.TEMP_lock.Unlock()
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
-		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		// another delivery of the same PoM may have been stored, and even published, since it was checked
+		if !reflect.DeepEqual((*c.Storage_CONFLICT_POM)[o.GetID()], o) {
+			(*c.Storage_CONFLICT_POM)[o.GetID()] = o
+			(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		}
 		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
-		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		// another delivery of the same PoM may have been stored, and even published, since it was checked
+		if !reflect.DeepEqual((*c.Storage_ACCUSATION_POM)[o.GetID()], o) {
+			(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
+			(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		}
 		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
-- 
2.43.0


From 585d638cad48b001573e96cc94231e21e1632700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:01 +0000
Subject: [PATCH 35/36] fix: decode the tree head before reading its root hash
 in the client

---
 client/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/parser.go b/client/parser.go
index a041fbe..e186675 100644
--- a/client/parser.go
+++ b/client/parser.go
@@ -1,6 +1,7 @@
 package client
 
 import (
+	"encoding/hex"
 	"encoding/json"
 	"fmt"
 
@@ -33,9 +34,14 @@ func GetRootHash(data MonitorData) []string {
 
 	// Iterate over each REV
 	for _, sth := range data {
-		// Parse the payload field in the REV as a map
+		// Parse the (hex-encoded) payload field in the STH as a map
 		var payload map[string]any
-		err := json.Unmarshal([]byte(sth.Payload[1]), &payload)
+		sthBytes, err := hex.DecodeString(sth.Payload[1])
+		if err != nil {
+			fmt.Println(err)
+			return out
+		}
+		err = json.Unmarshal(sthBytes, &payload)
 		if err != nil {
 			// fmt.Println(payload)
 			fmt.Println(err)
-- 
2.43.0


From f3b9d5741db83c4a4ccc667b23cdc6cfc99f1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 36/36] fix: a client does not start with a damaged revocation
 vector

---
 client/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/types.go b/client/types.go
index 0d4ca44..0d41fe2 100644
--- a/client/types.go
+++ b/client/types.go
@@ -83,7 +83,10 @@ func LoadCRVDatabase(ctx *ClientContext) {
 	}
 	for key, value := range crvstorage {
 		var crv_entry bitset.BitSet
-		crv_entry.UnmarshalBinary(value)
+		err = crv_entry.UnmarshalBinary(value)
+		if err != nil {
+			log.Fatal(err)
+		}
 		ctx.CRV_database[key] = &crv_entry
 	}
 }
-- 
2.43.0

