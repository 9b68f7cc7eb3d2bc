From ce6e7455ad4de0ff2f05338725d3d0300296cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 01/10] fix: reject commitment openings whose salt is not
 HashSizeByte long

The salt is hashed directly before the committed data, so an opening with a
longer or shorter salt moves the boundary between them and opens the same
commitment to a different value.
---
 crypto/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/util.go b/crypto/util.go
index ccb8944..240af2d 100644
--- a/crypto/util.go
+++ b/crypto/util.go
@@ -71,5 +71,8 @@ func NewCommit(stuff ...[]byte) (*Commit, error) {
 // Verify verifies that the underlying commit c was a commit to the passed
 // byte slices stuff (which won't be mutated).
 func (c *Commit) Verify(stuff ...[]byte) bool {
-	return bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
+	// a salt of another length would let the boundary between the salt
+	// and stuff be moved, i.e. open c to different values
+	return len(c.Salt) == HashSizeByte &&
+		bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
 }
-- 
2.43.0


From 14a65e2f68f5067c8848b8a42aa2c1b04dfa5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 02/10] fix: reject malformed authentication paths in Verify

Verify crashed on paths with a missing leaf or commitment or with a level
beyond the index or the pruned tree, and accepted an empty leaf as a proof of
inclusion of any value, because the value is not part of an empty leaf's hash.
Fields of unchecked length also let the bytes hashed for a node be split up
differently.
---
 merkletree/proof.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 5514c93..dd66b37 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -97,6 +97,31 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 	return hash
 }
 
+// checkFormat rejects paths no tree produces: the lengths of the hashed
+// fields have to be fixed for the recomputed root to determine them.
+func (ap *AuthenticationPath) checkFormat() error {
+	leaf := ap.Leaf
+	if leaf == nil || uint64(leaf.Level) > uint64(len(ap.LookupIndex))*8 {
+		return ErrIndicesMismatch
+	}
+	if leaf.IsEmpty {
+		if len(leaf.Index) != (int(leaf.Level)+7)/8 {
+			return ErrIndicesMismatch
+		}
+	} else {
+		if len(leaf.Index) != len(ap.LookupIndex) {
+			return ErrIndicesMismatch
+		}
+		if leaf.Commitment == nil || len(leaf.Commitment.Value) != crypto.HashSizeByte {
+			return ErrUnverifiableCommitment
+		}
+	}
+	if len(ap.TreeNonce) > crypto.HashSizeByte || len(ap.PrunedTree) != int(leaf.Level) {
+		return ErrUnequalTreeHashes
+	}
+	return nil
+}
+
 // Verify first compares the lookup index with the leaf index.
 // It expects the lookup index and the leaf index match in the
 // first l bits with l is the Level of the proof node if ap is
@@ -108,6 +133,9 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 //
 // This should be called after the VRF index is verified successfully.
 func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
+	if err := ap.checkFormat(); err != nil {
+		return err
+	}
 	if ap.ProofType() == ProofOfAbsence {
 		// Check if i and j match in the first l bits
 		indexBits := utils.ToBits(ap.Leaf.Index)
@@ -144,7 +172,7 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 // method called, memoizing the proof type for subsequent calls.
 func (ap *AuthenticationPath) ProofType() ProofType {
 	if ap.proofType == undeterminedProof {
-		if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
+		if !ap.Leaf.IsEmpty && bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
 			ap.proofType = ProofOfInclusion
 		} else {
 			ap.proofType = ProofOfAbsence
-- 
2.43.0


From 07c5acc7f31a1ef030d8723a1c2c87b29bffb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 03/10] fix: GetSTRHistory reports evicted epochs instead of
 crashing

---
 protocol/directory/directory.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 3412bc4..66f44a7 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -323,6 +323,8 @@ func (d *ConiksDirectory) Monitor(req *protocol.MonitoringRequest) *protocol.Res
 // and endEpoch are the epoch range endpoints indicated in the client's
 // request. If req.endEpoch is greater than d.LatestSTR().Epoch,
 // the end of the range will be set to d.LatestSTR().Epoch.
+// If the STR for any epoch of the range is no longer in memory,
+// GetSTRHistory() returns a message.NewErrorResponse(ErrDirectory).
 func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protocol.Response {
 	// make sure the request is well-formed
 	if req.StartEpoch > d.LatestSTR().Epoch ||
@@ -337,8 +339,12 @@ func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protoc
 
 	var strs []*protocol.DirSTR
 	for ep := req.StartEpoch; ep <= endEp; ep++ {
-		str := protocol.NewDirSTR(d.pad.GetSTR(ep))
-		strs = append(strs, str)
+		str := d.pad.GetSTR(ep)
+		if str == nil {
+			// the STR has been evicted from memory
+			return protocol.NewErrorResponse(protocol.ErrDirectory)
+		}
+		strs = append(strs, protocol.NewDirSTR(str))
 	}
 
 	return protocol.NewSTRHistoryRange(strs)
-- 
2.43.0


From 810b064c44a1903d56459586a8a1d4b3c080fc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 04/10] fix: reject answers and tree roots with missing parts

A decoded response or STR range may hold null entries; Validate and the
auditor dereferenced them.
---
 protocol/auditor/auditor.go |  6 +++++-
 protocol/message.go         | 20 ++++++++++++++++++--
 protocol/str.go             |  6 ++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/protocol/auditor/auditor.go b/protocol/auditor/auditor.go
index d6e2f0b..e1b1920 100644
--- a/protocol/auditor/auditor.go
+++ b/protocol/auditor/auditor.go
@@ -87,6 +87,10 @@ func (a *AudState) verifySTRConsistency(prevSTR, str *protocol.DirSTR) error {
 // or str's epoch is anything other than the same or one ahead of
 // a.verifiedSTR.
 func (a *AudState) CheckSTRAgainstVerified(str *protocol.DirSTR) error {
+	if !str.IsComplete() {
+		return protocol.ErrMalformedMessage
+	}
+
 	// FIXME: check whether the STR was issued on time and whatnot.
 	// Maybe it has something to do w/ #81 and client
 	// transitioning between epochs.
@@ -117,7 +121,7 @@ func (a *AudState) VerifySTRRange(prevSTR *protocol.DirSTR, strs []*protocol.Dir
 	prev := prevSTR
 	for i := 0; i < len(strs); i++ {
 		str := strs[i]
-		if str == nil {
+		if !str.IsComplete() {
 			return protocol.ErrMalformedMessage
 		}
 
diff --git a/protocol/message.go b/protocol/message.go
index bafc86a..574dea8 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -278,12 +278,17 @@ func (msg *Response) Validate() error {
 	}
 	switch df := msg.DirectoryResponse.(type) {
 	case *DirectoryProof:
-		if len(df.STR) == 0 || len(df.AP) == 0 {
+		if df == nil || !completeSTRs(df.STR) || len(df.AP) == 0 {
 			return ErrMalformedMessage
 		}
+		for _, ap := range df.AP {
+			if ap == nil || ap.Leaf == nil {
+				return ErrMalformedMessage
+			}
+		}
 		return nil
 	case *STRHistoryRange:
-		if len(df.STR) == 0 {
+		if df == nil || !completeSTRs(df.STR) {
 			return ErrMalformedMessage
 		}
 		return nil
@@ -292,6 +297,17 @@ func (msg *Response) Validate() error {
 	}
 }
 
+// completeSTRs returns true if strs isn't empty and no STR lacks
+// any of its parts.
+func completeSTRs(strs []*DirSTR) bool {
+	for _, str := range strs {
+		if !str.IsComplete() {
+			return false
+		}
+	}
+	return len(strs) > 0
+}
+
 // GetKey returns the key extracted from
 // a validated CONIKS directory's response.
 //
diff --git a/protocol/str.go b/protocol/str.go
index db92f96..5bfca70 100644
--- a/protocol/str.go
+++ b/protocol/str.go
@@ -17,6 +17,12 @@ func NewDirSTR(str *merkletree.SignedTreeRoot) *DirSTR {
 	}
 }
 
+// IsComplete reports whether str has all of its parts. A DirSTR decoded
+// from a message may lack any of them.
+func (str *DirSTR) IsComplete() bool {
+	return str != nil && str.SignedTreeRoot != nil && str.Policies != nil
+}
+
 // Serialize overrides merkletree.SignedTreeRoot.Serialize
 func (str *DirSTR) Serialize() []byte {
 	return append(str.SerializeInternal(), str.Policies.Serialize()...)
-- 
2.43.0


From 419ca8cb3572143d819c659b5ac7dccde1cc0b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 05/10] fix: a directory proof is no STR history range

CheckEquivocation and Audit panicked on it.
---
 protocol/auditlog/auditlog.go        | 5 ++++-
 protocol/client/consistencychecks.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index bbcd50d..b4bc2c5 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -72,7 +72,10 @@ func (h *directoryHistory) Audit(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// audit the STRs
 	// if strs.STR is somehow malformed or invalid (e.g. strs.STR
diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5e2c124..1816d5f 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -70,7 +70,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
-- 
2.43.0


From d0a0e551872a1ac90e60fc311a28040cedbf1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 06/10] fix: record the verified key of a response

GetKey always returned nil, so that clients never recorded the key they
verified and accepted any key in later responses.
---
 protocol/client/consistencychecks.go | 19 ++++++++++++-------
 protocol/message.go                  | 21 +++++++++++++++++++--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 1816d5f..03ab136 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -109,7 +109,14 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	}
 	switch requestType {
 	case protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
-		if _, ok := msg.DirectoryResponse.(*protocol.DirectoryProof); !ok {
+		df, ok := msg.DirectoryResponse.(*protocol.DirectoryProof)
+		if !ok {
+			return protocol.ErrMalformedMessage
+		}
+		// the response to a registration or a key lookup
+		// is about a single epoch
+		if (requestType == protocol.RegistrationType || requestType == protocol.KeyLookupType) &&
+			(len(df.AP) != 1 || len(df.STR) != 1) {
 			return protocol.ErrMalformedMessage
 		}
 	default:
@@ -124,8 +131,10 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
 		return err
 	}
-	recvKey, _ := msg.GetKey()
-	cc.Bindings[uname] = recvKey
+	// a response which proves that there is no binding has no key
+	if recvKey, err := msg.GetKey(); err == nil {
+		cc.Bindings[uname] = recvKey
+	}
 	return nil
 }
 
@@ -168,8 +177,6 @@ func (cc *ConsistencyChecks) checkConsistency(requestType int, msg *protocol.Res
 func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
 	ap := df.AP[0]
 	str := df.STR[0]
 
@@ -188,8 +195,6 @@ func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 func (cc *ConsistencyChecks) verifyKeyLookup(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
 	ap := df.AP[0]
 	str := df.STR[0]
 
diff --git a/protocol/message.go b/protocol/message.go
index 574dea8..b197b3f 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -318,7 +318,24 @@ func completeSTRs(strs []*DirSTR) bool {
 // If the response contains a range of authentication paths,
 // the key is obtained from the authentication path corresponding
 // to the most recent signed tree root.
-// FIXME: remove this obsolete function
+//
+// GetKey() returns an error if the response doesn't contain a key.
 func (msg *Response) GetKey() ([]byte, error) {
-	return nil, nil
+	if err := msg.Validate(); err != nil {
+		return nil, err
+	}
+	df, ok := msg.DirectoryResponse.(*DirectoryProof)
+	if !ok {
+		return nil, ErrMalformedMessage
+	}
+	ap := df.AP[len(df.AP)-1]
+	switch {
+	case ap.ProofType() == merkletree.ProofOfInclusion:
+		return ap.Leaf.Value, nil
+	case msg.Error == ReqNameNotFound:
+		return nil, msg.Error
+	case df.TB != nil:
+		return df.TB.Value, nil
+	}
+	return nil, ErrMalformedMessage
 }
-- 
2.43.0


From 973d0b07ed4c1f2fab5f661a94dc668f11626c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 07/10] fix: report promises that are broken or replaced

A client which held a temporary binding accepted that the name is absent
from a later epoch, or another temporary binding in its place.
---
 protocol/client/consistencychecks.go | 43 ++++++++++++++++++----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 03ab136..68f7ffd 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -246,32 +246,30 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 		return nil
 	}
 	switch requestType {
-	case protocol.RegistrationType:
-		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-		if df.AP[0].ProofType() == merkletree.ProofOfAbsence {
-			if err := cc.verifyReturnedPromise(df, key); err != nil {
-				return err
-			}
-			cc.TBs[uname] = df.TB
-		}
-		return nil
-
-	case protocol.KeyLookupType:
+	case protocol.RegistrationType, protocol.KeyLookupType:
 		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
 		ap := df.AP[0]
 		str := df.STR[0]
-		proofType := ap.ProofType()
 		switch {
-		case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfInclusion:
+		case ap.ProofType() == merkletree.ProofOfInclusion:
 			if err := cc.verifyFulfilledPromise(uname, str, ap); err != nil {
 				return err
 			}
 			delete(cc.TBs, uname)
 
-		case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfAbsence:
+		case msg.Error == protocol.ReqNameNotFound:
+			// the directory promised to include this name
+			if _, ok := cc.TBs[uname]; ok {
+				return protocol.CheckBrokenPromise
+			}
+
+		default:
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
+			if err := cc.verifyPendingPromise(uname, str, df.TB); err != nil {
+				return err
+			}
 			cc.TBs[uname] = df.TB
 		}
 
@@ -285,7 +283,6 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 // in the directory as promised.
 func (cc *ConsistencyChecks) verifyFulfilledPromise(uname string, str *protocol.DirSTR,
 	ap *merkletree.AuthenticationPath) error {
-	// FIXME: Which epoch did this lookup happen in?
 	if tb, ok := cc.TBs[uname]; ok {
 		if !bytes.Equal(ap.LookupIndex, tb.Index) ||
 			!bytes.Equal(ap.Leaf.Value, tb.Value) {
@@ -295,6 +292,22 @@ func (cc *ConsistencyChecks) verifyFulfilledPromise(uname string, str *protocol.
 	return nil
 }
 
+// verifyPendingPromise verifies that the directory still stands by
+// the TB it issued earlier, if it now returns the TB tb
+// along with a proof of absence for str's epoch: the earlier TB has to be
+// for the same epoch, and it has to be for the same binding.
+func (cc *ConsistencyChecks) verifyPendingPromise(uname string, str *protocol.DirSTR,
+	tb *protocol.TemporaryBinding) error {
+	if held, ok := cc.TBs[uname]; ok {
+		if !cc.Verify(held.Serialize(str.Signature), held.Signature) ||
+			!bytes.Equal(tb.Index, held.Index) ||
+			!bytes.Equal(tb.Value, held.Value) {
+			return protocol.CheckBrokenPromise
+		}
+	}
+	return nil
+}
+
 // verifyReturnedPromise validates a returned promise.
 // Note that the directory returns a promise iff the returned proof is
 // _a proof of absence_.
-- 
2.43.0


From e219b3864a6004fed90bd6742c796c9aec580293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 08/10] fix: time epochs by the deadline of the server's
 policies

The epoch timer was set from the unused EpochDeadline field of the
configuration, which is 0 for configurations written by 'coniksserver init',
and never followed a reloaded deadline.
---
 application/server/server.go | 8 ++++++--
 application/serverbase.go    | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/application/server/server.go b/application/server/server.go
index 89050e7..32a58a9 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -62,7 +62,7 @@ func NewConiksServer(conf *Config) *ConiksServer {
 			conf.Policies.signKey,
 			conf.LoadedHistoryLength,
 			true),
-		epochTimer: application.NewEpochTimer(conf.EpochDeadline),
+		epochTimer: application.NewEpochTimer(conf.Policies.EpochDeadline),
 	}
 
 	// save the initial STR to be used for initializing auditors
@@ -105,7 +105,11 @@ func (server *ConiksServer) HandleRequests(req *protocol.Request) *protocol.Resp
 // permissions.
 func (server *ConiksServer) Run(addrs []*Address) {
 	server.RunInBackground(func() {
-		server.EpochUpdate(server.epochTimer, server.dir.Update)
+		server.EpochUpdate(server.epochTimer, func() {
+			server.dir.Update()
+			// the deadline may have been reloaded
+			server.epochTimer.SetDeadline(server.dir.EpochDeadline())
+		})
 	})
 
 	hasRegistrationPerm := false
diff --git a/application/serverbase.go b/application/serverbase.go
index 76525db..4a6ddbb 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -30,6 +30,12 @@ func NewEpochTimer(epDeadline protocol.Timestamp) *EpochTimer {
 	}
 }
 
+// SetDeadline changes the epoch deadline to be used the next time
+// the timer is reset.
+func (t *EpochTimer) SetDeadline(epDeadline protocol.Timestamp) {
+	t.duration = time.Duration(epDeadline) * time.Second
+}
+
 // A ServerAddress describes a server's connection.
 // It supports two types of connections: a TCP connection ("tcp")
 // and a Unix socket connection ("unix").
-- 
2.43.0


From ef1b98cec9c2641a518b43a68c5859b0edfc35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 09/10] fix: refuse configurations and initial STRs with
 missing parts

A configuration without policies, logger or address, and an initial STR
file holding null or {}, crashed the process.
---
 application/config.go        |  3 +++
 application/server/config.go | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/application/config.go b/application/config.go
index 7cf46d8..cb52a64 100644
--- a/application/config.go
+++ b/application/config.go
@@ -80,6 +80,9 @@ func LoadInitSTR(path, file string) (*protocol.DirSTR, error) {
 	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
 		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
 	}
+	if !initSTR.IsComplete() {
+		return nil, fmt.Errorf("Cannot parse initial STR: incomplete STR")
+	}
 	if initSTR.Epoch != 0 {
 		return nil, fmt.Errorf("Initial STR epoch must be 0 (got %d)", initSTR.Epoch)
 	}
diff --git a/application/server/config.go b/application/server/config.go
index 3b363c0..374fc74 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -59,6 +59,18 @@ func (conf *Config) Load(file, encoding string) error {
 		return err
 	}
 
+	if conf.Policies == nil {
+		return fmt.Errorf("Missing policies in the config")
+	}
+	if conf.Logger == nil {
+		return fmt.Errorf("Missing logger in the config")
+	}
+	for _, addr := range conf.Addresses {
+		if addr == nil || addr.ServerAddress == nil {
+			return fmt.Errorf("Missing address in the config")
+		}
+	}
+
 	// load signing key
 	signPath := utils.ResolvePath(conf.Policies.SignKeyPath, file)
 	signKey, err := ioutil.ReadFile(signPath)
-- 
2.43.0


From dd70928873f42d93c11c25af38c7e5d6150aaf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:23 +0000
Subject: [PATCH 10/10] fix: report a malformed server address instead of
 crashing the client

url.Parse returns a nil URL along with its error, so a register or lookup
command with a malformed address in the configuration ended the client with
a nil pointer dereference.
---
 cli/coniksclient/internal/cmd/run.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/coniksclient/internal/cmd/run.go b/cli/coniksclient/internal/cmd/run.go
index 7531844..b181e41 100644
--- a/cli/coniksclient/internal/cmd/run.go
+++ b/cli/coniksclient/internal/cmd/run.go
@@ -120,7 +120,10 @@ func register(cc *client.ConsistencyChecks, conf *clientapp.Config, name string,
 		// fallback to conf.Address if empty
 		regAddress = conf.Address
 	}
-	u, _ := url.Parse(regAddress)
+	u, err := url.Parse(regAddress)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, regAddress)
@@ -173,7 +176,10 @@ func keyLookup(cc *client.ConsistencyChecks, conf *clientapp.Config, name string
 	}
 
 	var res []byte
-	u, _ := url.Parse(conf.Address)
+	u, err := url.Parse(conf.Address)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, conf.Address)
-- 
2.43.0

