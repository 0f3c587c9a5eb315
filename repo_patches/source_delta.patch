From 3b131f56a1284bae1780b731ebfedede7635a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 01/23] fix: sign with a fresh random nonce

Every signature was made with the nonce derived from the constant key
"example", so any signature together with its message revealed the
signer's private key.
---
 cmd/client/ClientLauncher.go    | 7 ++++---
 cmd/coordinator/Coordinator.go  | 2 +-
 cmd/server/AnonServerHandler.go | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..d6d11aa 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -11,6 +11,7 @@ import (
 	"zRep/proto"
 	"zRep/util"
 
+	"github.com/dedis/crypto/abstract"
 	"github.com/dedis/crypto/nist"
 	"github.com/dedis/crypto/random"
 
@@ -76,7 +77,7 @@ func postBridge(bridgeAddr string) {
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
 	byteMsg = append([]byte(bridgeAddr), byteNym...)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
@@ -136,7 +137,7 @@ func requestBridges(ind int) {
 
 	// sign message
 	byteMsg := bridge.MessageOfRequestBridges(params)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
@@ -224,7 +225,7 @@ func sendVote(msgID, feedback int) {
 	}
 	msg := bridge.MessageOfVote(params)
 	// sign this message
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, msg, dissentClient.PrivateKey, dissentClient.G)
 
 	// send to coordinator
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..8f12390 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -131,7 +131,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	rand := c.Suite.Cipher([]byte("example"))
+	rand := c.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
 	return sig
 }
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..c13eae7 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,7 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		rand := anonServer.Suite.Cipher([]byte("example"))
+		rand := anonServer.Suite.Cipher(abstract.RandomKey)
 		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
 		sigs = append(sigs, sig)
 	}
-- 
2.43.0


From 7166676dc0fe9b5e911965e5373fa8121c9b813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 02/23] fix: use the group's generator for server and
 coordinator signatures

Suite.Point() is the zero element: with it as base every commitment in
the signature was 0 whatever the key, so a signature verified under any
key and anybody could make one.
---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 2 +-
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..deef8e6 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -247,7 +247,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 8f12390..06357c8 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -132,7 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
 	rand := c.Suite.Cipher(abstract.RandomKey)
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..384f8a7 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -523,14 +523,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], nil)
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index c13eae7..ccb3961 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -386,7 +386,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
 		rand := anonServer.Suite.Cipher(abstract.RandomKey)
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 727bc2bddcba2aef0326ce1953073fc63f07552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 03/23] fix: use each honesty proof for one challenge only

All clients got the same proof commitments and every challenge on them
was answered. Answers to two different challenge bits on one commitment
differ by the secret exponent of a generator.
---
 cmd/coordinator/Coordinator.go         | 11 +++++++++--
 cmd/coordinator/CoordinatorHandler.go  | 14 ++++++++++++--
 cmd/coordinator/CoordinatorLauncher.go |  4 +---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 06357c8..d237048 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -27,6 +27,13 @@ type AssignmentSignatures struct {
 	Count int
 }
 
+// honesty proof of g1~g6 for one client. Answering two different challenges
+// on the same proof would reveal the exponents, so it is used only once.
+type HonestyProof struct {
+	Secret []*big.Int
+	Public []*big.Int
+}
+
 type ServerInfo struct {
 	Addr *net.TCPAddr
 	PublicKey abstract.Point
@@ -79,8 +86,8 @@ type Coordinator struct {
 	FujiOkamBase *fujiokam.FujiOkamBase
 	LRSBase *lrs.LRSBase
 
-	AllGnHonestyProofSecret []*big.Int
-	AllGnHonestyProofPublic []*big.Int
+	// honesty proofs sent to clients (by address) and not yet answered
+	HonestyProofs map[string]HonestyProof
 }
 
 // get last server in topology
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 384f8a7..f2a13db 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -231,6 +231,9 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	util.CheckErr(err)
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
+	// a fresh honesty proof for this client
+	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
+	anonCoordinator.HonestyProofs[addr.String()] = HonestyProof{Secret: prfSecret, Public: prfPublic}
 	pm := map[string]interface{}{
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -240,7 +243,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"g5": fujiokamBase.G5.ToBinary(),
 		"g6": fujiokamBase.G6.ToBinary(),
 		"h1": fujiokamBase.H1.ToBinary(),
-		"honesty_prf": util.ProtobufEncodeBigIntList(anonCoordinator.AllGnHonestyProofPublic),
+		"honesty_prf": util.ProtobufEncodeBigIntList(prfPublic),
 		// "h": byteHT,
 		"public_key": bytePublicKey,
 	}
@@ -255,7 +258,14 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 	challenge := util.ProtobufDecodeBoolList(params["honesty_chal"].([]byte))
 	fmt.Println("[debug] Received challenge, start answering...")
 	base := anonCoordinator.FujiOkamBase
-	answer := base.AnswerAllGnHonesty(challenge, anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic)
+	prf, ok := anonCoordinator.HonestyProofs[senderAddr.String()]
+	if !ok || len(challenge) != len(prf.Secret) {
+		fmt.Println("[note]** No unanswered honesty proof for this challenge")
+		return
+	}
+	// never answer a second challenge on the same proof
+	delete(anonCoordinator.HonestyProofs, senderAddr.String())
+	answer := base.AnswerAllGnHonesty(challenge, prf.Secret, prf.Public)
 
 	pm := map[string]interface{}{
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ef4da89..9e6431e 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -51,7 +51,6 @@ func initCoordinator() {
 	A := suite.Point().Mul(nil, a)
 	pedersenBase := pedersen.CreateMinimalBaseFromSuite(suite)
 	fujiokamBase := fujiokam.CreateBaseFromSuite(suite)
-	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
 
 	anonCoordinator = &Coordinator{
 		LocalAddr: CoordinatorAddr,
@@ -73,8 +72,7 @@ func initCoordinator() {
 		ReputationDiffMap: make(map[string]int),
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
-		AllGnHonestyProofSecret: prfSecret,
-		AllGnHonestyProofPublic: prfPublic,
+		HonestyProofs: make(map[string]HonestyProof),
 	}
 }
 
-- 
2.43.0


From f0e29d03dd080ec5c78947819fda70e60cf2cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 04/23] fix: bind commitrx in the challenge of the non-negative
 argument

commitrx was chosen freely after the challenge was known, so the
equation tying the argument to the committed value proved nothing and a
negative remainder could be proved non-negative.
---
 primitive/fujiokam/FujiOkamCommitment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..7798ebb 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -458,11 +458,12 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
 	commitrx, rrx := base.Commit(rx)
-	// e = hash(commitx, C, Cr)
+	// e = hash(commitx, C, Cr, commitrx)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
@@ -496,11 +497,12 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
-	// e := hash(commitx, C, Cr)
+	// e := hash(commitx, C, Cr, commitrx)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
-- 
2.43.0


From 9e96ab7d98209bc92e9b6c412a6423592cb17c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 05/23] fix: reject equality arguments for integers beyond the
 Pedersen group's order

A negative remainder d could be committed as the positive integer
d mod q, for which both the range and the equality argument hold.
---
 primitive/pedersen_fujiokam/equality.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c20c8a6..1958161 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -12,6 +12,10 @@ import (
 	// "fmt"
 )
 
+// how many bits s1 may be longer than the order of the Pedersen group. An
+// honest s1 is x*c + t1, where c has 256 bits and t1 is less than that order.
+const MAX_SLACK_BITS = 16
+
 type ARGequal struct {
 	C *big.Int
 	S1 *big.Int
@@ -81,6 +85,12 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 
 func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
+	// s1 must be small enough to be computed from a small x: otherwise the
+	// committed integer can be x + k*q, which equals a negative x modulo q.
+	q := pedersenBase.Suite.Secret().(*nist.Int).M
+	if arg.S1.Sign() < 0 || arg.S1.BitLen() > q.BitLen() + MAX_SLACK_BITS {
+		return false
+	}
 	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
 	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
 	c := BigIntToSecret(pedersenBase.Suite, arg.C)
-- 
2.43.0


From 19901e8a53dffc7f2fc3dfca4b4d1c5f41d494e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 06/23] fix: sign the sign of a vote

The signed message contained only the absolute value of the feedback, so
a vote could be inverted without invalidating its signature.
---
 cmd/bridge/bridge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..50258cf 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -119,8 +119,8 @@ func MessageOfVote(params map[string]interface{}) (msg []byte) {
 	msg = append(msg, params["assignment"].([]byte)...)
 	msg = append(msg, params["signatures"].([]byte)...)
 	feedback := params["feedback"].(int)
-	byteFeedback := big.NewInt(int64(feedback)).Bytes()
-	msg = append(msg, byteFeedback...)
+	// big.Int.Bytes() would drop the sign
+	msg = append(msg, util.IntToByte(feedback)...)
 	return
 }
 
-- 
2.43.0


From a50bdfbf8908c6c689dd7bcee1419f4d1aa453d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 07/23] fix: count one +1 or -1 vote per assignment, from its
 requester only

Feedback of any size was added, any registered client could vote with
somebody else's assignment, and a vote could be repeated.
---
 cmd/coordinator/Coordinator.go         |  2 ++
 cmd/coordinator/CoordinatorHandler.go  | 24 +++++++++++++++++++++++-
 cmd/coordinator/CoordinatorLauncher.go |  1 +
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index d237048..efc6600 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -73,6 +73,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// assignments that have been voted for in this round
+	VotedAssignments map[string]bool
 
 	Bridges map[string]BridgeInfo
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index f2a13db..dd4e329 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -525,11 +525,27 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 		return
 	}
 
+	// a vote is either 1 or -1
+	feedback := params["feedback"].(int)
+	if feedback != 1 && feedback != -1 {
+		fmt.Println("[note] Feedback is neither 1 nor -1")
+		return
+	}
+
 	// verify each server's signature
 	signatures := util.Decode2DByteArray(params["signatures"].([]byte))
 	byteAssignment := params["assignment"].([]byte)
 	assignment := bridge.DecodeAssignment(byteAssignment)
 	numServers := len(anonCoordinator.ServerList)
+	if len(signatures) != numServers + 1 {
+		fmt.Println("[note] Wrong number of signatures")
+		return
+	}
+	// only the client the bridge was assigned to can vote for it
+	if !assignment.NymR.Equal(nym) {
+		fmt.Println("[note] The bridge was assigned to another client")
+		return
+	}
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
@@ -547,9 +563,15 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 	fmt.Println("[debug] All servers' signatures check passed")
 
+	// count at most one vote for each assignment
+	if anonCoordinator.VotedAssignments[string(byteAssignment)] {
+		fmt.Println("[note] Duplicate vote")
+		return
+	}
+	anonCoordinator.VotedAssignments[string(byteAssignment)] = true
+
 	// record feedback
 	targetNym := assignment.Nym
-	feedback := params["feedback"].(int)
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 9e6431e..df1f8c7 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -101,6 +101,7 @@ func clearBuffer() {
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.VotedAssignments = make(map[string]bool)
 }
 
 /**
-- 
2.43.0


From b700921e895a8c1e19d6d0edcf7a8d3682b3648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 08/23] fix: keep running when a peer cannot be reached

---
 util/Util.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/util/Util.go b/util/Util.go
index b57f098..68473d8 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"log"
 
 	"github.com/dedis/crypto/abstract"
@@ -58,15 +59,22 @@ func Encode(event interface{}) []byte {
 	return network.Bytes()
 }
 
-func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
+// An unreachable peer is reported to the caller, it must not stop the sender.
+func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) error {
 	event.SrcAddr = laddr.String()
 	content := Encode(event)
 	// fmt.Fprintln(os.Stderr, "send size=", len(content))
 	conn, err := net.DialTCP("tcp", nil, raddr)
-	CheckErr(err)
+	if err != nil {
+		fmt.Println("[note]** Fails to connect to", raddr, ":", err)
+		return err
+	}
+	defer conn.Close()
 	_, err = conn.Write(content)
-	CheckErr(err)
-	conn.Close()
+	if err != nil {
+		fmt.Println("[note]** Fails to send to", raddr, ":", err)
+	}
+	return err
 }
 
 func DecodeEvent(content []byte) (*proto.Event, *net.TCPAddr) {
-- 
2.43.0


From 2d9d53cb0107b1917183c6501143e8886f973cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 09/23] fix: ignore malformed messages instead of stopping, and
 without partial changes

---
 cmd/coordinator/CoordinatorHandler.go  | 29 +++++++----------
 cmd/coordinator/CoordinatorLauncher.go | 18 +++++++++--
 cmd/server/AnonServerHandler.go        | 44 +++++++++++---------------
 cmd/server/ServerLauncher.go           | 18 +++++++++--
 util/Util.go                           | 23 ++++++++++----
 5 files changed, 79 insertions(+), 53 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index dd4e329..22da5f8 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -81,18 +81,19 @@ func handleAnnouncement(params map[string]interface{}) {
 	// 	anonCoordinator.Status = MESSAGE
 	// 	return
 	// }
+	// decode the whole message before changing anything
 	g := util.DecodePoint(anonCoordinator.Suite, params["g"].([]byte))
+	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
+	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
+	keyList, valList := util.ProtobufDecodePointTable(params["keys"].([]byte), params["vals"].([]byte))
+
 	anonCoordinator.LRSBase = lrs.CreateBase(util.PointToBigInt(g))
 
 	// update GT & HT
-	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
-	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	anonCoordinator.PedersenBase.GT = GT
 	anonCoordinator.PedersenBase.HT = HT
 
 	//construct Decrypted reputation map
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	anonCoordinator.EndingCommMap = make(map[string]abstract.Point)
 	anonCoordinator.EndingKeyMap = make(map[string]abstract.Point)
 	anonCoordinator.ReputationDiffMap = make(map[string]int)
@@ -130,8 +131,7 @@ func handleAnnouncement(params map[string]interface{}) {
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
 	// fetch server's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
 	lastServer := anonCoordinator.GetLastServerAddr()
 
@@ -172,16 +172,14 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 }
 
 func handleUpdatePedersenH(params map[string]interface{}) {
-	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
-	util.CheckErr(err)
+	anonCoordinator.PedersenBase.HT = util.DecodePoint(anonCoordinator.Suite, params["h"].([]byte))
 }
 
 // Handler for REGISTER event
 // send the register request to server to do encryption
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
 	// get client's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
@@ -212,9 +210,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 // handle client register successful event
 func handleClientRegisterServerSide(params map[string]interface{}) {
 	// get public key from params (it's one-time nym actually)
-	var nym = anonCoordinator.Suite.Point()
-	byteNym := params["public_key"].([]byte)
-	nym.UnmarshalBinary(byteNym)
+	nym := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
 	// get PComm
 	var PComm = anonCoordinator.Suite.Point()
@@ -634,8 +630,9 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 // send user round end notification
 func handleRoundEnd(params map[string]interface{}) {
 	// review reputation map
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	keyList, valList := util.ProtobufDecodePointTable(params["keys"].([]byte), params["vals"].([]byte))
+	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
+	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	anonCoordinator.BeginningCommMap = make(map[string]abstract.Point)
 	anonCoordinator.BeginningKeyMap = make(map[string]abstract.Point)
 	for i := 0; i < len(keyList); i++ {
@@ -644,8 +641,6 @@ func handleRoundEnd(params map[string]interface{}) {
 	}
 
 	// update GT & HT
-	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
-	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	anonCoordinator.PedersenBase.GT = GT
 	anonCoordinator.PedersenBase.HT = HT
 	// note: no need to tell clients yet
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index df1f8c7..1ad3bbf 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -34,11 +34,25 @@ func startServerListener(listener *net.TCPListener) {
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
 		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
-		Handle(buf.Bytes(), anonCoordinator)
+		conn.Close()
+		if err != nil {
+			fmt.Println("[note]** Fails to receive a message:", err)
+			continue
+		}
+		handleSafely(buf.Bytes())
 	}
 }
 
+// a malformed message is ignored, it must not stop the coordinator
+func handleSafely(buf []byte) {
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Ignore a malformed message:", err)
+		}
+	}()
+	Handle(buf, anonCoordinator)
+}
+
 /**
   * initialize coordinator
   */
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index ccb3961..ef7cbc8 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -64,8 +64,7 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		ybarList := util.ProtobufDecodePointList(params["ybar"].([]byte))
 		prevKeyList := util.ProtobufDecodePointList(params["prev_keys"].([]byte))
 		prevValList := util.ProtobufDecodePointList(params["prev_vals"].([]byte))
-		prePublicKey := anonServer.Suite.Point()
-		prePublicKey.UnmarshalBinary(params["public_key"].([]byte))
+		prePublicKey := util.DecodePoint(anonServer.Suite, params["public_key"].([]byte))
 
 		// verify the shuffle
 		verifier := shuffle.Verifier(anonServer.Suite, nil, prePublicKey, prevKeyList,
@@ -78,9 +77,8 @@ func verifyNeffShuffle(params map[string]interface{}) {
 }
 
 func handleRoundEnd(params map[string]interface{}) {
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
+	keyList, valList := util.ProtobufDecodePointTable(params["keys"].([]byte), params["vals"].([]byte))
 	size := len(keyList)
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	if _, ok := params["is_start"]; ok {
 		// The request is sent by coordinator
 	} else {
@@ -239,8 +237,7 @@ func handleUpdateNextHop(params map[string]interface{}) {
 
 func handleAnnouncement(params map[string]interface{}) {
 	var g abstract.Point = nil
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	keyList, valList := util.ProtobufDecodePointTable(params["keys"].([]byte), params["vals"].([]byte))
 	size := len(keyList)
 	GT := util.DecodePoint(anonServer.Suite, params["GT"].([]byte))
 	HT := util.DecodePoint(anonServer.Suite, params["HT"].([]byte))
@@ -253,9 +250,7 @@ func handleAnnouncement(params map[string]interface{}) {
 
 	if val, ok := params["g"]; ok {
 		// contains g
-		byteG := val.([]byte)
-		g = anonServer.Suite.Point()
-		g.UnmarshalBinary(byteG)
+		g = util.DecodePoint(anonServer.Suite, val.([]byte))
 		g = anonServer.Suite.Point().Mul(g, anonServer.Roundkey)
 		// verify the previous shuffle
 		verifyNeffShuffle(params)
@@ -337,17 +332,17 @@ func handleAnnouncement(params map[string]interface{}) {
 
 // handle announcement finalize, which receives parameters from coordinator
 func handleAnnouncementFinalize(params map[string]interface{}) {
+	// decode the whole message before changing anything
 	g := util.DecodePoint(anonServer.Suite, params["g"].([]byte))
-	
-	// update GT & HT
 	GT := util.DecodePoint(anonServer.Suite, params["GT"].([]byte))
 	HT := util.DecodePoint(anonServer.Suite, params["HT"].([]byte))
+	keyList, valList := util.ProtobufDecodePointTable(params["keys"].([]byte), params["vals"].([]byte))
+
+	// update GT & HT
 	anonServer.PedersenBase.GT = GT
 	anonServer.PedersenBase.HT = HT
 
 	//construct Decrypted reputation map
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	anonServer.EndingCommMap = make(map[string]abstract.Point)
 	anonServer.EndingKeyMap = make(map[string]abstract.Point)
 	// anonServer.ReputationDiffMap = make(map[string]int)
@@ -404,15 +399,6 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 // handle server register reply
 func handleServerRegisterReply(params map[string]interface{}, addr *net.TCPAddr) {
 	reply := params["reply"].(bool)
-	// store the address of previous hop
-	if val, ok := params["prev_server"]; ok {
-		ServerAddr, _ := net.ResolveTCPAddr("tcp",val.(string))
-		// we assume resolving TCP address never fails
-		anonServer.PreviousHop = ServerAddr
-	}
-	if reply {
-		anonServer.IsConnected = true
-	}
 
 	// setup fujiokam
 	N := new(big.Int).SetBytes(params["n"].([]byte))
@@ -424,12 +410,20 @@ func handleServerRegisterReply(params map[string]interface{}, addr *net.TCPAddr)
 	fujiokamBase.G5 = fujiokamBase.Point().FromBinary(params["g5"].([]byte))
 	fujiokamBase.G6 = fujiokamBase.Point().FromBinary(params["g6"].([]byte))
 	fujiokamBase.H1 = fujiokamBase.Point().FromBinary(params["h1"].([]byte))
+	h := util.DecodePoint(anonServer.Suite, params["h"].([]byte))
+
+	// store the address of previous hop
+	if val, ok := params["prev_server"]; ok {
+		ServerAddr, err := net.ResolveTCPAddr("tcp",val.(string))
+		util.CheckErr(err)
+		anonServer.PreviousHop = ServerAddr
+	}
 	anonServer.FujiOkamBase = fujiokamBase
+	if reply {
+		anonServer.IsConnected = true
+	}
 
 	// update h
-	h := anonServer.Suite.Point()
-	err := h.UnmarshalBinary(params["h"].([]byte))
-	util.CheckErr(err)
 	r := anonServer.Suite.Secret().Pick(random.Stream)
 	h.Mul(h, r)
 	// encode h
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index 83ce05c..0b6d209 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -46,11 +46,25 @@ func startAnonServerListener(listener *net.TCPListener) {
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
 		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
-		Handle(buf.Bytes(), anonServer)
+		conn.Close()
+		if err != nil {
+			fmt.Println("[note]** Fails to receive a message:", err)
+			continue
+		}
+		handleSafely(buf.Bytes())
 	}
 }
 
+// a malformed message is ignored, it must not stop the server
+func handleSafely(buf []byte) {
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Ignore a malformed message:", err)
+		}
+	}()
+	Handle(buf, anonServer)
+}
+
 /**
  * initialize anon server
  * set ip, port and encryption parameters
diff --git a/util/Util.go b/util/Util.go
index 68473d8..21b395b 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -6,7 +6,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
-	"log"
 
 	"github.com/dedis/crypto/abstract"
 
@@ -156,7 +155,7 @@ func ProtobufDecodeBigIntList(data []byte) []*big.Int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -181,7 +180,7 @@ func DecodeARGnonneg(data []byte) *fujiokam.ARGnonneg {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -206,7 +205,7 @@ func DecodeARGequal(data []byte) *pedersen_fujiokam.ARGequal {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -257,7 +256,7 @@ func DecodeIntArray(data []byte) []int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arr)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arr
 }
@@ -280,11 +279,21 @@ func ProtobufDecodePointList(bytes []byte) []abstract.Point {
 
 	var msg PointList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Points
 }
 
+// decode a table of keys and values, which must have the same size
+func ProtobufDecodePointTable(byteKeys, byteVals []byte) (keyList, valList []abstract.Point) {
+	keyList = ProtobufDecodePointList(byteKeys)
+	valList = ProtobufDecodePointList(byteVals)
+	if len(keyList) != len(valList) {
+		panic("keys and values do not match")
+	}
+	return
+}
+
 func ProtobufEncodeSecretList(plist []abstract.Secret) []byte {
 	byteNym, err := protobuf.Encode(&SecretList{plist})
 	if err != nil {
@@ -303,7 +312,7 @@ func ProtobufDecodeSecretList(bytes []byte) []abstract.Secret {
 
 	var msg SecretList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Secrets
 }
-- 
2.43.0


From 8a22d3586956246ed9ebaa12f973cdb4677c131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 10/23] fix: serialise the listeners' and the main loops' use
 of shared state

---
 cmd/client/ClientLauncher.go           | 16 +++++++++++++++-
 cmd/coordinator/CoordinatorLauncher.go | 24 ++++++++++++++++++++++--
 cmd/server/ServerLauncher.go           | 11 ++++++++++-
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index d6d11aa..d561a06 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"sync"
 
 	"zRep/proto"
 	"zRep/util"
@@ -30,6 +31,15 @@ import (
 // pointer to client itself
 var dissentClient  *DissentClient
 
+// protects the client, which both the listener and the main loop use
+var mutex sync.Mutex
+
+func getStatus() int {
+	mutex.Lock()
+	defer mutex.Unlock()
+	return dissentClient.Status
+}
+
 /**
   * register itself to controller
   */
@@ -56,7 +66,9 @@ func startClientListener(listener *net.TCPListener) {
 		util.CheckErr(err)
 		_, err = io.Copy(buf, conn)
 		util.CheckErr(err)
+		mutex.Lock()
 		Handle(buf.Bytes(), dissentClient) // a goroutine handles conn so that the loop can accept other connections
+		mutex.Unlock()
 	}
 }
 
@@ -311,7 +323,7 @@ func Launch() {
 	register()
 
 	// wait until register successful
-	for ; dissentClient.Status != MESSAGE ; {
+	for ; getStatus() != MESSAGE ; {
 		time.Sleep(500 * time.Millisecond)
 	}
 
@@ -322,6 +334,7 @@ func Launch() {
 		data, _, _ := reader.ReadLine()
 		command := string(data)
 		commands := strings.Split(command, " ")
+		mutex.Lock()
 		switch commands[0] {
 		// case "msg":
 		// 	ind,_ := strconv.Atoi(commands[1])
@@ -343,6 +356,7 @@ func Launch() {
 		case "exit":
 			break Loop
 		}
+		mutex.Unlock()
 	}
 	listener.Close()
 	fmt.Println("[debug] Exit system...");
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 1ad3bbf..c6120db 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 
 	"zRep/primitive/fujiokam"
@@ -23,6 +24,15 @@ import (
 // pointer to coordinator itself
 // var anonCoordinator *Coordinator
 
+// protects the coordinator, which both the listener and the main loop use
+var mutex sync.Mutex
+
+func getStatus() int {
+	mutex.Lock()
+	defer mutex.Unlock()
+	return anonCoordinator.Status
+}
+
 /**
  * start server listener to handle event
  */
@@ -45,6 +55,8 @@ func startServerListener(listener *net.TCPListener) {
 
 // a malformed message is ignored, it must not stop the coordinator
 func handleSafely(buf []byte) {
+	mutex.Lock()
+	defer mutex.Unlock()
 	defer func() {
 		if err := recover(); err != nil {
 			fmt.Println("[note]** Ignore a malformed message:", err)
@@ -254,6 +266,7 @@ func Launch() {
 	fmt.Println("** Note: Type ok to finish the server configuration. **")
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
+	mutex.Lock()
 	fmt.Println("[debug] Servers in the current network:")
 	for _,info := range anonCoordinator.ServerList {
 		fmt.Println("[debug] *", info.Addr)
@@ -261,14 +274,16 @@ func Launch() {
 	fmt.Println("[debug] Configuring parameters of commitments.")
 	configCommParams()
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
+	mutex.Unlock()
 	for {
 		// wait for the status changed to READY_FOR_NEW_ROUND
 		for {
-			if anonCoordinator.Status == READY_FOR_NEW_ROUND {
+			if getStatus() == READY_FOR_NEW_ROUND {
 				break
 			}
 			time.Sleep(10 * time.Millisecond)
 		}
+		mutex.Lock()
 		// add fake clients in the first round
 		if isFirstRound {
 			addFakeClients(10)
@@ -285,8 +300,9 @@ func Launch() {
 		anonCoordinator.Status = ANNOUNCE
 		fmt.Println("[coordinator] Announcement phase started...")
 		announce()
+		mutex.Unlock()
 		for {
-			if anonCoordinator.Status == MESSAGE {
+			if getStatus() == MESSAGE {
 				break
 			}
 			time.Sleep(1000 * time.Millisecond)
@@ -295,10 +311,14 @@ func Launch() {
 		fmt.Println("[coordinator] Posting phase started...")
 		waitKeypress("Press ENTER to end posting:\n")
 		// voting phase
+		mutex.Lock()
 		vote()
+		mutex.Unlock()
 		fmt.Println("[coordinator] Voting phase started...")
 		waitKeypress("Press ENTER to finish voting:\n")
 		// ending phase
+		mutex.Lock()
 		roundEnd()
+		mutex.Unlock()
 	}
 }
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index 0b6d209..6cac0df 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"io"
 	"strconv"
+	"sync"
 	"zRep/primitive/pedersen"
 	"zRep/proto"
 	"zRep/util"
@@ -21,6 +22,9 @@ import (
 // var anonServer *server.AnonServer
 var config map[string]string
 
+// protects the server, which both the listener and the main loop use
+var mutex sync.Mutex
+
 /**
   * register itself to controller
   */
@@ -57,6 +61,8 @@ func startAnonServerListener(listener *net.TCPListener) {
 
 // a malformed message is ignored, it must not stop the server
 func handleSafely(buf []byte) {
+	mutex.Lock()
+	defer mutex.Unlock()
 	defer func() {
 		if err := recover(); err != nil {
 			fmt.Println("[note]** Ignore a malformed message:", err)
@@ -125,7 +131,10 @@ func Launch() {
 
 	// wait until register successful
 	for {
-		if anonServer.IsConnected {
+		mutex.Lock()
+		connected := anonServer.IsConnected
+		mutex.Unlock()
+		if connected {
 			break
 		}
 		time.Sleep(1000 * time.Millisecond)
-- 
2.43.0


From 546b493333bc98e0bb6b019a7c730d12f337850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 11/23] fix: a connection that breaks must not stop a client

---
 cmd/client/ClientLauncher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index d561a06..bd80be1 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -65,7 +65,11 @@ func startClientListener(listener *net.TCPListener) {
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
 		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
+		conn.Close()
+		if err != nil {
+			fmt.Println("[note]** Fails to receive a message:", err)
+			continue
+		}
 		mutex.Lock()
 		Handle(buf.Bytes(), dissentClient) // a goroutine handles conn so that the loop can accept other connections
 		mutex.Unlock()
-- 
2.43.0


From fd38c18e28a82eca7c27ebbfb70e77b2c182617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 12/23] fix: register servers one after another, and only
 during configuration

---
 cmd/coordinator/Coordinator.go         |  2 +
 cmd/coordinator/CoordinatorHandler.go  | 90 +++++++++++++++++---------
 cmd/coordinator/CoordinatorLauncher.go |  7 ++
 3 files changed, 69 insertions(+), 30 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index efc6600..e3e9d83 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -44,6 +44,8 @@ type Coordinator struct {
 	LocalAddr *net.TCPAddr
 	// network topology for server cluster
 	ServerList []ServerInfo
+	// servers which have not finished their registration
+	PendingServers []ServerInfo
 	// initialize the controller status
 	Status int
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 22da5f8..b7eadc1 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -32,7 +32,7 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 		handleServerRegister(event.Params, addr)
 		break
 	case proto.UPDATE_PEDERSEN_H:
-		handleUpdatePedersenH(event.Params)
+		handleUpdatePedersenH(event.Params, addr)
 		break
 	case proto.CLIENT_REGISTER_CONTROLLERSIDE:
 		handleClientRegisterControllerSide(event.Params, addr)
@@ -133,9 +133,64 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	// fetch server's public key
 	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
-	lastServer := anonCoordinator.GetLastServerAddr()
+	if anonCoordinator.Status != CONFIGURATION {
+		fmt.Println("[note]** Server configuration has finished, ignore server", addr)
+		return
+	}
+	// servers register one after another, since each of them updates h
+	// that was updated by its previous server
+	anonCoordinator.PendingServers = append(anonCoordinator.PendingServers, ServerInfo{Addr:addr, PublicKey: publicKey})
+	if len(anonCoordinator.PendingServers) == 1 {
+		registerNextServer()
+	}
+}
+
+// send configurations to the first pending server, which will reply updated h
+func registerNextServer() {
+	for len(anonCoordinator.PendingServers) > 0 {
+		addr := anonCoordinator.PendingServers[0].Addr
+		lastServer := anonCoordinator.GetLastServerAddr()
+		if lastServer == nil {
+			lastServer = anonCoordinator.LocalAddr
+		}
+		byteH, err := anonCoordinator.PedersenBase.HT.MarshalBinary()
+		util.CheckErr(err)
+		// tell new server its prev_server is last server and primtive's parameters
+		fujiokamBase := anonCoordinator.FujiOkamBase
+		pm1 := map[string]interface{}{
+			"reply": true,
+			"prev_server": lastServer.String(),
+			"h": byteH,
+			"n": fujiokamBase.N.Bytes(),
+			"g1": fujiokamBase.G1.ToBinary(),
+			"g2": fujiokamBase.G2.ToBinary(),
+			"g3": fujiokamBase.G3.ToBinary(),
+			"g4": fujiokamBase.G4.ToBinary(),
+			"g5": fujiokamBase.G5.ToBinary(),
+			"g6": fujiokamBase.G6.ToBinary(),
+			"h1": fujiokamBase.H1.ToBinary(),
+		}
+		event1 := &proto.Event{EventType:proto.SERVER_REGISTER_REPLY, Params:pm1}
+		if util.SendEvent(anonCoordinator.LocalAddr, addr, event1) == nil {
+			return
+		}
+		// the server is not reachable, try the next one
+		anonCoordinator.PendingServers = anonCoordinator.PendingServers[1:]
+	}
+}
+
+// the first pending server has updated h, which finishes its registration
+func handleUpdatePedersenH(params map[string]interface{}, addr *net.TCPAddr) {
+	h := util.DecodePoint(anonCoordinator.Suite, params["h"].([]byte))
+	pending := anonCoordinator.PendingServers
+	if len(pending) == 0 || pending[0].Addr.String() != addr.String() {
+		fmt.Println("[note]** Server", addr, "is not registering")
+		return
+	}
+	anonCoordinator.PedersenBase.HT = h
 
 	// link new server to the next_hop of last server
+	lastServer := anonCoordinator.GetLastServerAddr()
 	if lastServer != nil {
 		pm2 := map[string]interface{}{
 			"reply": true,
@@ -145,34 +200,9 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 		util.SendEvent(anonCoordinator.LocalAddr, lastServer, event2)
 	}
 
-	if lastServer == nil {
-		lastServer = anonCoordinator.LocalAddr
-	}
-	byteH, err := anonCoordinator.PedersenBase.HT.MarshalBinary()
-	util.CheckErr(err)
-	// tell new server its prev_server is last server and primtive's parameters
-	fujiokamBase := anonCoordinator.FujiOkamBase
-	pm1 := map[string]interface{}{
-		"reply": true,
-		"prev_server": lastServer.String(),
-		"h": byteH,
-		"n": fujiokamBase.N.Bytes(),
-		"g1": fujiokamBase.G1.ToBinary(),
-		"g2": fujiokamBase.G2.ToBinary(),
-		"g3": fujiokamBase.G3.ToBinary(),
-		"g4": fujiokamBase.G4.ToBinary(),
-		"g5": fujiokamBase.G5.ToBinary(),
-		"g6": fujiokamBase.G6.ToBinary(),
-		"h1": fujiokamBase.H1.ToBinary(),
-	}
-	event1 := &proto.Event{EventType:proto.SERVER_REGISTER_REPLY, Params:pm1}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event1)
-
-	anonCoordinator.AddServer(addr, publicKey)
-}
-
-func handleUpdatePedersenH(params map[string]interface{}) {
-	anonCoordinator.PedersenBase.HT = util.DecodePoint(anonCoordinator.Suite, params["h"].([]byte))
+	anonCoordinator.AddServer(addr, pending[0].PublicKey)
+	anonCoordinator.PendingServers = pending[1:]
+	registerNextServer()
 }
 
 // Handler for REGISTER event
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index c6120db..1fc6121 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -267,6 +267,13 @@ func Launch() {
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
 	mutex.Lock()
+	// servers can not register any more, wait for those that are registering
+	anonCoordinator.Status = SERVER_CONFIGURATION
+	for len(anonCoordinator.PendingServers) > 0 {
+		mutex.Unlock()
+		time.Sleep(10 * time.Millisecond)
+		mutex.Lock()
+	}
 	fmt.Println("[debug] Servers in the current network:")
 	for _,info := range anonCoordinator.ServerList {
 		fmt.Println("[debug] *", info.Addr)
-- 
2.43.0


From f77d8b9c8c250f97c2cd28cdd4cd72184c703f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 13/23] fix: clients may register at any time, exactly once

---
 cmd/coordinator/Coordinator.go         | 12 +++++++++++
 cmd/coordinator/CoordinatorHandler.go  | 28 ++++++++++++++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  9 +++++++++
 cmd/coordinator/CoordinatorStatus.go   |  1 +
 4 files changed, 50 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index e3e9d83..8a7886a 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -34,6 +34,12 @@ type HonestyProof struct {
 	Public []*big.Int
 }
 
+// a client whose registration has to wait for the next round
+type WaitingClient struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type ServerInfo struct {
 	Addr *net.TCPAddr
 	PublicKey abstract.Point
@@ -68,6 +74,12 @@ type Coordinator struct {
 	// we only add new clients at the beginning of each round
 	// store the new clients's one-time pseudo nym
 	NewClientsBuffer []ClientTuple
+	// registrations received while no round is running
+	WaitingClients []WaitingClient
+	// how many registrations of an address the servers are still processing
+	RegisteringClients map[string]int
+	// public keys of all the clients registered so far
+	RegisteredKeys map[string]bool
 	// msg sender's record nym
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index b7eadc1..005da5d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -125,6 +125,13 @@ func handleAnnouncement(params map[string]interface{}) {
 	// set controller's new g
 	anonCoordinator.G = g
 	anonCoordinator.Status = MESSAGE
+
+	// register the clients which have been waiting for this round
+	waiting := anonCoordinator.WaitingClients
+	anonCoordinator.WaitingClients = nil
+	for _, client := range waiting {
+		handleClientRegisterControllerSide(client.Params, client.Addr)
+	}
 }
 
 // handle server register request
@@ -210,6 +217,19 @@ func handleUpdatePedersenH(params map[string]interface{}, addr *net.TCPAddr) {
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
 	// get client's public key
 	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
+
+	// clients can only be added to a running round
+	if anonCoordinator.Status != MESSAGE || anonCoordinator.G == nil {
+		fmt.Println("[debug] Client " + addr.String() + " has to wait for the next round")
+		anonCoordinator.WaitingClients = append(anonCoordinator.WaitingClients, WaitingClient{Params: params, Addr: addr})
+		return
+	}
+	if _, ok := anonCoordinator.RegisteredKeys[publicKey.String()]; ok {
+		fmt.Println("[note]** Client has already been registered")
+		return
+	}
+	anonCoordinator.RegisteredKeys[publicKey.String()] = true
+	anonCoordinator.RegisteringClients[addr.String()]++
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
@@ -255,6 +275,14 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	var addrStr = params["addr"].(string)
 	addr, err := net.ResolveTCPAddr("tcp", addrStr)
 	util.CheckErr(err)
+	if anonCoordinator.RegisteringClients[addrStr] == 0 {
+		fmt.Println("[note]** Client", addrStr, "is not registering")
+		return
+	}
+	anonCoordinator.RegisteringClients[addrStr]--
+	if anonCoordinator.RegisteringClients[addrStr] == 0 {
+		delete(anonCoordinator.RegisteringClients, addrStr)
+	}
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
 	// a fresh honesty proof for this client
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 1fc6121..6be453b 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -90,6 +90,8 @@ func initCoordinator() {
 		BeginningKeyMap: make(map[string]abstract.Point),
 		BeginningCommMap: make(map[string]abstract.Point),
 		NewClientsBuffer: nil,
+		RegisteringClients: make(map[string]int),
+		RegisteredKeys: make(map[string]bool),
 		MsgLog: nil,
 		AssignmentSignaturesLog: make(map[string]AssignmentSignatures),
 		Bridges: make(map[string]BridgeInfo),
@@ -325,6 +327,13 @@ func Launch() {
 		waitKeypress("Press ENTER to finish voting:\n")
 		// ending phase
 		mutex.Lock()
+		anonCoordinator.Status = ROUND_END
+		// wait until the servers have added all the clients of this round
+		for len(anonCoordinator.RegisteringClients) > 0 {
+			mutex.Unlock()
+			time.Sleep(10 * time.Millisecond)
+			mutex.Lock()
+		}
 		roundEnd()
 		mutex.Unlock()
 	}
diff --git a/cmd/coordinator/CoordinatorStatus.go b/cmd/coordinator/CoordinatorStatus.go
index a8b34ab..3c4f1b1 100644
--- a/cmd/coordinator/CoordinatorStatus.go
+++ b/cmd/coordinator/CoordinatorStatus.go
@@ -8,3 +8,4 @@ const ANNOUNCE = 2;
 const MESSAGE = 3;
 const VOTE = 4;
 const SERVER_CONFIGURATION = 5;
+const ROUND_END = 6;
-- 
2.43.0


From fdb0675e3f2721782cf12b843e773ca3fe8980fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 14/23] fix: handle messages of a round only in the phase they
 belong to

---
 cmd/coordinator/CoordinatorHandler.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 005da5d..bdc1961 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -19,6 +19,15 @@ import (
 
 var anonCoordinator *Coordinator
 
+// the phase in which an event is handled
+var eventStatus = map[int]int{
+	proto.ANNOUNCEMENT: ANNOUNCE,
+	proto.POST_BRIDGE: MESSAGE,
+	proto.REQUEST_BRIDGES: MESSAGE,
+	proto.GOT_SIGNS: MESSAGE,
+	proto.VOTE: MESSAGE,
+	proto.ROUND_END: ROUND_END,
+}
 
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
@@ -27,6 +36,13 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	anonCoordinator = tmpCoordinator
 	event, addr := util.DecodeEvent(buf)
 
+	// some events only make sense in one phase of a round
+	status, ok := eventStatus[event.EventType]
+	if ok && status != anonCoordinator.Status {
+		fmt.Println("[note]** Event", event.EventType, "does not belong to this phase")
+		return
+	}
+
 	switch event.EventType {
 	case proto.SERVER_REGISTER:
 		handleServerRegister(event.Params, addr)
-- 
2.43.0


From bb65910308d073998b3d608c0404ba285ef53c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 15/23] fix: only registered nyms may post or request, and a
 posted bridge is not replaced

---
 cmd/bridge/bridge.go                  | 4 ++++
 cmd/coordinator/Coordinator.go        | 6 ++++++
 cmd/coordinator/CoordinatorHandler.go | 6 +++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 50258cf..7997113 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -30,6 +30,10 @@ type Assignment struct {
 }
 
 func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstract.Suite, pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase) bool {
+	if PCommr == nil {
+		fmt.Println("[note]** Can not find the commitment of the requester's nym")
+		return false
+	}
 	ind := params["ind"].(int)
 	nymR := suite.Point()
 	byteNymR := params["nym"].([]byte)
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 8a7886a..7a9454c 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"fmt"
 	"math/big"
 	"net"
 	"zRep/primitive/fujiokam"
@@ -192,6 +193,11 @@ func (c *Coordinator) GetAssignmentSignatures(brdgAddr string) [][]byte {
 }
 
 func (c *Coordinator) AddBridge(bridgeAddr string, nym abstract.Point) {
+	// a bridge keeps its provider and can not become unused again
+	if _, ok := c.Bridges[bridgeAddr]; ok {
+		fmt.Println("[note]** Bridge has already been posted:", bridgeAddr)
+		return
+	}
 	c.Bridges[bridgeAddr] = BridgeInfo{Nym:nym, Used:false}
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index bdc1961..3dc1ffc 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -363,8 +363,12 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 		return
 	}
 
+	if _, ok := anonCoordinator.EndingKeyMap[nym.String()]; !ok {
+		fmt.Println("[note]** Can not find the poster's nym")
+		return
+	}
+
 	// record the bridge
-	// Note: we assume the client does not provide duplicated bridges
 	anonCoordinator.AddBridge(bridgeAddr, nym)
 	fmt.Println("[debug] Finished adding bridge " + bridgeAddr)
 }
-- 
2.43.0


From 0c2f4ecb58f460b2b73b8ff1a7fbccf8ccca78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 16/23] fix: honour a request once, and collect only the
 servers' valid signatures for it

---
 cmd/coordinator/Coordinator.go         | 25 +++++++++++++++++++----
 cmd/coordinator/CoordinatorHandler.go  | 28 ++++++++++++++++++++------
 cmd/coordinator/CoordinatorLauncher.go |  3 ++-
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 7a9454c..ec0aca8 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"bytes"
 	"fmt"
 	"math/big"
 	"net"
@@ -26,6 +27,10 @@ type BridgeInfo struct {
 type AssignmentSignatures struct {
 	Signatures [][]byte
 	Count int
+	// the assignment to sign
+	ByteAssignment []byte
+	// address of the client it is sent to
+	Requester *net.TCPAddr
 }
 
 // honesty proof of g1~g6 for one client. Answering two different challenges
@@ -85,8 +90,9 @@ type Coordinator struct {
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
 	AssignmentSignaturesLog map[string]AssignmentSignatures
+	// requests that have been honoured in this round
+	HonouredRequests map[string]bool
 	// record each vote signature's y0
-	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
 	// assignments that have been voted for in this round
 	VotedAssignments map[string]bool
@@ -167,10 +173,10 @@ func (c *Coordinator) AddMsgLog(log abstract.Point) int{
 }
 
 // create an empty entry to store all servers' signatures for a bridge
-func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
+func (c *Coordinator) InitAssignmentSignatures(brdgAddr string, byteAssignment []byte, requester *net.TCPAddr) {
 	nServers := len(c.ServerList)
 	assignmentSigs := make([][]byte, nServers+1)
-	entry := AssignmentSignatures{Signatures: assignmentSigs, Count: 0}
+	entry := AssignmentSignatures{Signatures: assignmentSigs, Count: 0, ByteAssignment: byteAssignment, Requester: requester}
 	anonCoordinator.AssignmentSignaturesLog[brdgAddr] = entry
 }
 
@@ -179,10 +185,21 @@ func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, s
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
 	assignmentSigs[serverIndex] = sig
-	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
+	newEntry := oldEntry
+	newEntry.Count = oldEntry.Count + 1
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
 }
 
+// whether we are still waiting for a server's signature for this very assignment
+func (c *Coordinator) IsMissingAssignmentSignature(brdgAddr string, serverIndex int, byteAssignment []byte) bool {
+	entry, ok := c.AssignmentSignaturesLog[brdgAddr]
+	return ok && bytes.Equal(entry.ByteAssignment, byteAssignment) && entry.Signatures[serverIndex] == nil
+}
+
+func (c *Coordinator) GetAssignmentRequester(brdgAddr string) *net.TCPAddr {
+	return c.AssignmentSignaturesLog[brdgAddr].Requester
+}
+
 func (c *Coordinator) FinishCollectingAssignmentSignatures(brdgAddr string) bool {
 	nServers := len(c.ServerList)
 	return c.AssignmentSignaturesLog[brdgAddr].Count == nServers + 1
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 3dc1ffc..1a8211c 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -400,8 +400,12 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 		return
 	}
 
-	// record requester's IP
-	anonCoordinator.RequesterAddrs[nymR.String()] = senderAddr
+	// honour a request only once
+	if anonCoordinator.HonouredRequests[string(byteMsg)] {
+		fmt.Println("[note]** Duplicate request")
+		return
+	}
+	anonCoordinator.HonouredRequests[string(byteMsg)] = true
 
 	// create assignment tuples from unused bridges
 	assignments := anonCoordinator.AssignBridges(ind, nymR)
@@ -422,7 +426,7 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	nServers := len(anonCoordinator.ServerList)
 	for i,assignment := range assignments {
 		brdgAddr := assignment.Addr
-		anonCoordinator.InitAssignmentSignatures(brdgAddr)
+		anonCoordinator.InitAssignmentSignatures(brdgAddr, bridge.EncodeAssignment(&assignment), senderAddr)
 		// append coordinator's own signature to the end
 		anonCoordinator.AddAssignmentSignature(brdgAddr, nServers, sigs[i])
 	}
@@ -459,12 +463,24 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
-	nymR := assignments[0].NymR
-	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
+	if len(sigs) != len(assignments) {
+		fmt.Println("Warning: wrong number of signatures: ", senderAddr)
+		return
+	}
 
 	for i,assignment := range assignments {
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
+		byteAssignment := bridge.EncodeAssignment(&assignment)
+		if !anonCoordinator.IsMissingAssignmentSignature(brdgAddr, serverIndex, byteAssignment) {
+			fmt.Println("Warning: unexpected signature for", brdgAddr)
+			continue
+		}
+		err := util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.GetServerPublicKey(serverIndex), sig, nil)
+		if err != nil {
+			fmt.Println("Warning: fails to verify server's signature for", brdgAddr)
+			continue
+		}
 		// update each assignment's log entry by inserting the signature and increase count
 		anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig)
 
@@ -488,7 +504,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			pm["signature"] = byteSig
 			// send
 			event := &proto.Event{EventType:proto.GOT_SIGNS, Params:pm}
-			util.SendEvent(anonCoordinator.LocalAddr, requesterIP, event)
+			util.SendEvent(anonCoordinator.LocalAddr, anonCoordinator.GetAssignmentRequester(brdgAddr), event)
 		}
 	}
 }
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 6be453b..f608a7b 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -128,7 +128,8 @@ func clearBuffer() {
 	anonCoordinator.NewClientsBuffer = nil
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
-	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.AssignmentSignaturesLog = make(map[string]AssignmentSignatures)
+	anonCoordinator.HonouredRequests = make(map[string]bool)
 	anonCoordinator.VotedAssignments = make(map[string]bool)
 }
 
-- 
2.43.0


From 9ab693ffd6bc0eedf33332a411de0dec48dac86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 17/23] fix: malformed commands must not stop a client

---
 cmd/client/ClientLauncher.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index bd80be1..e7dec0d 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -345,16 +345,36 @@ func Launch() {
 		// 	sendMsg(ind, commands[2])
 		// 	break
 		case "vote":
-			msgID,_ := strconv.Atoi(commands[1])
-			vote, _ := strconv.Atoi(commands[2])
+			if len(commands) < 3 {
+				fmt.Println("usage: vote <bridge_id> (+-)1")
+				break
+			}
+			msgID, err1 := strconv.Atoi(commands[1])
+			vote, err2 := strconv.Atoi(commands[2])
+			if err1 != nil || err2 != nil || msgID < 0 || msgID >= len(dissentClient.Assignments) {
+				fmt.Println("usage: vote <bridge_id> (+-)1")
+				break
+			}
 			sendVote(msgID, vote)
 			break
 		case "post":
+			if len(commands) < 2 {
+				fmt.Println("usage: post <addr>")
+				break
+			}
 			bridgeAddr := commands[1]
 			postBridge(bridgeAddr)
 			break
 		case "get":
-			ind,_ := strconv.Atoi(commands[1])
+			if len(commands) < 2 {
+				fmt.Println("usage: get <indicator>")
+				break
+			}
+			ind, err := strconv.Atoi(commands[1])
+			if err != nil || ind < 1 {
+				fmt.Println("usage: get <indicator>")
+				break
+			}
 			requestBridges(ind)
 			break
 		case "exit":
-- 
2.43.0


From 2b52a02cbd90dd0bc155bf68aa9fd26ebbd1959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 18/23] fix: a server accepts a table without proof from the
 coordinator only

---
 cmd/server/AnonServerHandler.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index ef7cbc8..b722c50 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -57,7 +57,13 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 	}
 }
 
-func verifyNeffShuffle(params map[string]interface{}) {
+// whether the coordinator is this hop, i.e. we are at the beginning of the chain
+func isCoordinator(hop *net.TCPAddr) bool {
+	addr := anonServer.CoordinatorAddr
+	return hop.IP.Equal(addr.IP) && hop.Port == addr.Port
+}
+
+func verifyNeffShuffle(params map[string]interface{}, size int) {
 	if _, shuffled := params["shuffled"]; shuffled {
 		// get all the necessary parameters
 		xbarList := util.ProtobufDecodePointList(params["xbar"].([]byte))
@@ -73,17 +79,20 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		if err != nil {
 			panic("Shuffle verify failed: " + err.Error())
 		}
+	} else if size > 1 {
+		// only a table which can not be shuffled has no proof
+		panic("Shuffle verify failed: no proof")
 	}
 }
 
 func handleRoundEnd(params map[string]interface{}) {
 	keyList, valList := util.ProtobufDecodePointTable(params["keys"].([]byte), params["vals"].([]byte))
 	size := len(keyList)
-	if _, ok := params["is_start"]; ok {
+	if _, ok := params["is_start"]; ok && isCoordinator(anonServer.NextHop) {
 		// The request is sent by coordinator
 	} else {
 		// verify neff shuffle if needed
-		verifyNeffShuffle(params)
+		verifyNeffShuffle(params, size)
 	}
 
 	// Create a public/private keypair (X[mine],x)
@@ -253,7 +262,10 @@ func handleAnnouncement(params map[string]interface{}) {
 		g = util.DecodePoint(anonServer.Suite, val.([]byte))
 		g = anonServer.Suite.Point().Mul(g, anonServer.Roundkey)
 		// verify the previous shuffle
-		verifyNeffShuffle(params)
+		verifyNeffShuffle(params, size)
+	}else if !isCoordinator(anonServer.PreviousHop) {
+		// only the coordinator's table has neither g nor proof
+		panic("Shuffle verify failed: no proof")
 	}else {
 		g = anonServer.Suite.Point().Mul(nil, anonServer.Roundkey)
 	}
-- 
2.43.0


From 9e66c3893740570dfd59bf89398d74ba7403f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 19/23] fix: a client uses the coordinator's parameters only
 after verifying them, and its key only after receiving it

---
 cmd/client/ClientHandler.go  | 7 +++++++
 cmd/client/ClientLauncher.go | 4 ++++
 cmd/client/DissentClient.go  | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index deef8e6..08ff08c 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -85,6 +85,7 @@ func handleRegisterConfirmation(params map[string]interface{}, dissentClient *Di
 
 	// send challenge for g1~g6
 	fmt.Println("[debug] Received configurations, start challenging...")
+	dissentClient.PassedGnHonesty = false
 	dissentClient.AllGnHonestyChallenge = base.ChallengeAllGnHonesty()
 	pm := map[string]interface{}{
 		"honesty_chal": util.ProtobufEncodeBoolList(dissentClient.AllGnHonestyChallenge),
@@ -108,6 +109,7 @@ func handleGnHonestyAnswer(params map[string]interface{}, dissentClient *Dissent
 	if res != 0 {
 		panic("Honesty checking failed")
 	}
+	dissentClient.PassedGnHonesty = true
 	fmt.Println("[debug] Parameters g1~g6 passed honesty test.")
 }
 
@@ -244,6 +246,11 @@ func handleAnnouncementFinalize(params map[string]interface{}, dissentClient *Di
 // }
 
 func handleGotSignatures(params map[string]interface{}, dissentClient *DissentClient) {
+	// we do not know the coordinator's public key yet
+	if dissentClient.Status == CONFIGURATION {
+		fmt.Println("[note]** Signatures received before registration")
+		return
+	}
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index e7dec0d..0b71b17 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -106,6 +106,10 @@ func postBridge(bridgeAddr string) {
   * request "ind" numbers of bridges from server
   */
 func requestBridges(ind int) {
+	if !dissentClient.PassedGnHonesty {
+		fmt.Println("the coordinator's parameters have not been verified yet")
+		return
+	}
 	if ind > dissentClient.Reputation {
 		fmt.Println("indicator should be less or equal than reputation")
 		return
diff --git a/cmd/client/DissentClient.go b/cmd/client/DissentClient.go
index 113dce1..df5a5f3 100644
--- a/cmd/client/DissentClient.go
+++ b/cmd/client/DissentClient.go
@@ -41,6 +41,8 @@ type DissentClient struct {
 	PedersenBase *pedersen.PedersenBase
 	AllGnHonestyProofPublic []*big.Int
 	AllGnHonestyChallenge []bool
+	// whether the parameters have passed the honesty test
+	PassedGnHonesty bool
 }
 
 func (dissentClient *DissentClient) ClearBuffer() {
-- 
2.43.0


From c5745732be7e6dcf59a6e09d8307d22c23470cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 20/23] fix: a server reports a malformed proof as an invalid
 one

---
 cmd/bridge/bridge.go            | 9 ++++++++-
 cmd/server/AnonServerHandler.go | 9 +++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7997113..dc8f64e 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -29,7 +29,14 @@ type Assignment struct {
 	Nym abstract.Point // bridge provider's nym
 }
 
-func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstract.Suite, pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase) bool {
+func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstract.Suite, pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase) (res bool) {
+	// a malformed proof is an invalid proof
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Malformed proof:", err)
+			res = false
+		}
+	}()
 	if PCommr == nil {
 		fmt.Println("[note]** Can not find the commitment of the requester's nym")
 		return false
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index b722c50..2119c29 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -371,10 +371,11 @@ func handleAnnouncementFinalize(params map[string]interface{}) {
 func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	// extract info from params
 	nymR := anonServer.Suite.Point()
-	byteNymR := params["nym"].([]byte)
-	err := nymR.UnmarshalBinary(byteNymR)
-	util.CheckErr(err)
-	PCommr := anonServer.EndingCommMap[nymR.String()]
+	byteNymR, _ := params["nym"].([]byte)
+	var PCommr abstract.Point
+	if err := nymR.UnmarshalBinary(byteNymR); err == nil {
+		PCommr = anonServer.EndingCommMap[nymR.String()]
+	}
 
 	// verify the proof
 	if !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
-- 
2.43.0


From 3f71423ebaf88d8a6e00f31d64bbe4f93fb50924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 21/23] fix: check that the simple shuffle belongs to the pair
 shuffle

The verifier of a pair shuffle accepted any valid simple k-shuffle: it never
compared its inputs with A_i B_i^lambda and C_i D_i^lambda, so that pairs which
are no permutation of the previous ones could be proved.
---
 util/shuffle/pair.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..ae8d278 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -280,6 +280,13 @@ func (ps *PairShuffle) Verify(
 	Phi2 := grp.Point().Null()
 	P := grp.Point() // scratch
 	Q := grp.Point() // scratch
+	// the simple k-shuffle must be that of A_i B_i^lambda and C_i D_i^lambda
+	for i := 0; i < k; i++ {
+		if !P.Add(p1.A[i], Q.Mul(B[i], v4.Zlambda)).Equal(ps.pv6.p0.X[i]) ||
+			!P.Add(p1.C[i], Q.Mul(p3.D[i], v4.Zlambda)).Equal(ps.pv6.p0.Y[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
+	}
 	for i := 0; i < k; i++ {
 		Phi1 = Phi1.Add(Phi1, P.Mul(Xbar[i], p5.Zsigma[i])) // (31)
 		Phi1 = Phi1.Sub(Phi1, P.Mul(X[i], v2.Zrho[i]))
-- 
2.43.0


From 0b3f56bbb3d1488c5a6b825385db813b4b150360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 22/23] fix: bind the shuffle proof to its statement

The challenges of the non-interactive proof covered its commitments only. With
the lists and the public key left out of the hash, a list could be chosen after
the challenges were known, such that a false statement verified.
---
 cmd/server/AnonServerHandler.go |  9 ++++++---
 util/shuffle/pair.go            | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 2119c29..253450b 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -75,7 +75,8 @@ func verifyNeffShuffle(params map[string]interface{}, size int) {
 		// verify the shuffle
 		verifier := shuffle.Verifier(anonServer.Suite, nil, prePublicKey, prevKeyList,
 			prevValList, xbarList, ybarList)
-		err := proof.HashVerify(anonServer.Suite, "PairShuffle", verifier, params["proof"].([]byte))
+		name := shuffle.ProtocolName(nil, prePublicKey, prevKeyList, prevValList, xbarList, ybarList)
+		err := proof.HashVerify(anonServer.Suite, name, verifier, params["proof"].([]byte))
 		if err != nil {
 			panic("Shuffle verify failed: " + err.Error())
 		}
@@ -145,7 +146,8 @@ func handleRoundEnd(params map[string]interface{}) {
 	rand := anonServer.Suite.Cipher(abstract.RandomKey)
 	// *** perform neff shuffle here ***
 	Xbar, Ybar, _, Ytmp, prover := neffShuffle(Xori, newKeys, rand)
-	prf, err := proof.HashProve(anonServer.Suite, "PairShuffle", rand, prover)
+	name := shuffle.ProtocolName(nil, anonServer.PublicKey, Xori, newKeys, Xbar, Ybar)
+	prf, err := proof.HashProve(anonServer.Suite, name, rand, prover)
 	util.CheckErr(err)
 
 
@@ -309,7 +311,8 @@ func handleAnnouncement(params map[string]interface{}) {
 	rand := anonServer.Suite.Cipher(abstract.RandomKey)
 	// *** perform neff shuffle here ***
 	Xbar, Ybar, _, Ytmp, prover := neffShuffle(Xori,newKeys,rand)
-	prf, err := proof.HashProve(anonServer.Suite, "PairShuffle", rand, prover)
+	name := shuffle.ProtocolName(nil, anonServer.PublicKey, Xori, newKeys, Xbar, Ybar)
+	prf, err := proof.HashProve(anonServer.Suite, name, rand, prover)
 	util.CheckErr(err)
 
 
diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index ae8d278..09bf98d 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -21,6 +21,8 @@ package shuffle
 
 import (
 	"crypto/cipher"
+	"crypto/sha256"
+	"encoding/binary"
 	"errors"
 	"github.com/dedis/crypto/abstract"
 	"github.com/dedis/crypto/proof"
@@ -366,6 +368,25 @@ func Shuffle(group abstract.Group, g, h abstract.Point, X, Y []abstract.Point,
 	return Xbar, Ybar, prover, tmpXbar, tmpYbar
 }
 
+// ProtocolName names the protocol of a proof about the shuffle of (X,Y) into
+// (Xbar,Ybar) with the keys g and h. The non-interactive proofs hash this name,
+// which binds their challenges to the statement that is proved.
+func ProtocolName(g, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point) string {
+	hash := sha256.New()
+	for _, list := range [][]abstract.Point{{g, h}, X, Y, Xbar, Ybar} {
+		binary.Write(hash, binary.BigEndian, uint32(len(list)))
+		for _, point := range list {
+			var buf []byte
+			if point != nil {
+				buf, _ = point.MarshalBinary()
+			}
+			binary.Write(hash, binary.BigEndian, uint32(len(buf)))
+			hash.Write(buf)
+		}
+	}
+	return "PairShuffle" + string(hash.Sum(nil))
+}
+
 // Produce a Sigma-protocol verifier to check the correctness of a shuffle.
 func Verifier(group abstract.Group, g, h abstract.Point,
 	X, Y, Xbar, Ybar []abstract.Point) proof.Verifier {
-- 
2.43.0


From 56fc29a7054cbd7b64ea080a11685e4da3a53481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 23/23] fix: the signature of a post covers where its address
 ends

---
 cmd/bridge/bridge.go         | 2 ++
 cmd/client/ClientLauncher.go | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index dc8f64e..24c3fca 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -114,6 +114,8 @@ func MessageOfRequestBridges(params map[string]interface{}) (msg []byte) {
 
 func MessageOfPostBridge(params map[string]interface{}) (msg []byte) {
 	bridgeAddr := params["bridge_addr"].(string)
+	// without the length, bytes could be moved from the nym to the address
+	msg = append(msg, util.IntToByte(len(bridgeAddr))...)
 	msg = append(msg, []byte(bridgeAddr)...)
 	msg = append(msg, params["nym"].([]byte)...)
 	return
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 0b71b17..73dbf47 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -92,7 +92,6 @@ func postBridge(bridgeAddr string) {
 
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
-	byteMsg = append([]byte(bridgeAddr), byteNym...)
 	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
-- 
2.43.0

