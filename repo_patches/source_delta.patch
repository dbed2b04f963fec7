From d539329b0a8dcd12769e88743ca86027becaf90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 01/49] fix: reject an invalid provable-broadcast value instead
 of exiting the process

---
 internal/party/pb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 6e3fff6..0e239c2 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -63,7 +63,7 @@ func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, val
 		if validator != nil {
 			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
 			if err2 != nil {
-				log.Fatalln(err2)
+				log.Printf("[PB][Party %v] validation of party %v's value failed: %v\n", p.PID, sender, err2)
 				return nil, nil, false //sender is dishonest
 			}
 		}
-- 
2.43.0


From 14a34544c1f8d6278dfa4027e5bc16883e7de5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 02/49] fix: provable broadcast accepts the value of its
 designated sender only

---
 internal/party/pb.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 0e239c2..8b04b63 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -53,11 +53,16 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 
 //Receiver is run by the receiver of a instance of provable broadcast
 func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, validator func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
-	select {
-	case <-ctx.Done():
-		return nil, nil, false
-	case m := <-p.GetMessage("Value", ID):
-		//TODO:check sender == m.Sender
+	for {
+		var m *protobuf.Message
+		select {
+		case <-ctx.Done():
+			return nil, nil, false
+		case m = <-p.GetMessage("Value", ID):
+		}
+		if m.Sender != sender {
+			continue //only the designated sender may provide the value
+		}
 
 		payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
 		if validator != nil {
-- 
2.43.0


From 727eaf27ce8e4318dd1c2e058c72aeda1edb62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 03/49] fix: combine the unlock certificate from the No votes

---
 internal/party/message_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 0333d5a..713bdcc 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -225,7 +225,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					if err1 == nil && err2 == nil {
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
-							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
+							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
 						}
-- 
2.43.0


From 50b993a753f6c535981f8da697ea91a0bfc6bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 04/49] fix: finish a round on a mixed quorum of votes
 whichever vote completes it

---
 internal/party/message_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 713bdcc..86d7875 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -178,6 +178,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		var lockValue, lockSig []byte //carried by the Yes votes
 		for {
 			select {
 			case <-ctx.Done():
@@ -198,6 +199,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
 					if err1 == nil && err2 == nil {
 						VYr = append(VYr, payload.Sigshare)
+						lockValue, lockSig = payload.Value, payload.Sig
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 0
@@ -228,6 +230,10 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
+						} else if len(VYr) > 0 && len(VYr)+len(VNr) > int(2*p.F) {
+							voteFlagChannel <- 2
+							voteOtherChannel <- lockValue
+							voteOtherChannel <- lockSig
 						}
 					}
 				}
-- 
2.43.0


From c094b8296c3c593e1dee3c3ab83c4911f9cb93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 05/49] fix: count every party's share once in the provable
 broadcast and MVBA quorums

---
 internal/party/message_handler.go | 20 ++++++++++++++++----
 internal/party/pb.go              |  5 +++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 86d7875..854c4ad 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -29,11 +29,15 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//FinishMessage Handler
 	go func() {
 		FrLength := 0
+		seen := make(map[uint32]bool)
 		for {
 			select {
 			case <-ctx.Done():
 				return
 			case m := <-p.GetMessage("Finish", IDr):
+				if seen[m.Sender] {
+					continue //count every party once
+				}
 				payload := core.Decapsulation("Finish", m).(*protobuf.Finish)
 				h := sha3.Sum512(payload.Value)
 				var buf bytes.Buffer
@@ -44,6 +48,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||index||2||h)
 				if err == nil {
+					seen[m.Sender] = true
 					Fr.Store(m.Sender, payload)
 					FrLength++
 					if FrLength == int(2*p.F+1) {
@@ -62,6 +67,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 		buf.Write(IDr)
 		coinName := buf.Bytes()
 		coins := [][]byte{}
+		seen := make(map[int]bool)
 		for {
 			select {
 			case <-ctx.Done():
@@ -70,7 +76,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				payload := core.Decapsulation("Done", m).(*protobuf.Done)
 				err := tblsScheme.VerifyPartial(p.SigPK, coinName, payload.CoinShare) //verifyshare("Done"||ID||r)
 
-				if err == nil {
+				if index, _ := tblsScheme.IndexOf(payload.CoinShare); err == nil && !seen[index] {
+					seen[index] = true //count every party once
 					coins = append(coins, payload.CoinShare)
 					if len(coins) == int(p.F+1) {
 
@@ -122,6 +129,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//PreVoteMessage Handler
 	go func() {
 		PNr := [][]byte{}
+		seen := make(map[int]bool)
 		for {
 			select {
 			case <-ctx.Done():
@@ -155,7 +163,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf.Write(IDr)
 					sm := buf.Bytes()
 					err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sig) //verifyShare(false||ID||r)
-					if err == nil {
+					if index, _ := tblsScheme.IndexOf(payload.Sig); err == nil && !seen[index] {
+						seen[index] = true //count every party once
 						PNr = append(PNr, payload.Sig)
 						if len(PNr) > int(2*p.F) {
 							noSignature, _ := tblsScheme.Recover(p.SigPK, sm, PNr, int(2*p.F+1), int(p.N))
@@ -178,6 +187,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		seen := make(map[int]bool)
 		var lockValue, lockSig []byte //carried by the Yes votes
 		for {
 			select {
@@ -197,7 +207,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					err1 := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||1||h)
 					sm[len([]byte("Echo"))+len(IDrj[l])] = 2
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
-					if err1 == nil && err2 == nil {
+					if index, _ := tblsScheme.IndexOf(payload.Sigshare); err1 == nil && err2 == nil && !seen[index] {
+						seen[index] = true //count every party once
 						VYr = append(VYr, payload.Sigshare)
 						lockValue, lockSig = payload.Value, payload.Sig
 						if len(VYr) > int(2*p.F) {
@@ -224,7 +235,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf2.Write(IDr)
 					sm2 := buf2.Bytes()
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
-					if err1 == nil && err2 == nil {
+					if index, _ := tblsScheme.IndexOf(payload.Sigshare); err1 == nil && err2 == nil && !seen[index] {
+						seen[index] = true //count every party once
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
diff --git a/internal/party/pb.go b/internal/party/pb.go
index 8b04b63..57ed17f 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -23,6 +23,7 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 	p.Broadcast(valueMessage)
 
 	sigs := [][]byte{}
+	seen := make(map[int]bool)
 	h := sha3.Sum512(value)
 	var buf bytes.Buffer
 	buf.Write([]byte("Echo"))
@@ -35,11 +36,11 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 		case <-ctx.Done():
 			return nil, false
 		case m := <-p.GetMessage("Echo", ID):
-
 			payload := core.Decapsulation("Echo", m).(*protobuf.Echo)
 			err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyshare("Echo"||ID||h)
 
-			if err == nil {
+			if index, _ := tblsScheme.IndexOf(payload.Sigshare); err == nil && !seen[index] {
+				seen[index] = true //count every party once
 				sigs = append(sigs, payload.Sigshare)
 				if len(sigs) > int(2*p.F) {
 					signature, _ := tblsScheme.Recover(p.SigPK, sm, sigs, int(2*p.F+1), int(p.N))
-- 
2.43.0


From d4ce96dcd1973b66a819070bd921e9a726391666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 06/49] fix: broadcast the coin share also when the round is
 decided right after the done flag

---
 internal/party/main_process.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 67feb09..8585ba7 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -154,21 +154,26 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
-		return
+		//the done flag may have been raised before this instance terminated
+		select {
+		case <-doneFlageChannel:
+		default:
+			return
+		}
 	case <-doneFlageChannel:
-		var buf bytes.Buffer
-		buf.Write([]byte("Done"))
-		buf.Write(IDr)
-		coinName := buf.Bytes()
+	}
 
-		coinShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, coinName) //sign("Done"||ID||r||coin share)
-		doneMessage := core.Encapsulation("Done", IDr, p.PID, &protobuf.Done{
-			CoinShare: coinShare,
-		})
+	var buf bytes.Buffer
+	buf.Write([]byte("Done"))
+	buf.Write(IDr)
+	coinName := buf.Bytes()
 
-		p.Broadcast(doneMessage)
+	coinShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, coinName) //sign("Done"||ID||r||coin share)
+	doneMessage := core.Encapsulation("Done", IDr, p.PID, &protobuf.Done{
+		CoinShare: coinShare,
+	})
 
-	}
+	p.Broadcast(doneMessage)
 }
 
 func preVote(ctx context.Context, p *HonestParty, IDr []byte, l uint32, Lr *sync.Map) {
-- 
2.43.0


From 239366a15bb9bc95e3e1f86b168381bafc8c017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 07/49] fix: relay a valid Halt message before terminating on
 it

---
 internal/party/message_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 854c4ad..335a521 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -118,6 +118,8 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||2||h)
 				if err == nil {
+					//pass the proof on: a party that terminates no longer helps the others
+					p.Broadcast(core.Encapsulation("Halt", IDr, p.PID, payload))
 					haltChannel <- payload.Value
 					return
 				}
-- 
2.43.0


From 5a2d46db582f964714ad5d0db0c02f78086a64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 08/49] fix: recover every refresh polynomial that MVBA decides
 on

---
 internal/party/ProactivizeAndShareDist.go | 33 +++++++++++------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index a77084e..11b16aa 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -349,17 +349,22 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	RecoverMsgChan := make([]chan RecoverMsg, p.N+1) // index 0 is not used
 	for i := uint32(0); i <= p.N; i++ {
-		RecoverMsgChan[i] = make(chan RecoverMsg)
+		RecoverMsgChan[i] = make(chan RecoverMsg, p.N)
 	}
 
 	//Recover - receiving messages
 	go func() {
+		var received = make(map[[2]uint32]bool)
 		for {
 			m := <-p.GetMessage("Recover", ID)
 
 			var ReceivedRecoverData protobuf.Recover
 			proto.Unmarshal(m.Data, &ReceivedRecoverData)
 			k := ReceivedRecoverData.Index
+			if k < 1 || k > p.N || received[[2]uint32{m.Sender, k}] {
+				continue //one Recover message per sender and index
+			}
+			received[[2]uint32{m.Sender, k}] = true
 			//log.Printf("[Proactivize Recover][New party %v] Have received Recover message from party %v, k=%v\n", p.PID, m.Sender, k)
 			var tmpV_Array [32]byte
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
@@ -379,11 +384,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	MVBAResChan := make(chan []byte, 1)
 	for k := uint32(1); k <= p.N; k++ {
 		go func(k uint32) {
-			if !flgCom[k] {
-				//wait until flgCom[k]=1
-				// log.Printf("[Proactivize Recover][New party %v] Waiting for flgCom[%v]=1\n", p.PID, k)
-				<-startRecover[k]
-			}
+			//wait until flgCom[k]=1
+			// log.Printf("[Proactivize Recover][New party %v] Waiting for flgCom[%v]=1\n", p.PID, k)
+			<-startRecover[k]
 			for {
 				ReceivedRecoverMsg := <-RecoverMsgChan[k]
 				var mSender = ReceivedRecoverMsg.sender
@@ -434,7 +437,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							log.Printf("[Proactivize MVBA][New party %v] Call MVBA with input length %v\n", p.PID, len(MVBAIn.J))
 							MVBAInData, _ := proto.Marshal(MVBAIn)
 							MVBASent = true
-							MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							//the other Recover messages are still handled while MVBA is running
+							go func() {
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							}()
 						}
 						mutexMVBAIn.Unlock()
 					}
@@ -442,10 +448,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				} else {
 					log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v FAIL, k=%v. Current Srec[%v] lenth: %v\\n", p.PID, mSender, k, k, len(SRec[k]))
 				}
-				if MVBASent {
-					//log.Printf("[Proactivize Recover][New party %v] Recover done\n", p.PID)
-					break
-				}
 			}
 		}(k)
 	}
@@ -463,13 +465,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	for _, j := range MVBARes.J {
 
-		//wait until all related flgCom = 1
-		if !flgCom[j] {
-			<-RecDone[j]
-			p.mutexKZG.Lock()
-			CQ[j][p.PID+1] = *p.KZG.CommitToPoly(Q[j][p.PID+1])
-			p.mutexKZG.Unlock()
-		}
+		//wait until Q_j(x,index) is recovered, which implies flgCom[j] = 1
+		<-RecDone[j]
 
 		for i := 0; uint32(i) < p.F+1; i++ {
 			var tmpCoeff bls.Fr
-- 
2.43.0


From 5be3a973fb0cc3e946936004b7776d1cba9069b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 09/49] fix: combine the Recover certificate with the threshold
 of the key

---
 internal/party/ProactivizeAndShareDist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 11b16aa..7935b68 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -425,7 +425,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig[:len(SSig[k])], int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
-- 
2.43.0


From b88a7e05f474551f58b6f405d1c50be4cf813fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 10/49] fix: a Reshare message is valid only if all its
 evaluations are

---
 internal/party/ProactivizeAndShareDist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 7935b68..904ac39 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -275,7 +275,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			var vjki = make([]bls.Fr, 2*p.F+2)
 			var wjki = make([]bls.G1Point, 2*p.F+2)
-			var verifyReshareOK = false
+			var verifyReshareOK = true
 
 			for k := uint32(1); k <= 2*p.F+1; k++ {
 				vjki_bytes := [32]byte{}
@@ -288,9 +288,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				var position_vjki bls.Fr
 				bls.AsFr(&position_vjki, uint64(p.PID+1))
 				p.mutexKZG.Lock()
-				verifyReshareOK = p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
+				verifyEvalOK := p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
 				p.mutexKZG.Unlock()
-				if !verifyReshareOK {
+				if !verifyEvalOK {
+					verifyReshareOK = false
 					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, vjki:%v, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), vjki[k].String(), wjki[k].String())
 					// break
 				}
-- 
2.43.0


From 6635a2d558e23a919867a7dfc2af6ceec48210da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 11/49] fix: accept only the sender's own signature share in a
 Recover message

---
 internal/party/ProactivizeAndShareDist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 904ac39..9fe2afe 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -402,9 +402,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				KZGVerifyOk := p.KZG.CheckProofSingle(&C, &wkij, &index, &vkij)
 				p.mutexKZG.Unlock()
 
+				SigShareIndex, _ := p.tblsScheme.IndexOf(ReceivedSigShare)
 				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
 
-				if KZGVerifyOk && (SigShareVerifyOk == nil) {
+				if KZGVerifyOk && (SigShareVerifyOk == nil) && SigShareIndex == int(mSender) {
 					mutexSRec.Lock()
 					SRec[k] = append(SRec[k], SRecElement{mSender + 1, vkij})
 					//log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v SUCCESS, k=%v. Current Srec[%v] lenth: %v\n", p.PID, mSender, k, k, len(SRec[k]))
-- 
2.43.0


From b30af7b43689098be6e487dc4fc099f5f8eda07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 12/49] fix: reject a VSSSend whose g^s does not match the
 committed polynomial

---
 internal/party/VSS.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index d3b78a6..50e1d03 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -88,6 +88,7 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 
 	if !bls.EqualG1(&piReceived.Gs, &tmpGs) {
 		log.Printf("[VSSEcho][Party %v] VSSSend Verify FAIL, g_s=%v, but prod(g^F(index))=%v \n", p.PID, piReceived.Gs.String(), tmpGs.String())
+		return false
 	}
 
 	//Verify KZG.VerifyEval(CZjk,0,0,WZjk0) == 1 && CBjk == CZjk * g^Fj(k) for k in [1,2t+1]
-- 
2.43.0


From bf6a7a20b953c6972a97f8608b44b8bfddc49a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 13/49] fix: handle one Reshare, ShareDist and Success message
 per member in a handoff

---
 internal/party/ProactivizeAndShareDist.go | 15 ++++++++-------
 internal/party/party_utils.go             | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 9fe2afe..c81e095 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -258,20 +258,19 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// 	SigShare[i] = make(map[uint32][]byte)
 	// }
 
+	var ReshareMessages = p.GetMessageOnce("Reshare", ID)
 	for ctr := uint32(1); ctr <= p.N; ctr++ {
 		//ctr is not used here
 		go func(ctr uint32) {
-			m := <-p.GetMessage("Reshare", ID)
+			m := <-ReshareMessages
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
 
 			indexJ := m.Sender + 1
 			//wait until flgCom[indexJ]=1
-			if !flgCom[indexJ] {
-				// fmt.Printf("[Proactivize Vote][New party %v] Waiting for flgCom[%v]=1\n", p.PID, indexJ)
-				<-startVote[indexJ]
-			}
+			// fmt.Printf("[Proactivize Vote][New party %v] Waiting for flgCom[%v]=1\n", p.PID, indexJ)
+			<-startVote[indexJ]
 
 			var vjki = make([]bls.Fr, 2*p.F+2)
 			var wjki = make([]bls.G1Point, 2*p.F+2)
@@ -610,10 +609,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var SuccessSent = false
 	var SuccessSentChan = make(chan bool, 1)
 
+	var ShareDistMessages = p.GetMessageOnce("ShareDist", ID)
 	for index := uint32(0); index < p.N; index++ {
 		//index is not used here
 		go func(index uint32) {
-			m := <-p.GetMessage("ShareDist", ID)
+			m := <-ShareDistMessages
 
 			var ReceivedShareDistData protobuf.ShareDist
 			proto.Unmarshal(m.Data, &ReceivedShareDistData)
@@ -679,12 +679,13 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// Receive Success Message
 	// var ReceivedSuccessData protobuf.Success
 	var SuccessCount = uint32(0)
+	var SuccessMessages = p.GetMessageOnce("Success", ID)
 	var EnterNormalChan = make(chan bool, 1)
 
 	go func() {
 		<-SuccessSentChan
 		for {
-			<-p.GetMessage("Success", ID)
+			<-SuccessMessages
 			// the content is useless here
 			// proto.Unmarshal(m.Data, &ReceivedSuccessData)
 			SuccessCount++
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index d676632..e21b898 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -112,6 +112,22 @@ func (p *HonestParty) GetMessage(messageType string, ID []byte) chan *protobuf.M
 	return value2.(chan *protobuf.Message)
 }
 
+//GetMessageOnce returns a channel with the first message of each committee member
+func (p *HonestParty) GetMessageOnce(messageType string, ID []byte) chan *protobuf.Message {
+	messages := make(chan *protobuf.Message, p.N)
+	go func() {
+		received := make(map[uint32]bool)
+		for uint32(len(received)) < p.N {
+			m := <-p.GetMessage(messageType, ID)
+			if m.Sender < p.N && !received[m.Sender] {
+				received[m.Sender] = true
+				messages <- m
+			}
+		}
+	}()
+	return messages
+}
+
 func (p *HonestParty) checkSendChannelsInit() bool {
 	return p.sendToNextChannels != nil
 }
-- 
2.43.0


From 49af6dd3412c81ffb622df715da3f1897d6522aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 14/49] fix: guard the ShareDist values collected by concurrent
 handlers

---
 internal/party/ProactivizeAndShareDist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index c81e095..0d073ff 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -513,6 +513,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		SComChan[i] = make(chan bool, 1)
 	}
 	var SB = make([]SBElement, 0)
+	var SBMutex sync.Mutex
 	var SComMutex sync.Mutex
 
 	var startCommitChan = make(chan bool, 1)
@@ -642,6 +643,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			if verifyKZGOk {
 				//log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v SUCCESS\n", p.PID, j)
+				SBMutex.Lock()
 				SB = append(SB, SBElement{
 					index: j,
 					CB:    currentCB,
@@ -670,6 +672,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					SuccessSentChan <- true
 					//log.Printf("[ShareDist Interpolate][New party %v] Interpolate done\n", p.PID)
 				}
+				SBMutex.Unlock()
 			} else {
 				log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v FAIL\n", p.PID, j)
 			}
-- 
2.43.0


From 1c957a10118a9bb29ec019f9d981d2e65f706597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 15/49] fix: count every old party once when adopting its
 Prepare and ShareReduce data

---
 internal/party/ShareReduce.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 249a37c..4cd560c 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -70,12 +70,17 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 	wJ := bls.ZeroG1
 
 	var cnt = 0 //used to judge whether to execute p.ShareReduceStart_new = time.Now()
+	var received = make(map[uint32]bool)
 
 	for {
 		m := <-p.GetMessage("ShareReduce", ID)
 		if cnt == 0 {
 			p.ShareReduceStart_new = time.Now()
 		}
+		if m.Sender >= p.N || received[m.Sender] {
+			continue //count every old party once
+		}
+		received[m.Sender] = true
 		//log.Printf("[ShareReduce][New party %v] Receive ShareReduce message from %v\n", p.PID, m.Sender)
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
@@ -171,6 +176,7 @@ func (p *HonestParty) PrepareSend(ID []byte) {
 func (p *HonestParty) PrepareReceive(ID []byte) {
 
 	ProofMap := make(map[string]int)
+	received := make(map[uint32]bool)
 
 	var cnt = 0 //used to judge whether to execute p.PrepareStart_new = time.Now()
 
@@ -179,6 +185,10 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 		if cnt == 0 {
 			p.PrepareStart_new = time.Now()
 		}
+		if msg.Sender >= p.N || received[msg.Sender] {
+			continue //count every old party once
+		}
+		received[msg.Sender] = true
 		hash := sha256.New()
 		hash.Write(msg.Data)
 		hashToString := string(hash.Sum(nil))
-- 
2.43.0


From c251800972f619f4a0f32f307cbd231f81f2ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 16/49] fix: keep the refreshed commitments and witnesses for
 the next handoff

---
 internal/party/ProactivizeAndShareDist.go | 46 +++++++++++++----------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 0d073ff..e738a6f 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -567,30 +567,31 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}()
 
 	//Verify
+	//the commitments to the refreshed B'(x,j), i.e., C_B(x,j) * prod C_Q(x,j)
+	var newCB = make([]bls.G1Point, p.N+1)
+	{
+		CBList := make([]bls.G1Point, 2*p.F+2)
+		for i := uint32(1); i <= 2*p.F+1; i++ {
+			bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
+		}
+		for j := uint32(1); j <= p.N; j++ {
+			p.mutexKZG.Lock()
+			oldCB := p.InterpolateComOrWit(2*p.F, j, CBList[1:])
+			bls.AddG1(&newCB[j], &oldCB, &CQsum[j])
+			p.mutexKZG.Unlock()
+		}
+		//the next handoff starts from the refreshed commitments
+		for j := uint32(1); j <= 2*p.F+1; j++ {
+			bls.CopyG1(&p.Proof.PiContents[j].CBj, &newCB[j])
+		}
+	}
+
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
 			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
 			NewCommitData := m.Data
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
-			var oldCB bls.G1Point
-			if j <= 2*p.F+1 {
-				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
-			} else {
-				CBList := make([]bls.G1Point, 2*p.F+2)
-				for i := uint32(1); i <= 2*p.F+1; i++ {
-					bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
-				}
-				p.mutexKZG.Lock()
-				oldCB = p.InterpolateComOrWit(2*p.F, j, CBList[1:])
-				p.mutexKZG.Unlock()
-			}
-
-			var addResult bls.G1Point
-			p.mutexKZG.Lock()
-			bls.AddG1(&addResult, &oldCB, &CQsum[j])
-			p.mutexKZG.Unlock()
-
-			if bls.EqualG1(ReceivedCB, &addResult) {
+			if bls.EqualG1(ReceivedCB, &newCB[j]) {
 				// log.Printf("[ShareDist][New party %v] Verify NEWCOM from RBC_2j SUCCESS, j=%v\n", p.PID, j)
 				SComMutex.Lock()
 				SCom[j] = SComElement{
@@ -601,7 +602,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				SComChan[j] <- true
 				//log.Printf("[ShareDist Verify][New party %v] %v-th Verify NewCom done\n", p.PID, j)
 			} else {
-				log.Printf("[ShareDist Verify][New party %v] Verify NewCom from RBC_2j FAIL, j=%v, receivedCB:%s, addResult:%s\n", p.PID, j, ReceivedCB.String(), addResult.String())
+				log.Printf("[ShareDist Verify][New party %v] Verify NewCom from RBC_2j FAIL, j=%v, receivedCB:%s, addResult:%s\n", p.PID, j, ReceivedCB.String(), newCB[j].String())
 			}
 		}(j)
 	}
@@ -661,6 +662,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					}
 
 					p.fullShare = polyring.LagrangeInterpolate(2*int(p.F), DistX, DistY)
+					//the witnesses of the new share are needed in the next ShareReduce
+					for t := uint32(0); t < 2*p.F+1; t++ {
+						bls.CopyFr(&p.witnessIndexes[t], &DistX[t])
+						bls.CopyG1(&p.witness[t], &SB[t].w)
+					}
 					//log.Printf("[ShareDist Interpolate][New party %v] Recover the fullShare B'(i,y):\n", p.PID)
 					//log.Printf("(B'(%v,y)):%s",p.PID+1,PolyToString(p.fullShare))
 
-- 
2.43.0


From 0dd32ab4f1b889505362e83fda0e6e161e107c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 17/49] fix: count every party's RBCEcho once

---
 internal/party/RBC.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index d4c58ff..24377ec 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -107,8 +107,13 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 	//handle Echo Message, line 11-12, Algo 4 in RBC paper
 	go func() {
+		var hasReceivedEcho = make(map[uint32]bool) //avoid replay attack
 		for {
 			m := <-p.GetMessage("RBCEcho", ID)
+			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
 			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
 			var payloadMessage protobuf.RBCEcho
 			proto.Unmarshal(m.Data, &payloadMessage)
@@ -163,7 +168,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	go func() {
 		for {
 			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
+			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
 				continue
 			} else {
 				hasReceivedReady[m.Sender] = true
-- 
2.43.0


From cad3d7ab9f3e18a27265684a7a525ab829f109e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 18/49] fix: amplify RBCReady only with RBCEcho messages of the
 same hash

---
 internal/party/RBC.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 24377ec..7d63d15 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -209,7 +209,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 					res = <-readyChan
 					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
 					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
+					if res.h == hashString && uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
 						mutexEchoMap.Unlock()
 						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
 						mutex.Lock()
-- 
2.43.0


From 3ddbefc108719be19065d5dbd41c202c3e4505b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 19/49] fix: RBC outputs the message although up to F received
 shards are wrong

---
 internal/party/RBC.go | 107 ++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 52 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 7d63d15..719c375 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -51,8 +51,6 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 
 	//T_h in line 16, Algo 4, RBC paper. T maps the hash to []m_received = {(index,mj), ...}
 	var T = make(map[string][]mReceived)
-	var MaxReadyNumber = int(0)
-	var MaxReadyHash []byte
 
 	var isReadySent = false
 	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
@@ -60,8 +58,8 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	var mutexReadyMap sync.Mutex
 
 	var readyChan = make(chan hm, p.N)
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
+	var RSDecStartChan = make(chan []mReceived, p.N) // the shards received so far, once there are enough of them
+	var RSDecHash []byte                             // the hash that N-F parties are ready for
 
 	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
 	for i := uint32(0); i < p.N; i++ {
@@ -193,11 +191,6 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 				T[hashString] = append(T[hashString], mReceived{int(j), mJ})
 			}
 
-			if len(T[hashString]) > MaxReadyNumber {
-				MaxReadyNumber = len(T[hashString])
-				MaxReadyHash = hash
-			}
-
 			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
 			mutex.Lock()
 			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
@@ -230,9 +223,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			}
 
 			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
-				RSDecStartChan <- true
+			if uint32(len(T[hashString])) >= p.N-p.F {
+				RSDecHash = hash
+				RSDecStartChan <- append([]mReceived{}, T[hashString]...)
 			}
 			mutexReadyMap.Unlock()
 
@@ -245,53 +238,63 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	}()
 
 	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
-	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
-	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
+	// At most t of them are wrong, so some 2t of the shards are correct at the latest when all the
+	// honest parties' shards are here.  Every new shard is tried together with the earlier ones.
+	var tried = 0
+	for {
+		shards := <-RSDecStartChan
+		for ; tried < len(shards); tried++ {
+			M := p.rbcDecode(RSDecHash, shards[:tried], shards[tried], nil)
+			if M != nil {
+				var replyMessage protobuf.Message
+				proto.Unmarshal(M, &replyMessage)
+				// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
+				return &replyMessage
 			}
 		}
+	}
+}
 
-		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
-		mutexReadyMap.Unlock()
-
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
+//rbcDecode looks for n-(t+1) shards, including last and chosen and otherwise from shards, that
+//decode to a message with the given hash.  It returns that message, or nil if there is none.
+func (p *HonestParty) rbcDecode(hash []byte, shards []mReceived, last mReceived, chosen []mReceived) []byte {
+	k := int(p.N - (p.F + 1))
+	if missing := k - 1 - len(chosen); missing > 0 {
+		for i := len(shards) - 1; i+1 >= missing; i-- {
+			if M := p.rbcDecode(hash, shards[:i], last, append(chosen, shards[i])); M != nil {
+				return M
+			}
 		}
+		return nil
+	}
 
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
+	var M = make([][]byte, p.N)
+	for _, s := range append(chosen, last) {
+		M[s.j] = s.mj
+	}
+	RSEncoder, _ := reedsolomon.New(k, int(p.F+1))
+	if err := RSEncoder.Reconstruct(M); err != nil {
+		return nil
+	}
 
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
+	//parse M and remove the padding zeros
+	var mReconstructed = make([]byte, 0)
+	for i := 0; i < k; i++ {
+		mReconstructed = append(mReconstructed, M[i]...)
+	}
 
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
+	//the last several bytes in hash are the length of M' (see line 9, Algo 4 in RBC paper)
+	//the first 256/8 bytes in hash are the hash value
+	mLenNew := utils.BytesToInt(hash[256/8:])
+	if mLenNew > len(mReconstructed) {
+		return nil
+	}
+	mReconstructed = mReconstructed[0:mLenNew]
 
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
-			var replyMessage protobuf.Message
-			proto.Unmarshal(mReconstructed, &replyMessage)
-			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
-			return &replyMessage
-		}
+	hNew := sha256.New()
+	hNew.Write(mReconstructed)
+	if !bytes.Equal(hNew.Sum(nil), hash[:256/8]) {
+		return nil
 	}
-	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
-	return nil
+	return mReconstructed
 }
-- 
2.43.0


From f19c1014c7278c0d8ca061cde0841d82210a5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 20/49] fix: a broken connection to one member does not
 terminate the process

---
 pkg/core/receive.go |  6 ++++--
 pkg/core/send.go    | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 67e775a..f4afbea 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -54,14 +54,16 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 					_, err2 := io.ReadFull(conn, buf)
 					if err1 != nil || err2 != nil {
 						fmt.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
-						log.Fatalln("The receive channel has broken down", err1, err2)
+						conn.Close() //the other connections are not affected
+						return
 					}
 					//Do Unmarshal
 					var m protobuf.Message
 					err3 := proto.Unmarshal(buf, &m)
 					if err3 != nil {
 						fmt.Printf("Unmarshal error: %v\n", err3)
-						log.Fatalln(err3)
+						conn.Close()
+						return
 					}
 					//Push protobuf.Message to receivechannel
 					(channel) <- &m
diff --git a/pkg/core/send.go b/pkg/core/send.go
index e31d3e7..c36afad 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -36,9 +36,13 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 	//Make the send channel and the handle func
 	sendChannel := make(chan *protobuf.Message, MAXMESSAGE)
 	go func(conn *net.TCPConn, channel chan *protobuf.Message) {
+		broken := false
 		for {
 			//Pop protobuf.Message form sendchannel
 			m := <-(channel)
+			if broken {
+				continue //nobody receives the messages to this node any more
+			}
 			//Do Marshal
 			byt, err1 := proto.Marshal(m)
 			if err1 != nil {
@@ -51,11 +55,10 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 			_, err3 := conn.Write(byt)
 			if err2 != nil {
 				fmt.Printf("Send message ERROR:%v\n", err2)
-				log.Fatalln("The send channel has broken down!", err2)
-			}
-			if err3 != nil {
+				broken = true
+			} else if err3 != nil {
 				fmt.Printf("Send message ERROR:%v\n", err3)
-				log.Fatalln("The send channel has broken down!", err3)
+				broken = true
 			}
 		}
 	}(conn, sendChannel)
-- 
2.43.0


From 7fe282dc9b45fa88239c6297afcd9a354b33e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 21/49] fix: serialize field elements below 2^248 in the hol256
 and pure backends

---
 internal/bls/bignum_hol256.go | 4 ++--
 internal/bls/bignum_pure.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bls/bignum_hol256.go b/internal/bls/bignum_hol256.go
index 6873c39..d5f39c8 100755
--- a/internal/bls/bignum_hol256.go
+++ b/internal/bls/bignum_hol256.go
@@ -48,13 +48,13 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*u256.Int)(src).Bytes()
+	b := (*u256.Int)(src).Bytes32() // all 32 bytes, leading zeros included
 	last := len(b) - 1
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
 		b[i], b[last-i] = b[last-i], b[i]
 	}
-	copy(v[:], b)
+	copy(v[:], b[:])
 	return
 }
 
diff --git a/internal/bls/bignum_pure.go b/internal/bls/bignum_pure.go
index 40c74c8..9eaeac6 100755
--- a/internal/bls/bignum_pure.go
+++ b/internal/bls/bignum_pure.go
@@ -36,7 +36,7 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*big.Int)(src).Bytes()
+	b := (*big.Int)(src).FillBytes(make([]byte, 32)) // all 32 bytes, leading zeros included
 	last := len(b) - 1
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From 4549a54124940e4209cae53a7f25fc42bf83365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 22/49] fix: AsFr of the herumi backend is correct for integers
 above 2^63

---
 internal/bls/bignum_hbls.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/bls/bignum_hbls.go b/internal/bls/bignum_hbls.go
index 30a72a1..162842b 100755
--- a/internal/bls/bignum_hbls.go
+++ b/internal/bls/bignum_hbls.go
@@ -7,6 +7,7 @@ forked from https://github.com/protolambda/go-kzg at Feb 2,2023
 package bls
 
 import (
+	"encoding/binary"
 	"math/big"
 	"unsafe"
 
@@ -60,7 +61,9 @@ func CopyFr(dst *Fr, v *Fr) {
 }
 
 func AsFr(dst *Fr, i uint64) {
-	(*hbls.Fr)(dst).SetInt64(int64(i))
+	var data [8]byte
+	binary.LittleEndian.PutUint64(data[:], i)
+	(*hbls.Fr)(dst).SetLittleEndian(data[:])
 }
 
 func FrStr(b *Fr) string {
-- 
2.43.0


From 36ce4cc81ff84607d785269c2741c9f11906b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 23/49] fix: multi proofs of polynomials of degree 2n and more
 at points with x != 0

---
 internal/polycommit/kzg_multi_proofs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/polycommit/kzg_multi_proofs.go b/internal/polycommit/kzg_multi_proofs.go
index dca9c9c..7aa705b 100755
--- a/internal/polycommit/kzg_multi_proofs.go
+++ b/internal/polycommit/kzg_multi_proofs.go
@@ -22,6 +22,7 @@ func (ks *KZGSettings) ComputeProofMulti(poly []bls.Fr, x uint64, n uint64) *bls
 	// TODO: inefficient, could use squaring, or maybe BLS lib offers a power method?
 	// TODO: for small ranges, maybe compute pow(x, n, mod) in uint64?
 	var xPowN, tmp bls.Fr
+	bls.CopyFr(&xPowN, &bls.ONE)
 	for i := uint64(0); i < n; i++ {
 		bls.MulModFr(&tmp, &xPowN, &xFr)
 		bls.CopyFr(&xPowN, &tmp)
-- 
2.43.0


From eda8c8fdaca1967faa87c8a317dca4d5671fbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 24/49] fix: an RBC instance of a handoff takes the proposal of
 its own member only

---
 internal/party/ProactivizeAndShareDist.go |  4 ++--
 internal/party/RBC.go                     | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index e738a6f..30ca870 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -142,7 +142,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceiveFrom([]byte(string(ID)+"_1,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
@@ -588,7 +588,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceiveFrom([]byte(string(ID)+"_2,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
 			if bls.EqualG1(ReceivedCB, &newCB[j]) {
diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 719c375..6680949 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -41,7 +41,17 @@ func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32)
 	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
 }
 
+//RBCReceive outputs the message of an RBC instance, whoever proposes it
 func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	return p.rbcReceive(ID, func(sender uint32) bool { return true })
+}
+
+//RBCReceiveFrom outputs the message of an RBC instance that belongs to the given proposer
+func (p *HonestParty) RBCReceiveFrom(ID []byte, proposer uint32) *protobuf.Message {
+	return p.rbcReceive(ID, func(sender uint32) bool { return sender == proposer })
+}
+
+func (p *HonestParty) rbcReceive(ID []byte, isProposer func(sender uint32) bool) *protobuf.Message {
 	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
 	var mLen int                 // the length of M_i
 	//here we ignore the validator function P(.)
@@ -69,6 +79,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
+		for !isProposer(m.Sender) {
+			m = <-p.GetMessage("RBCPropose", ID)
+		}
 		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
 		M := m.Data
 		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-- 
2.43.0


From a2e61583bfd3d785953429916722638fd1ce0b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 25/49] fix: RBC delivers an empty message instead of crashing

---
 internal/party/RBC.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 6680949..f12f2ef 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -90,6 +90,9 @@ func (p *HonestParty) rbcReceive(ID []byte, isProposer func(sender uint32) bool)
 
 		//encode
 		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+		if mLen == 0 {
+			M = []byte{0} // an empty message cannot be split
+		}
 		shards, _ := RSEncoder.Split(M)
 		RSEncoder.Encode(shards)
 		//copy, avoid "M1" becoming nullPointer when "shards" is released at the end of this goroutine
-- 
2.43.0


From 9e8037d22845a9736c6fd6685ea53d23d3d9fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 26/49] fix: a queue that nobody reads does not hold up the
 messages of the others

---
 pkg/core/dispatche.go | 46 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/pkg/core/dispatche.go b/pkg/core/dispatche.go
index 9b3368f..921a1e8 100644
--- a/pkg/core/dispatche.go
+++ b/pkg/core/dispatche.go
@@ -10,6 +10,7 @@ import (
 // and make a double layer Map : (messageType) --> (id) --> (channel)
 func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *sync.Map {
 	dispatcheChannels := new(sync.Map)
+	backlogs := make(map[chan *protobuf.Message]*backlog)
 
 	go func() { //dispatcher
 		for {
@@ -18,7 +19,11 @@ func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *syn
 
 			value2, _ := value1.(*sync.Map).LoadOrStore(string(m.Id), make(chan *protobuf.Message, N*N)) //ch change the size to N*N
 
-			value2.(chan *protobuf.Message) <- m
+			channel := value2.(chan *protobuf.Message)
+			if backlogs[channel] == nil {
+				backlogs[channel] = new(backlog)
+			}
+			backlogs[channel].put(channel, m)
 			//TODO: check reply attack?
 			//TODO: check m.Sender with ip||port
 
@@ -26,3 +31,42 @@ func MakeDispatcheChannels(receiveChannel chan *protobuf.Message, N uint32) *syn
 	}()
 	return dispatcheChannels
 }
+
+// backlog holds the messages that a full channel has no room for,
+// so that a channel nobody reads does not hold up the others
+type backlog struct {
+	mutex    sync.Mutex
+	messages []*protobuf.Message
+}
+
+// put sends m to the channel after everything put before, without blocking
+func (b *backlog) put(channel chan *protobuf.Message, m *protobuf.Message) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	if len(b.messages) == 0 {
+		select {
+		case channel <- m:
+			return
+		default:
+		}
+		go b.drain(channel)
+	}
+	b.messages = append(b.messages, m)
+}
+
+// drain moves the messages to the channel until none is left
+func (b *backlog) drain(channel chan *protobuf.Message) {
+	for {
+		b.mutex.Lock()
+		m := b.messages[0]
+		b.mutex.Unlock()
+		channel <- m
+		b.mutex.Lock()
+		b.messages = b.messages[1:]
+		done := len(b.messages) == 0
+		b.mutex.Unlock()
+		if done {
+			return
+		}
+	}
+}
-- 
2.43.0


From 7dfe492b08296f784fb2b95523d2d4cc71a64a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 27/49] fix: MVBA of a handoff decides only on signed parties,
 at least F+1 of them

---
 internal/party/ProactivizeAndShareDist.go | 27 +++++++++++++++++++++--
 internal/party/main_process.go            |  9 +++++---
 internal/party/spb.go                     | 12 +++++++++-
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 30ca870..677b848 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -1,6 +1,7 @@
 package party
 
 import (
+	"errors"
 	"log"
 	"strconv"
 	"sync"
@@ -12,6 +13,29 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
+//checkMVBAInput checks that an input of MVBA names at least F+1 different parties,
+//each with the committee's signature that its refresh polynomial can be recovered
+func (p *HonestParty) checkMVBAInput(value []byte) error {
+	var input protobuf.MVBAIN
+	if err := proto.Unmarshal(value, &input); err != nil {
+		return err
+	}
+	if uint32(len(input.J)) < p.F+1 || len(input.Sig) != len(input.J) {
+		return errors.New("not enough parties in the MVBA input")
+	}
+	named := make(map[uint32]bool)
+	for i, j := range input.J {
+		if j < 1 || j > p.N || named[j] {
+			return errors.New("wrong party in the MVBA input")
+		}
+		named[j] = true
+		if err := p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), []byte(strconv.FormatUint(uint64(j), 10)), input.Sig[i]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	p.ProactivizeStart = time.Now()
@@ -440,7 +464,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							MVBASent = true
 							//the other Recover messages are still handled while MVBA is running
 							go func() {
-								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+								MVBAResChan <- validatedMainProcess(p, ID, MVBAInData, []byte{}, p.checkMVBAInput) //temporary solution (MainProcess means smvba.MainProcess)
 							}()
 						}
 						mutexMVBAIn.Unlock()
@@ -454,7 +478,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}
 
 	//Refresh
-	//TODO: implement MVBA's verification
 	MVBAResData := <-MVBAResChan
 	var MVBARes protobuf.MVBAIN
 	proto.Unmarshal(MVBAResData, &MVBARes)
diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 8585ba7..cf380e0 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -18,6 +18,11 @@ import (
 
 //MainProcess is the main process of smvba instances
 func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []byte {
+	return validatedMainProcess(p, ID, value, validation, nil)
+}
+
+//validatedMainProcess is MainProcess on values that satisfy the predicate valid (any value if it is nil)
+func validatedMainProcess(p *HonestParty, ID []byte, value []byte, validation []byte, valid func(value []byte) error) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
 
@@ -39,8 +44,6 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		voteNoChannel := make(chan []byte, 1)
 		voteOtherChannel := make(chan []byte, 1)
 
-		//TODO: CheckValue
-
 		//Initialize SPB instances
 		var buf bytes.Buffer
 		buf.Write(ID)
@@ -57,7 +60,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 
 		for i := uint32(0); i < p.N; i++ {
 			go func(j uint32) {
-				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j])
+				value, sig, ok := validatedSPBReceiver(spbCtx, p, j, IDrj[j], valid)
 				if ok { //save Lock
 					Lr.Store(j, &protobuf.Lock{
 						Value: value,
diff --git a/internal/party/spb.go b/internal/party/spb.go
index 7d8ac93..a821f56 100644
--- a/internal/party/spb.go
+++ b/internal/party/spb.go
@@ -36,6 +36,11 @@ func SPBSender(ctx context.Context, p *HonestParty, ID []byte, value []byte, val
 
 //SPBReceiver is run by the receiver of a instance of strong provable broadcast
 func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte) ([]byte, []byte, bool) {
+	return validatedSPBReceiver(ctx, p, sender, ID, nil)
+}
+
+//validatedSPBReceiver is SPBReceiver for values that satisfy the predicate valid (any value if it is nil)
+func validatedSPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, valid func(value []byte) error) ([]byte, []byte, bool) {
 	var buf1, buf2 bytes.Buffer
 	buf1.Write(ID)
 	buf1.WriteByte(1)
@@ -44,7 +49,12 @@ func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte)
 	ID1 := buf1.Bytes()
 	ID2 := buf2.Bytes()
 
-	Receiver(ctx, p, sender, ID1, nil)
+	Receiver(ctx, p, sender, ID1, func(p *HonestParty, ID []byte, sender uint32, value []byte, validation []byte) error {
+		if valid == nil {
+			return nil
+		}
+		return valid(value)
+	})
 	value, sig, ok := Receiver(ctx, p, sender, ID2, validator)
 	if !ok {
 		return nil, nil, false
-- 
2.43.0


From 1ab1334836b65f04d0bd0a689d857f8961ea9ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 28/49] fix: a quotient by a polynomial of higher degree is
 zero instead of a panic

---
 internal/polycommit/poly.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/polycommit/poly.go b/internal/polycommit/poly.go
index e88a592..5eeab1b 100755
--- a/internal/polycommit/poly.go
+++ b/internal/polycommit/poly.go
@@ -22,6 +22,10 @@ func polyLongDiv(dividend []bls.Fr, divisor []bls.Fr) []bls.Fr {
 	aPos := len(a) - 1
 	bPos := len(divisor) - 1
 	diff := aPos - bPos
+	if diff < 0 {
+		// the dividend has a lower degree: the quotient is zero
+		return []bls.Fr{}
+	}
 	out := make([]bls.Fr, diff+1, diff+1)
 	for diff >= 0 {
 		quot := &out[diff]
-- 
2.43.0


From efcb816d839e74879a36a01ae9a4353bb0353b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 29/49] fix: FK20 proofs of polynomials with one coefficient or
 one chunk

---
 internal/polycommit/fk20_single.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/polycommit/fk20_single.go b/internal/polycommit/fk20_single.go
index aca81ed..61f54de 100755
--- a/internal/polycommit/fk20_single.go
+++ b/internal/polycommit/fk20_single.go
@@ -97,7 +97,7 @@ func (ks *KZGSettings) toeplitzCoeffsStepStrided(polynomial []bls.Fr, offset uin
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, k2, k2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1-offset])
-	for i := uint64(1); i <= k+1; i++ {
+	for i := uint64(1); i <= k+1 && i < k2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := k+2, 2*stride-offset-1; i < k2; i, j = i+1, j+stride {
@@ -113,7 +113,7 @@ func (ks *KZGSettings) toeplitzCoeffsStep(polynomial []bls.Fr) []bls.Fr {
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, n2, n2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1])
-	for i := uint64(1); i <= n+1; i++ {
+	for i := uint64(1); i <= n+1 && i < n2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := n+2, 1; i < n2; i, j = i+1, j+1 {
-- 
2.43.0


From 4f1c35fbacb379dc650ab0c280e0a837683fd308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 30/49] fix: FK20Multi combines as many proofs as a chunk
 stride has

---
 internal/polycommit/fk20_multi.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/polycommit/fk20_multi.go b/internal/polycommit/fk20_multi.go
index b29c7ef..1620706 100755
--- a/internal/polycommit/fk20_multi.go
+++ b/internal/polycommit/fk20_multi.go
@@ -33,8 +33,9 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 			ks.MaxWidth, n))
 	}
 
-	hExtFFT := make([]bls.G1Point, n2, n2)
-	for i := uint64(0); i < n2; i++ {
+	k2 := n2 / ks.chunkLen
+	hExtFFT := make([]bls.G1Point, k2, k2)
+	for i := uint64(0); i < k2; i++ {
 		bls.CopyG1(&hExtFFT[i], &bls.ZeroG1)
 	}
 
@@ -42,7 +43,7 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 	for i := uint64(0); i < ks.chunkLen; i++ {
 		toeplitzCoeffs := ks.toeplitzCoeffsStepStrided(polynomial, i, ks.chunkLen)
 		hExtFFTFile := ks.ToeplitzPart2(toeplitzCoeffs, ks.xExtFFTFiles[i])
-		for j := uint64(0); j < n2; j++ {
+		for j := uint64(0); j < k2; j++ {
 			bls.AddG1(&tmp, &hExtFFT[j], &hExtFFTFile[j])
 			bls.CopyG1(&hExtFFT[j], &tmp)
 		}
-- 
2.43.0


From e2bb1a61c3b2e5103964024ed71df5efb2af3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 31/49] fix: DASFFTExtension of fewer values than half the
 settings' width

---
 internal/polycommit/das_extension.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/das_extension.go b/internal/polycommit/das_extension.go
index c493a48..67ed961 100755
--- a/internal/polycommit/das_extension.go
+++ b/internal/polycommit/das_extension.go
@@ -75,7 +75,11 @@ func (fs *FFTSettings) DASFFTExtension(vals []bls.Fr) {
 	if uint64(len(vals))*2 > fs.MaxWidth {
 		panic("domain too small for extending requested values")
 	}
-	fs.dASFFTExtension(vals, 1)
+	domainStride := uint64(1)
+	if len(vals) > 0 {
+		domainStride = fs.MaxWidth / (uint64(len(vals)) * 2)
+	}
+	fs.dASFFTExtension(vals, domainStride)
 	// The above function didn't perform the divide by 2 on every layer.
 	// So now do it all at once, by dividing by 2**depth (=length).
 	var invLen bls.Fr
-- 
2.43.0


From ee3a9149e35e64d918829651805cc0304d4d137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 32/49] fix: ErasureCodeRecover with few or no missing values

---
 internal/polycommit/legacy_recovery.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/polycommit/legacy_recovery.go b/internal/polycommit/legacy_recovery.go
index 6e6dec6..262d2c5 100755
--- a/internal/polycommit/legacy_recovery.go
+++ b/internal/polycommit/legacy_recovery.go
@@ -174,6 +174,10 @@ func (fs *FFTSettings) ErasureCodeRecover(vals []*bls.Fr) ([]bls.Fr, error) {
 	}
 	// TODO: handle len(positions)==0 case
 	z := fs._zPoly(positions, fs.MaxWidth/uint64(len(vals)))
+	// with few positions z has fewer coefficients than there are values
+	for len(z) < len(vals) {
+		z = append(z, bls.ZERO)
+	}
 	//DebugFrs("z", z)
 	zVals, err := fs.FFT(z, false)
 	if err != nil {
-- 
2.43.0


From 3284d1f36748bd303e393c77c1fc8ec8c6a339b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 33/49] fix: the zero polynomial of no missing index is one

---
 internal/polycommit/zero_poly.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/zero_poly.go b/internal/polycommit/zero_poly.go
index 3cc4ab7..9dd1944 100755
--- a/internal/polycommit/zero_poly.go
+++ b/internal/polycommit/zero_poly.go
@@ -119,7 +119,16 @@ func (fs *FFTSettings) reduceLeaves(scratch []bls.Fr, dst []bls.Fr, ps [][]bls.F
 // Also calculates the FFT (the "evaluation polynomial").
 func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length uint64) ([]bls.Fr, []bls.Fr) {
 	if len(missingIndices) == 0 {
-		return make([]bls.Fr, length, length), make([]bls.Fr, length, length)
+		// the empty product: 1 everywhere
+		zeroEval, zeroPoly := make([]bls.Fr, length, length), make([]bls.Fr, length, length)
+		for i := range zeroEval {
+			bls.CopyFr(&zeroEval[i], &bls.ONE)
+			bls.CopyFr(&zeroPoly[i], &bls.ZERO)
+		}
+		if length > 0 {
+			bls.CopyFr(&zeroPoly[0], &bls.ONE)
+		}
+		return zeroEval, zeroPoly
 	}
 	if length > fs.MaxWidth {
 		panic("domain too small for requested length")
-- 
2.43.0


From c1019aba6edbdc831d1a4a51a0b945c2330e3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 34/49] fix: zero polynomial with nearly every index missing

---
 internal/polycommit/zero_poly.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/polycommit/zero_poly.go b/internal/polycommit/zero_poly.go
index 9dd1944..921f6dc 100755
--- a/internal/polycommit/zero_poly.go
+++ b/internal/polycommit/zero_poly.go
@@ -175,7 +175,8 @@ func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length
 		if end > max {
 			end = max
 		}
-		leaves[i] = out[outOffset : outOffset+perLeafPoly]
+		// the last leaf may have fewer indices, and then a lower degree
+		leaves[i] = out[outOffset : outOffset+(end-offset)+1]
 		fs.makeZeroPolyMulLeaf(leaves[i], missingIndices[offset:end], domainStride)
 		offset += perLeaf
 		outOffset += perLeafPoly
@@ -195,19 +196,19 @@ func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length
 		for i := uint64(0); i < reducedCount; i++ {
 			start := i * reductionFactor
 			end := start + reductionFactor
-			// E.g. if we *started* with 2 leaves, we won't have more than that since it is already a power of 2.
-			// If we had 3, it would have been rounded up anyway. So just pick the end
-			outEnd := end * leafSize
-			if outEnd > uint64(len(out)) {
-				outEnd = uint64(len(out))
-			}
-			reduced := out[start*leafSize : outEnd]
 			// unlike reduced output, input may be smaller than the amount that aligns with powers of two
 			if end > uint64(len(leaves)) {
 				end = uint64(len(leaves))
 			}
 			leavesSlice := leaves[start:end]
+			reduced := leavesSlice[0]
 			if end > start+1 {
+				// no larger than the product needs: the last one may be the size of the whole domain
+				reducedLen := uint64(1)
+				for _, leaf := range leavesSlice {
+					reducedLen += uint64(len(leaf)) - 1
+				}
+				reduced = out[start*leafSize : start*leafSize+nextPowOf2(reducedLen)]
 				reduced = fs.reduceLeaves(scratch, reduced, leavesSlice)
 			}
 			leaves[i] = reduced
-- 
2.43.0


From 43836321d34976e44721518fc81612d6fb636f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 35/49] fix: reject a malformed VSSSend message instead of
 crashing

---
 internal/party/VSS.go         | 21 ++++++++++++++++-----
 internal/party/party_utils.go | 25 +++++++++++++++++++------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index 50e1d03..663aeab 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -1,6 +1,7 @@
 package party
 
 import (
+	"errors"
 	"log"
 
 	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
@@ -28,19 +29,29 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	if err != nil {
 		log.Printf("[VSSEcho][Party %v] Unmarshal err: %v\n", p.PID, err)
 	}
-	piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
+	err = piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
+	if uint32(len(payloadMessage.BijList)) < 2*p.F+2 || uint32(len(payloadMessage.WBijList)) < 2*p.F+2 {
+		err = errors.New("not enough values or witnesses")
+	}
 
-	for j := uint32(1); j < 2*p.F+2; j++ {
+	for j := uint32(1); j < 2*p.F+2 && err == nil; j++ {
 
 		value_byte := [32]byte{}
 		copy(value_byte[:], payloadMessage.BijList[j])
 		bls.FrFrom32(&polyValueFromSend[j], value_byte)
 
-		wit_raw, _ := bls.FromCompressedG1(payloadMessage.WBijList[j])
-		bls.CopyG1(&witnessFromSend[j], wit_raw)
+		var wit_raw *bls.G1Point
+		wit_raw, err = bls.FromCompressedG1(payloadMessage.WBijList[j])
+		if err == nil {
+			bls.CopyG1(&witnessFromSend[j], wit_raw)
+		}
 	}
 
-	verifyOK = p.VerifyVSSSendReceived(polyValueFromSend, witnessFromSend, piFromSend)
+	if err != nil {
+		log.Printf("[VSSEcho][Party %v] Malformed VSSSend Message: %v\n", p.PID, err)
+	} else {
+		verifyOK = p.VerifyVSSSendReceived(polyValueFromSend, witnessFromSend, piFromSend)
+	}
 	if !verifyOK {
 		log.Printf("[VSSEcho][Party %v] Verify VSSSend FAIL\n", p.PID)
 	} else {
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index e21b898..3a28b18 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -253,17 +253,29 @@ func EncapsulateVSSSend(pi *Pi, BijList []bls.Fr, WBijList []bls.G1Point, F uint
 	return data
 }
 
-func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
+//SetFromVSSMessage sets pi to the content of a message, and returns an error if that is malformed
+func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) error {
+	if uint32(len(m.GetPiContents())) < 2*F+2 {
+		return errors.New("not enough commitments")
+	}
 
-	Gs_raw, _ := bls.FromCompressedG1(m.Gs)
+	Gs_raw, err := bls.FromCompressedG1(m.Gs)
+	if err != nil {
+		return err
+	}
 	bls.CopyG1(&pi.Gs, Gs_raw)
 
 	for j := uint32(1); j <= 2*F+1; j++ {
 
-		CBj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CBj)
-		CZj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CZj)
-		WZ0_raw, _ := bls.FromCompressedG1(m.PiContents[j].WZ0)
-		gFj_raw, _ := bls.FromCompressedG1(m.PiContents[j].GFj)
+		CBj_raw, err1 := bls.FromCompressedG1(m.PiContents[j].CBj)
+		CZj_raw, err2 := bls.FromCompressedG1(m.PiContents[j].CZj)
+		WZ0_raw, err3 := bls.FromCompressedG1(m.PiContents[j].WZ0)
+		gFj_raw, err4 := bls.FromCompressedG1(m.PiContents[j].GFj)
+		for _, err := range []error{err1, err2, err3, err4} {
+			if err != nil {
+				return err
+			}
+		}
 
 		bls.CopyG1(&pi.PiContents[j].CBj, CBj_raw)
 		bls.CopyG1(&pi.PiContents[j].CZj, CZj_raw)
@@ -272,6 +284,7 @@ func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
 
 		pi.PiContents[j].j = j
 	}
+	return nil
 }
 
 func (pi *Pi) Set(src *Pi, F uint32) {
-- 
2.43.0


From 768c60fd30cf1b0a820adec3d1bfe0becd1c935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 36/49] fix: ignore a malformed ShareReduce message instead of
 crashing

---
 internal/party/ShareReduce.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 4cd560c..dbeff96 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -85,8 +85,12 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
 
-		tmpC, _ := bls.FromCompressedG1(ShareReduceData.C)
-		tmpwJ, _ := bls.FromCompressedG1(ShareReduceData.W)
+		tmpC, errC := bls.FromCompressedG1(ShareReduceData.C)
+		tmpwJ, errW := bls.FromCompressedG1(ShareReduceData.W)
+		if errC != nil || errW != nil {
+			log.Printf("[ShareReduce][New party %v] Malformed Reduce message from old party %v\n", p.PID, m.Sender)
+			continue
+		}
 		tmpvJ_bytes := [32]byte{}
 		copy(tmpvJ_bytes[:], ShareReduceData.V)
 		bls.CopyG1(&C, tmpC)
-- 
2.43.0


From 2c6959f9171e4f58cc29b84a34fcc7e4ec486f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 37/49] fix: ignore malformed Commit, Reshare, Recover,
 NewCommit and ShareDist messages instead of crashing

---
 internal/party/ProactivizeAndShareDist.go | 55 ++++++++++++++++++-----
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 677b848..af7b643 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -173,8 +173,16 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			//TODO: This part can be replaced by verifying the commitment of KZG (reducing the communication cost from O(2t+1) to O(1))
 			GFjList := make([]bls.G1Point, 2*p.F+1)
+			if uint32(len(ReceivedData.Pi)) < 2*p.F+1 {
+				log.Printf("[Proactivize Verify][New party %v] Malformed Commit message, sender: %v\n", p.PID, m.Sender)
+				return
+			}
 			for i := uint32(0); i < 2*p.F+1; i++ {
-				tmpGFj, _ := bls.FromCompressedG1(ReceivedData.Pi[i].GFj)
+				tmpGFj, err := bls.FromCompressedG1(ReceivedData.Pi[i].GFj)
+				if err != nil {
+					log.Printf("[Proactivize Verify][New party %v] Malformed Commit message, sender: %v\n", p.PID, m.Sender)
+					return
+				}
 				bls.CopyG1(&GFjList[i], tmpGFj)
 			}
 			p.mutexKZG.Lock()
@@ -191,10 +199,15 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			//parse piJ from RBC1J
 			for k := uint32(0); k < 2*p.F+1; k++ {
-				CQk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
-				CZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
-				wZk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
-				GFk, _ := bls.FromCompressedG1(ReceivedData.Pi[k].GFj)
+				CQk, err1 := bls.FromCompressedG1(ReceivedData.Pi[k].CBj)
+				CZk, err2 := bls.FromCompressedG1(ReceivedData.Pi[k].CZj)
+				wZk, err3 := bls.FromCompressedG1(ReceivedData.Pi[k].WZ0)
+				GFk, err4 := bls.FromCompressedG1(ReceivedData.Pi[k].GFj)
+				if err1 != nil || err2 != nil || err3 != nil || err4 != nil {
+					log.Printf("[Proactivize Verify][New party %v] Malformed Commit message, sender: %v\n", p.PID, m.Sender)
+					revertFlag = true
+					break
+				}
 
 				var mulRes bls.G1Point
 				p.mutexKZG.Lock()
@@ -290,6 +303,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
+			if uint32(len(ReceivedReshareData.Qk)) < 2*p.F+1 || uint32(len(ReceivedReshareData.WQk)) < 2*p.F+1 {
+				log.Printf("[Proactivize Vote][New party %v] Malformed Reshare message from party %v\n", p.PID, m.Sender)
+				return
+			}
 
 			indexJ := m.Sender + 1
 			//wait until flgCom[indexJ]=1
@@ -304,7 +321,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				vjki_bytes := [32]byte{}
 				copy(vjki_bytes[:], ReceivedReshareData.Qk[k-1])
 				bls.FrFrom32(&vjki[k], vjki_bytes)
-				tmpWjki, _ := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
+				tmpWjki, err := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
+				if err != nil {
+					log.Printf("[Proactivize Vote][New party %v] Malformed Reshare message from party %v\n", p.PID, m.Sender)
+					verifyReshareOK = false
+					break
+				}
 				wjki[k] = *tmpWjki
 
 				C := CQ[indexJ][k]
@@ -385,7 +407,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			var ReceivedRecoverData protobuf.Recover
 			proto.Unmarshal(m.Data, &ReceivedRecoverData)
 			k := ReceivedRecoverData.Index
-			if k < 1 || k > p.N || received[[2]uint32{m.Sender, k}] {
+			if k < 1 || k > p.N || m.Sender >= p.N || received[[2]uint32{m.Sender, k}] {
 				continue //one Recover message per sender and index
 			}
 			received[[2]uint32{m.Sender, k}] = true
@@ -394,7 +416,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
 			var v bls.Fr
 			bls.FrFrom32(&v, tmpV_Array)
-			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
+			w, err := bls.FromCompressedG1(ReceivedRecoverData.W)
+			if err != nil {
+				log.Printf("[Proactivize Recover][New party %v] Malformed Recover message from party %v\n", p.PID, m.Sender)
+				continue
+			}
 			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
 		}
 	}()
@@ -613,7 +639,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		go func(j uint32) {
 			m := p.RBCReceiveFrom([]byte(string(ID)+"_2,"+strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
-			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
+			ReceivedCB, err := bls.FromCompressedG1(NewCommitData)
+			if err != nil {
+				log.Printf("[ShareDist Verify][New party %v] Malformed NewCommit message from RBC_2j, j=%v\n", p.PID, j)
+				return
+			}
 			if bls.EqualG1(ReceivedCB, &newCB[j]) {
 				// log.Printf("[ShareDist][New party %v] Verify NEWCOM from RBC_2j SUCCESS, j=%v\n", p.PID, j)
 				SComMutex.Lock()
@@ -652,13 +682,16 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			currentCB := SCom[j].CB
 			SComMutex.Unlock()
 			var vjShareDist bls.Fr
-			var wjShareDist *bls.G1Point
 			var i bls.Fr
 
 			var vjShareDist_Array [32]byte
 			copy(vjShareDist_Array[:], ReceivedShareDistData.B)
 			bls.FrFrom32(&vjShareDist, vjShareDist_Array)
-			wjShareDist, _ = bls.FromCompressedG1(ReceivedShareDistData.WB)
+			wjShareDist, err := bls.FromCompressedG1(ReceivedShareDistData.WB)
+			if err != nil {
+				log.Printf("[ShareDist][New party %v] Malformed ShareDist message from party %v\n", p.PID, m.Sender)
+				return
+			}
 			bls.AsFr(&i, uint64(p.PID+1))
 
 			p.mutexKZG.Lock()
-- 
2.43.0


From df67d42d1bd00524608ea1961474299351864564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 38/49] fix: ignore a Finish message of a sender outside of the
 committee

---
 internal/party/message_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 335a521..f7b22e5 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -35,7 +35,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 			case <-ctx.Done():
 				return
 			case m := <-p.GetMessage("Finish", IDr):
-				if seen[m.Sender] {
+				if m.Sender >= p.N || seen[m.Sender] {
 					continue //count every party once
 				}
 				payload := core.Decapsulation("Finish", m).(*protobuf.Finish)
-- 
2.43.0


From ae403015527a304c848375b232144cd1c9319ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 39/49] fix: copy the reduced share before the goroutines that
 distribute it

A goroutine of ProactivizeAndShareDist that is still to distribute the shares
when the committee starts the next handoff read the reduced share of that one.
---
 internal/party/ProactivizeAndShareDist.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index af7b643..594b87f 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -574,6 +574,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var CommitSent = make(chan bool, 1)
 	var DistributeSent = make(chan bool, 1)
 
+	//the next handoff may replace the reduced share before the goroutines below are done with it
+	var reducedShare = make([]bls.Fr, len(p.reducedShare))
+	copy(reducedShare, p.reducedShare)
+
 	//Distribute
 	go func() {
 		<-startDistributeChan
@@ -583,9 +587,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		for j := uint32(1); j <= p.N; j++ {
 			var positionJ bls.Fr
 			bls.AsFr(&positionJ, uint64(j))
-			bls.EvalPolyAt(&Bij, p.reducedShare, &positionJ)
+			bls.EvalPolyAt(&Bij, reducedShare, &positionJ)
 			p.mutexKZG.Lock()
-			wBij = *p.KZG.ComputeProofSingle(p.reducedShare, positionJ)
+			wBij = *p.KZG.ComputeProofSingle(reducedShare, positionJ)
 			p.mutexKZG.Unlock()
 
 			var ShareDistMessage protobuf.ShareDist
@@ -605,7 +609,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	go func() {
 		var CB bls.G1Point
 		p.mutexKZG.Lock()
-		CB = *p.KZG.CommitToPoly(p.reducedShare)
+		CB = *p.KZG.CommitToPoly(reducedShare)
 		p.mutexKZG.Unlock()
 
 		var NewcommitMessage protobuf.NewCommit
-- 
2.43.0


From 57c1be42a805333a876b9c34746582cc910e7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 40/49] fix: bind the signatures of Recover messages to the
 handoff

They covered only the number of the party, so that a certificate of one handoff
was valid in the next one of the same committee, where the refresh polynomial it
vouches for may never become known.
---
 internal/party/ProactivizeAndShareDist.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 594b87f..749c15a 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -13,9 +13,14 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
+//recoverName is what the parties sign in handoff ID when they can recover the refresh polynomial of party k
+func recoverName(ID []byte, k uint32) []byte {
+	return []byte("Recover" + string(ID) + "," + strconv.FormatUint(uint64(k), 10))
+}
+
 //checkMVBAInput checks that an input of MVBA names at least F+1 different parties,
-//each with the committee's signature that its refresh polynomial can be recovered
-func (p *HonestParty) checkMVBAInput(value []byte) error {
+//each with the committee's signature that its refresh polynomial can be recovered in handoff ID
+func (p *HonestParty) checkMVBAInput(ID []byte, value []byte) error {
 	var input protobuf.MVBAIN
 	if err := proto.Unmarshal(value, &input); err != nil {
 		return err
@@ -29,7 +34,7 @@ func (p *HonestParty) checkMVBAInput(value []byte) error {
 			return errors.New("wrong party in the MVBA input")
 		}
 		named[j] = true
-		if err := p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), []byte(strconv.FormatUint(uint64(j), 10)), input.Sig[i]); err != nil {
+		if err := p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), recoverName(ID, j), input.Sig[i]); err != nil {
 			return err
 		}
 	}
@@ -345,7 +350,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				//log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v ok\n", p.PID, m.Sender)
 
 				//sign sig share for indexJ (index 0 is not used)
-				SigShare, _ := p.tblsScheme.Sign(p.SigSK, []byte(strconv.FormatUint(uint64(indexJ), 10)))
+				SigShare, _ := p.tblsScheme.Sign(p.SigSK, recoverName(ID, indexJ))
 				//prepare the Recover message
 				var RecoverMessage protobuf.Recover
 				RecoverMessage.Index = indexJ
@@ -452,7 +457,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				p.mutexKZG.Unlock()
 
 				SigShareIndex, _ := p.tblsScheme.IndexOf(ReceivedSigShare)
-				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
+				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, recoverName(ID, k), ReceivedSigShare)
 
 				if KZGVerifyOk && (SigShareVerifyOk == nil) && SigShareIndex == int(mSender) {
 					mutexSRec.Lock()
@@ -476,7 +481,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig[:len(SSig[k])], int(2*p.F+1), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, recoverName(ID, k), tmpSig[:len(SSig[k])], int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
@@ -490,7 +495,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							MVBASent = true
 							//the other Recover messages are still handled while MVBA is running
 							go func() {
-								MVBAResChan <- validatedMainProcess(p, ID, MVBAInData, []byte{}, p.checkMVBAInput) //temporary solution (MainProcess means smvba.MainProcess)
+								MVBAResChan <- validatedMainProcess(p, ID, MVBAInData, []byte{}, func(value []byte) error { return p.checkMVBAInput(ID, value) }) //temporary solution (MainProcess means smvba.MainProcess)
 							}()
 						}
 						mutexMVBAIn.Unlock()
-- 
2.43.0


From 87ff06057ef896ba70d0f54e61e5e57a8d98cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 41/49] fix: a value proposed in a later MVBA round is
 justified by the round before

---
 internal/party/main_process.go | 43 ++++++++++++++++++++++++++++++++--
 internal/party/spb.go          |  6 ++---
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index cf380e0..3cc94b9 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -13,7 +13,9 @@ import (
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
 	kyberbls "github.com/drand/kyber-bls12381"
+	"github.com/drand/kyber/sign/bls"
 	"github.com/drand/kyber/sign/tbls"
+	"golang.org/x/crypto/sha3"
 )
 
 //MainProcess is the main process of smvba instances
@@ -25,6 +27,12 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 func validatedMainProcess(p *HonestParty, ID []byte, value []byte, validation []byte, valid func(value []byte) error) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
+	validProposal := func(value []byte, validation []byte) error { //condition on the values proposed in a round
+		if valid == nil {
+			return nil
+		}
+		return valid(value)
+	}
 
 	for r := uint32(0); ; r++ {
 		//fmt.Println("party", p.PID, ":round", r, "start", "value=", value, ID)
@@ -58,9 +66,10 @@ func validatedMainProcess(p *HonestParty, ID []byte, value []byte, validation []
 			IDrj = append(IDrj, buf.Bytes())
 		}
 
+		validInRound := validProposal
 		for i := uint32(0); i < p.N; i++ {
 			go func(j uint32) {
-				value, sig, ok := validatedSPBReceiver(spbCtx, p, j, IDrj[j], valid)
+				value, sig, ok := validatedSPBReceiver(spbCtx, p, j, IDrj[j], validInRound)
 				if ok { //save Lock
 					Lr.Store(j, &protobuf.Lock{
 						Value: value,
@@ -143,17 +152,47 @@ func validatedMainProcess(p *HonestParty, ID []byte, value []byte, validation []
 					return value
 				} else if flag == 1 { //No
 					sig := <-voteNoChannel
-					validation = append(validation, sig...)
+					validation = sig
 				} else {
 					//overwrite
 					value = <-voteOtherChannel
 					validation = <-voteOtherChannel
 				}
+
+				//a value may have been decided in this round: the next one takes the value locked
+				//in it, or another value with the proof that it was unlocked
+				validProposal = func(value []byte, validation []byte) error {
+					if valid != nil {
+						if err := valid(value); err != nil {
+							return err
+						}
+					}
+					return justification(p, IDr, IDrj[l], value, validation)
+				}
 			}
 		}
 	}
 }
 
+//justification checks the validation of a value that is proposed after the round IDr, whose leader ran the SPB instance IDrl
+func justification(p *HonestParty, IDr []byte, IDrl []byte, value []byte, validation []byte) error {
+	blsScheme := bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite())
+	var unlock bytes.Buffer
+	unlock.Write([]byte("Unlock"))
+	unlock.Write(IDr)
+	if blsScheme.Verify(p.SigPK.Commit(), unlock.Bytes(), validation) == nil { //verify("Unlock"||ID||r)
+		return nil
+	}
+
+	h := sha3.Sum512(value)
+	var lock bytes.Buffer
+	lock.Write([]byte("Echo"))
+	lock.Write(IDrl)
+	lock.WriteByte(1)
+	lock.Write(h[:])
+	return blsScheme.Verify(p.SigPK.Commit(), lock.Bytes(), validation) //verify("Echo"||ID||r||l||1||h)
+}
+
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
diff --git a/internal/party/spb.go b/internal/party/spb.go
index a821f56..dd0e8e8 100644
--- a/internal/party/spb.go
+++ b/internal/party/spb.go
@@ -39,8 +39,8 @@ func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte)
 	return validatedSPBReceiver(ctx, p, sender, ID, nil)
 }
 
-//validatedSPBReceiver is SPBReceiver for values that satisfy the predicate valid (any value if it is nil)
-func validatedSPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, valid func(value []byte) error) ([]byte, []byte, bool) {
+//validatedSPBReceiver is SPBReceiver for values that satisfy, with their validation, the predicate valid (any value if it is nil)
+func validatedSPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, valid func(value []byte, validation []byte) error) ([]byte, []byte, bool) {
 	var buf1, buf2 bytes.Buffer
 	buf1.Write(ID)
 	buf1.WriteByte(1)
@@ -53,7 +53,7 @@ func validatedSPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID
 		if valid == nil {
 			return nil
 		}
-		return valid(value)
+		return valid(value, validation)
 	})
 	value, sig, ok := Receiver(ctx, p, sender, ID2, validator)
 	if !ok {
-- 
2.43.0


From 4e3daa6d7bbf4e567f1695beaf0f11d7ddface99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 42/49] fix: take the dealing only from the dealer, not from a
 committee member

---
 internal/party/VSS.go    | 3 +++
 internal/party/client.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index 663aeab..76bd526 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -23,6 +23,9 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	//We assume VSS sender only sends VSSSend message once (whether the sender is honest or not)
 	//So there is no for-loop here: each party only processes VSSSend once
 	m := <-p.GetMessage("VSSSend", ID)
+	for m.Sender != dealerID {
+		m = <-p.GetMessage("VSSSend", ID) //the committee members are no dealers
+	}
 	log.Printf("[VSSEcho][Party %v] Received VSSSend Message\n", p.PID)
 	var payloadMessage protobuf.VSSSend
 	err := proto.Unmarshal(m.Data, &payloadMessage)
diff --git a/internal/party/client.go b/internal/party/client.go
index 65fb887..820c1fa 100644
--- a/internal/party/client.go
+++ b/internal/party/client.go
@@ -12,6 +12,9 @@ type Client struct {
 	s bls.Fr // the secret
 }
 
+//dealerID is the sender of the messages from the dealer (the client)
+const dealerID = 0x7fffffff
+
 //Share shares a secret client.s to the other parties
 //Assuming KZG setup has done, and public parameters are available
 func (client *Client) Share(ID []byte) {
@@ -116,7 +119,7 @@ func (client *Client) Share(ID []byte) {
 		err3 := client.Send(&protobuf.Message{
 			Type:   "VSSSend",
 			Id:     ID,
-			Sender: 0x7fffffff, // 0x7fffffff denotes the dealer (this client) id
+			Sender: dealerID,
 			Data:   data,
 		}, uint32(i-1)) // pid = i - 1
 		if err3 != nil {
-- 
2.43.0


From 400efe71266c9581c12946101e858bbaab038da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 43/49] fix: a connected node that does not read does not hold
 up the sender

---
 pkg/core/send.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/core/send.go b/pkg/core/send.go
index c36afad..9db121b 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -35,6 +35,8 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 	}
 	//Make the send channel and the handle func
 	sendChannel := make(chan *protobuf.Message, MAXMESSAGE)
+	writeChannel := make(chan *protobuf.Message)
+	go queueMessages(sendChannel, writeChannel)
 	go func(conn *net.TCPConn, channel chan *protobuf.Message) {
 		broken := false
 		for {
@@ -61,7 +63,24 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 				broken = true
 			}
 		}
-	}(conn, sendChannel)
+	}(conn, writeChannel)
 
 	return sendChannel
 }
+
+//queueMessages moves the messages from one channel to the other, and takes the next one even
+//if the other is not ready: a node that does not read must not hold up the sender
+func queueMessages(from chan *protobuf.Message, to chan *protobuf.Message) {
+	var queue []*protobuf.Message
+	for {
+		if len(queue) == 0 {
+			queue = append(queue, <-from)
+		}
+		select {
+		case m := <-from:
+			queue = append(queue, m)
+		case to <- queue[0]:
+			queue = queue[1:]
+		}
+	}
+}
-- 
2.43.0


From aace5717e750c448b74b3b41556a3080d5c58f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 44/49] fix: keep dialing a node that is not up instead of
 stopping the program

---
 pkg/core/send.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/pkg/core/send.go b/pkg/core/send.go
index 9db121b..0fa396c 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"net"
+	"time"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
@@ -14,30 +15,27 @@ import (
 //MAXMESSAGE is the size of channels
 var MAXMESSAGE = 1024
 
+//RETRYINTERVAL is the time between two attempts to connect to a node
+var RETRYINTERVAL = time.Second
+
 //MakeSendChannel returns a channel to send messages to hostIP
 func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
-	var addr *net.TCPAddr
-	var conn *net.TCPConn
-	var err1, err2 error
-	//Retry to connet to node
-	retry := true
-	for retry {
-		addr, err1 = net.ResolveTCPAddr("tcp4", hostIP+":"+hostPort)
-		conn, err2 = net.DialTCP("tcp4", nil, addr)
-		conn.SetKeepAlive(true)
-		if err1 != nil || err2 != nil {
-			log.Fatalln(err1)
-			log.Fatalln(err2)
-			// retry = true
-		} else {
-			retry = false
-		}
+	addr, err1 := net.ResolveTCPAddr("tcp4", hostIP+":"+hostPort)
+	if err1 != nil {
+		log.Fatalln(err1)
 	}
 	//Make the send channel and the handle func
 	sendChannel := make(chan *protobuf.Message, MAXMESSAGE)
 	writeChannel := make(chan *protobuf.Message)
 	go queueMessages(sendChannel, writeChannel)
-	go func(conn *net.TCPConn, channel chan *protobuf.Message) {
+	go func(channel chan *protobuf.Message) {
+		//Retry to connect to node: it may start later, or never, and nobody must wait for it
+		conn, err := net.DialTCP("tcp4", nil, addr)
+		for err != nil {
+			time.Sleep(RETRYINTERVAL)
+			conn, err = net.DialTCP("tcp4", nil, addr)
+		}
+		conn.SetKeepAlive(true)
 		broken := false
 		for {
 			//Pop protobuf.Message form sendchannel
@@ -63,7 +61,7 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 				broken = true
 			}
 		}
-	}(conn, writeChannel)
+	}(writeChannel)
 
 	return sendChannel
 }
-- 
2.43.0


From 774d406e7c96d665c9c54642d39ef43ece21480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 45/49] fix: accept the role names that the documented scripts
 use

---
 cmd/DyCAPs/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/DyCAPs/main.go b/cmd/DyCAPs/main.go
index 8e4fe6d..6c33a06 100644
--- a/cmd/DyCAPs/main.go
+++ b/cmd/DyCAPs/main.go
@@ -37,7 +37,7 @@ func main() {
 		sk, pk := party.SigKeyGenFix(uint32(*N), uint32(2**F+1))
 		skNew, pkNew := party.SigKeyGenFix_New(uint32(*N), uint32(2**F+1))
 		switch *option2 {
-		case "oldCommittee":
+		case "oldCommittee", "currentCommitee":
 			OutputLog, err := os.OpenFile(*metadataPath+"/exeLogOld"+strconv.Itoa(*id), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0777)
 			if err != nil {
 				log.Fatalf("error opening file: %v", err)
@@ -72,7 +72,7 @@ func main() {
 			fmt.Fprintf(f, "ShareReduceLatencyOld, %d\n", p.ShareReduceEnd_old.Sub(p.ShareReduceStart_old).Nanoseconds())
 
 			time.Sleep(20000 * time.Second)
-		case "newCommittee":
+		case "newCommittee", "newCommitee":
 			OutputLog, err := os.OpenFile(*metadataPath+"/exeLogNew"+strconv.Itoa(*id), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0777)
 			if err != nil {
 				log.Fatalf("error opening file: %v", err)
-- 
2.43.0


From dba60c331b335aedf1b4612da352b3f03bfbbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:13 +0000
Subject: [PATCH 46/49] fix: keep receiving when a connection cannot be
 accepted

---
 pkg/core/receive.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index f4afbea..b8d0bd8 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"time"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
@@ -38,11 +39,13 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 		for {
 			//The handle func run forever
 			conn, err3 = lis.AcceptTCP()
-			conn.SetKeepAlive(true)
 			if err3 != nil {
+				//such as too many open files: the other connections are not affected
 				fmt.Printf("receiveChannel ERROR: %v\n", err3)
-				log.Fatalln(err3)
+				time.Sleep(RETRYINTERVAL)
+				continue
 			}
+			conn.SetKeepAlive(true)
 			//Once connect to a node, make a sub-handle func to handle this connection
 			go func(conn *net.TCPConn, channel chan *protobuf.Message) {
 				for {
-- 
2.43.0


From 0a8b3446951558d365430614761fb37556b852b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:32 +0000
Subject: [PATCH 47/49] fix: read the flag of the sent RBCReady message under
 its lock

---
 internal/party/RBC.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index f12f2ef..9a7c49e 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -169,10 +169,11 @@ func (p *HonestParty) rbcReceive(ID []byte, isProposer func(sender uint32) bool)
 				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
 				readyChan <- hm{hash, mi}
 			}
+			done := isReadySent
 			mutex.Unlock() //TODO: move this unlock into if statement
 			mutexEchoMap.Unlock()
 			//finish this goroutine when RBCReady is sent
-			if isReadySent {
+			if done {
 				break
 			}
 		}
-- 
2.43.0


From 9c81ffa9ff8694d31d5c29418296a4315e70adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:33 +0000
Subject: [PATCH 48/49] fix: hand the hash of a broadcast over with its shards,
 not in a shared variable

---
 internal/party/RBC.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 9a7c49e..058849a 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -12,6 +12,12 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
+//rsDecStart holds the hash that N-F parties are ready for and the shards received with it
+type rsDecStart struct {
+	hash   []byte
+	shards []mReceived
+}
+
 // received message shard (RS code) in RBC
 type mReceived struct {
 	j  int
@@ -68,8 +74,7 @@ func (p *HonestParty) rbcReceive(ID []byte, isProposer func(sender uint32) bool)
 	var mutexReadyMap sync.Mutex
 
 	var readyChan = make(chan hm, p.N)
-	var RSDecStartChan = make(chan []mReceived, p.N) // the shards received so far, once there are enough of them
-	var RSDecHash []byte                             // the hash that N-F parties are ready for
+	var RSDecStartChan = make(chan rsDecStart, p.N) // the shards received so far, once there are enough of them
 
 	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
 	for i := uint32(0); i < p.N; i++ {
@@ -241,8 +246,7 @@ func (p *HonestParty) rbcReceive(ID []byte, isProposer func(sender uint32) bool)
 
 			// upon receiving |T| >= 2t+1 = n-t
 			if uint32(len(T[hashString])) >= p.N-p.F {
-				RSDecHash = hash
-				RSDecStartChan <- append([]mReceived{}, T[hashString]...)
+				RSDecStartChan <- rsDecStart{hash, append([]mReceived{}, T[hashString]...)}
 			}
 			mutexReadyMap.Unlock()
 
@@ -259,9 +263,10 @@ func (p *HonestParty) rbcReceive(ID []byte, isProposer func(sender uint32) bool)
 	// honest parties' shards are here.  Every new shard is tried together with the earlier ones.
 	var tried = 0
 	for {
-		shards := <-RSDecStartChan
+		start := <-RSDecStartChan
+		shards := start.shards
 		for ; tried < len(shards); tried++ {
-			M := p.rbcDecode(RSDecHash, shards[:tried], shards[tried], nil)
+			M := p.rbcDecode(start.hash, shards[:tried], shards[tried], nil)
 			if M != nil {
 				var replyMessage protobuf.Message
 				proto.Unmarshal(M, &replyMessage)
-- 
2.43.0


From 3fcff2c7280a2cd7ca18115a647aae482b8427dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:41 +0000
Subject: [PATCH 49/49] fix: keep the polynomials that are reshared apart from
 the recovered ones

---
 internal/party/ProactivizeAndShareDist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 749c15a..6a2beff 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -257,6 +257,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Reshare
 	go func() {
 		<-startReshare
+		ownQ := append([][]bls.Fr{}, Q[p.PID+1]...) // Recover may set one of them while the last messages are sent
 		//log.Printf("[Proactivize Reshare][New party %v] Reshare starts\n", p.PID)
 
 		// var wQ = make([][]*pbc.Element, p.N+1)
@@ -271,10 +272,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				var tmpwQ bls.G1Point
 				var positionQ bls.Fr
 				bls.AsFr(&positionQ, uint64(k))
-				bls.EvalPolyAt(&tmpQkj, Q[p.PID+1][j], &positionQ)
+				bls.EvalPolyAt(&tmpQkj, ownQ[j], &positionQ)
 
 				p.mutexKZG.Lock()
-				tmpwQ = *p.KZG.ComputeProofSingle(Q[p.PID+1][j], positionQ)
+				tmpwQ = *p.KZG.ComputeProofSingle(ownQ[j], positionQ)
 				p.mutexKZG.Unlock()
 
 				reshareMessage.WQk[j-1] = bls.ToCompressedG1(&tmpwQ)
-- 
2.43.0

