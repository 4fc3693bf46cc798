From 10e348733ad789e87f3617da5b128a59b530ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 01/31] fix: reject SEND without a destination header

The frame reached the request processor, which panics on a missing
destination, so one client frame stopped the whole broker.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..251e7a0 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -748,6 +748,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	// the upper layer relies on every frame having a destination
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From 3c6da4c834cffd29fe1562de5dca38c00d2fb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 02/31] fix: reject SUBSCRIBE with an unknown ack mode

Subscription.IsAckedBy panics on an unknown mode when a later ACK
arrives, so one client could stop the whole broker.
---
 server/client/conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 251e7a0..a6757eb 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -624,6 +624,13 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		ack = frame.AckAuto
 	}
 
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+		// valid acknowledgement mode
+	default:
+		return invalidHeaderValue
+	}
+
 	sub, ok := c.subs[id]
 	if ok {
 		return subscriptionExists
-- 
2.43.0


From 8b74edf275a027cb7908cb3e32959ed1d8817808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 03/31] fix: let a subscription leave its list on ACK and NACK

Ack, Nack and FindByIdAndRemove took the subscription out of the list
without clearing its back pointer. Re-adding it after an acknowledgement
panicked with 'subscription is already in a subscription list'.
---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From 2b559e38620c23db326e5045e9cbb0038156973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 04/31] fix: remember the message-id a subscription is waiting
 on

Subscription.msgId was never set, so ACK and NACK for client-individual
subscriptions matched nothing and an ACK with any id matched every
client-mode subscription.
---
 server/client/conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index a6757eb..cd8ad62 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -419,6 +419,7 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 			f.Header.Del(frame.Ack)
 		} else {
 			f.Header.Set(frame.Ack, messageId)
+			sub.msgId = c.lastMsgId
 		}
 	}
 }
-- 
2.43.0


From 5ca742316e5a16917832bdb3b460832d47d38476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 05/31] fix: accept the id header in STOMP 1.2 ACK and NACK
 frames

STOMP 1.2 clients, this package's own client included, identify the
message with the id header; the server answered with an ERROR.
---
 server/client/conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index cd8ad62..ac31129 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -668,7 +668,10 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 	var err error
 	var msgId string
 
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
+	if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
+		// STOMP 1.2 identifies the message by the id header
+		msgId = id
+	} else if ack, ok := f.Header.Contains(frame.Ack); ok {
 		msgId = ack
 	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
 		return missingHeader(frame.MessageId)
@@ -711,7 +714,10 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 	var err error
 	var msgId string
 
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
+	if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
+		// STOMP 1.2 identifies the message by the id header
+		msgId = id
+	} else if ack, ok := f.Header.Contains(frame.Ack); ok {
 		msgId = ack
 	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
 		return missingHeader(frame.MessageId)
-- 
2.43.0


From 3dace3f219a794a08bac573a4615bf334841c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 06/31] fix: send the RECEIPT requested by SUBSCRIBE and
 UNSUBSCRIBE

The receipt header was ignored, so the client's Unsubscribe always ran
into its receipt timeout.
---
 server/client/conn.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index ac31129..8cc4f34 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -637,6 +637,12 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		return subscriptionExists
 	}
 
+	// Send a receipt and remove the header
+	err := c.sendReceiptImmediately(f)
+	if err != nil {
+		return err
+	}
+
 	sub = newSubscription(c, dest, id, ack)
 	c.subs[id] = sub
 
@@ -656,6 +662,12 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 		return subscriptionNotFound
 	}
 
+	// Send a receipt and remove the header
+	err := c.sendReceiptImmediately(f)
+	if err != nil {
+		return err
+	}
+
 	// remove the subscription
 	delete(c.subs, id)
 
-- 
2.43.0


From 651d9d4fef4cdb078308b24b50a7ba8401fbcaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 07/31] fix: requeue a queue message whose delivery fails

When writing a queue message to a consumer failed, the message was in
neither the queue nor the list of unacknowledged messages and was lost.
---
 server/client/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 8cc4f34..1f48d12 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -291,7 +291,9 @@ func (c *Conn) processLoop() {
 					// if there is an error writing to
 					// the client, there is not much
 					// point trying to send an ERROR frame,
-					// so just exit go-routine (after cleaning up)
+					// so just exit go-routine (after cleaning up,
+					// which requeues the frame)
+					c.subList.Add(sub)
 					return
 				}
 
-- 
2.43.0


From 9834a2365e9665544023117f3b67f7ef7cae12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 08/31] fix: do not revive a subscription after UNSUBSCRIBE

Acknowledging a message after UNSUBSCRIBE put the dead subscription back
into the queue, where it took messages (and, after a new SUBSCRIBE with
the same id, had them delivered).
---
 server/client/conn.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 1f48d12..51022ae 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -280,7 +280,7 @@ func (c *Conn) processLoop() {
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
+			if c.subs[sub.id] == sub {
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
@@ -716,8 +716,11 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless the client has
+			// unsubscribed in the meantime
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 
@@ -765,8 +768,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless the client has
+			// unsubscribed in the meantime
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 	return nil
-- 
2.43.0


From f887c4a606ce06182d14fcbc6aa67e6fc2f09047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 09/31] fix: send a RECEIPT only for a frame the server accepts

BEGIN, COMMIT, ABORT and transactional SEND, ACK and NACK frames were
confirmed with a RECEIPT and then rejected with an ERROR when the
transaction was unknown or already in progress.
---
 server/client/conn.go | 73 +++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 51022ae..fd89286 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -567,13 +567,13 @@ func (c *Conn) handleBegin(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
+		err := c.txStore.Begin(transaction)
 		if err != nil {
 			return err
 		}
 
-		return c.txStore.Begin(transaction)
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -582,17 +582,18 @@ func (c *Conn) handleCommit(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
-		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
+		err := c.txStore.Commit(transaction, func(f *frame.Frame) error {
 			// Call the state function (again) for each frame in the
 			// transaction. This time each frame is stripped of its transaction
 			// header (and its receipt header as well, if it had one).
 			return c.stateFunc(c, f)
 		})
+		if err != nil {
+			return err
+		}
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -601,12 +602,13 @@ func (c *Conn) handleAbort(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
+		err := c.txStore.Abort(transaction)
 		if err != nil {
 			return err
 		}
-		return c.txStore.Abort(transaction)
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	}
 	return missingHeader(frame.Transaction)
 }
@@ -697,19 +699,22 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	} else {
+		// Send a receipt and remove the header
+		err = c.sendReceiptImmediately(f)
+		if err != nil {
+			return err
+		}
+
 		// handle any subscriptions that are acknowledged by this msg
 		c.subList.Ack(msgId64, func(s *Subscription) {
 			// remove frame from the subscription, it has been delivered
@@ -746,19 +751,22 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	} else {
+		// Send a receipt and remove the header
+		err = c.sendReceiptImmediately(f)
+		if err != nil {
+			return err
+		}
+
 		// handle any subscriptions that are acknowledged by this msg
 		c.subList.Nack(msgId64, func(s *Subscription) {
 			// send frame back to upper layer for requeue
@@ -787,19 +795,22 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		return missingHeader(frame.Destination)
 	}
 
-	// Send a receipt and remove the header
-	err := c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
-		err = c.txStore.Add(tx, f)
+		err := c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
+
+		// Send a receipt and remove the header
+		return c.sendReceiptImmediately(f)
 	} else {
+		// Send a receipt and remove the header
+		err := c.sendReceiptImmediately(f)
+		if err != nil {
+			return err
+		}
+
 		// not in a transaction
 		// change from SEND to MESSAGE
 		f.Command = frame.MESSAGE
-- 
2.43.0


From 62859074f6f1f13de1db233eb26c0398c04812ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 10/31] fix: let the read loop terminate when a connection is
 closed

If the client had sent more frames than the read channel holds, the
read loop stayed blocked on the channel forever after the processing
loop had gone.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index fd89286..78d816d 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -369,6 +369,11 @@ func (c *Conn) cleanupConn() {
 
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
+
+	// The read loop might be waiting to hand over a frame: let it
+	// run into the closed connection and terminate.
+	for range c.readChannel {
+	}
 }
 
 // Discard anything on the write channel. These frames
-- 
2.43.0


From a01577afab9fe4221bc4115cc9426a5b3b6f0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 11/31] fix: do not lose queue messages when a consumer
 disconnects

The request processor could assign a queue message to a connection after
the connection had emptied its channels for the last time, because it was
still working on earlier requests. The connection now keeps collecting
frames until the processor has seen its DisconnectedOp request, and does
not block the processor while it is closing.
---
 server/client/conn.go | 61 ++++++++++++++++++++++++++++++++++---------
 server/processor.go   |  3 +++
 2 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 78d816d..63effb0 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -40,6 +40,7 @@ type Conn struct {
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
 	validator      stomp.Validator                     // For validating STOMP frames
 	log            stomp.Logger
+	released       chan struct{} // Closed when the upper layer is done with the connection
 }
 
 // Creates a new client connection. The config parameter contains
@@ -59,6 +60,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		subList:        NewSubscriptionList(),
 		subs:           make(map[string]*Subscription),
 		log:            config.Logger(),
+		released:       make(chan struct{}),
 	}
 	go c.readLoop()
 	go c.processLoop()
@@ -73,6 +75,13 @@ func (c *Conn) Send(f *frame.Frame) {
 	c.writeChannel <- f
 }
 
+// Released tells the connection that the upper layer has processed the
+// DisconnectedOp request of the connection, after which it does not have
+// any more frames for the connection.
+func (c *Conn) Released() {
+	close(c.released)
+}
+
 // Send and ERROR message to the client. The client
 // connection will disconnect as soon as the ERROR
 // message has been transmitted. The message header
@@ -329,7 +338,8 @@ func (c *Conn) processLoop() {
 
 // Called when the connection is closing, and takes care of
 // unsubscribing all subscriptions with the upper layer, and
-// re-queueing all unacknowledged messages to the upper layer.
+// re-queueing all unacknowledged messages to the upper layer
+// once it is done with this connection.
 func (c *Conn) cleanupConn() {
 	// clean up any pending transactions
 	c.txStore.Init()
@@ -344,29 +354,38 @@ func (c *Conn) cleanupConn() {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
 		// all subscriptions are unsubscribed from the upper layer.
-		c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+		c.cleanupRequest(Request{Op: UnsubscribeOp, Sub: sub})
 	}
 
 	// Clear out the map of subscriptions
 	c.subs = nil
 
-	// Every subscription requiring acknowledgement has a frame
-	// that needs to be requeued in the upper layer
-	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
-	}
-
-	// empty the subscription and write queue
-	c.discardWriteChannelFrames()
-	c.cleanupSubChannel()
-
 	// Tell the upper layer we are now disconnected
-	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
+	c.cleanupRequest(Request{Op: DisconnectedOp, Conn: c})
+
+	// The upper layer might still have to get through requests made
+	// before the subscriptions were unsubscribed. Until it has done so it
+	// can assign frames to this connection, which have to be requeued.
+	for released := false; !released; {
+		select {
+		case <-c.writeChannel:
+		case sub := <-c.subChannel:
+			c.subList.Add(sub)
+		case <-c.released:
+			released = true
+		}
+	}
 
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
 	c.cleanupSubChannel()
 
+	// Every subscription requiring acknowledgement has a frame
+	// that needs to be requeued in the upper layer
+	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
+		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+	}
+
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
 
@@ -376,6 +395,22 @@ func (c *Conn) cleanupConn() {
 	}
 }
 
+// Send a request to the upper layer while the connection is closing. The
+// upper layer might be blocked on one of the channels of this connection, so
+// keep taking frames from them until it takes the request.
+func (c *Conn) cleanupRequest(r Request) {
+	for {
+		select {
+		case c.requestChannel <- r:
+			return
+		case <-c.writeChannel:
+		case sub := <-c.subChannel:
+			// has a frame that needs to be requeued
+			c.subList.Add(sub)
+		}
+	}
+}
+
 // Discard anything on the write channel. These frames
 // do not get acknowledged, and are either topic MESSAGE
 // frames or ERROR frames.
diff --git a/server/processor.go b/server/processor.go
index 291845a..337c261 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -89,6 +89,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(destination)
 				queue.Requeue(r.Frame)
 			}
+
+		case client.DisconnectedOp:
+			r.Conn.Released()
 		}
 	}
 	// this is no longer required for go 1.1
-- 
2.43.0


From 7d981df9dfdee3ad2dc4f83bdbbf0c647e193edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 12/31] fix: start the configured queue storage at server
 startup

QueueStorage.Start is documented to be called at server startup, but was
never called.
---
 server/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/processor.go b/server/processor.go
index 337c261..cd342d2 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -30,6 +30,7 @@ func newRequestProcessor(server *Server) *requestProcessor {
 	if server.QueueStorage == nil {
 		proc.qm = queue.NewManager(queue.NewMemoryQueueStorage())
 	} else {
+		server.QueueStorage.Start()
 		proc.qm = queue.NewManager(server.QueueStorage)
 	}
 
-- 
2.43.0


From 0c854ea8c7b369b121863e1e62283dbc4763764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 13/31] fix: report queue storage errors in the log

An error from the queue storage lost a message or stalled a subscription
without leaving any trace.
---
 server/processor.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/server/processor.go b/server/processor.go
index cd342d2..0f725e3 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -47,7 +47,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 			if isQueueDestination(r.Sub.Destination()) {
 				queue := proc.qm.Find(r.Sub.Destination())
 				// todo error handling
-				queue.Subscribe(r.Sub)
+				if err := queue.Subscribe(r.Sub); err != nil {
+					proc.server.Log.Errorf("stomp: queue %s: subscribe failed: %v", r.Sub.Destination(), err)
+				}
 			} else {
 				topic := proc.tm.Find(r.Sub.Destination())
 				topic.Subscribe(r.Sub)
@@ -72,7 +74,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 
 			if isQueueDestination(destination) {
 				queue := proc.qm.Find(destination)
-				queue.Enqueue(r.Frame)
+				if err := queue.Enqueue(r.Frame); err != nil {
+					proc.server.Log.Errorf("stomp: queue %s: enqueue failed: %v", destination, err)
+				}
 			} else {
 				topic := proc.tm.Find(destination)
 				topic.Enqueue(r.Frame)
@@ -88,7 +92,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 			// only requeue to queues, should never happen for topics
 			if isQueueDestination(destination) {
 				queue := proc.qm.Find(destination)
-				queue.Requeue(r.Frame)
+				if err := queue.Requeue(r.Frame); err != nil {
+					proc.server.Log.Errorf("stomp: queue %s: requeue failed: %v", destination, err)
+				}
 			}
 
 		case client.DisconnectedOp:
-- 
2.43.0


From f4e6aeb3c80d07ab51baf9709f8600e35a1d3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 14/31] fix: honour the WriteBufferSize connect option

The writer was created with the size given for the read buffer.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 94c3108..4dabb6d 100644
--- a/conn.go
+++ b/conn.go
@@ -118,7 +118,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	}
 
 	if options.WriteBufferSize > 0 {
-		writer = frame.NewWriterSize(conn, options.ReadBufferSize)
+		writer = frame.NewWriterSize(conn, options.WriteBufferSize)
 	}
 
 	readChannelCapacity := 20
-- 
2.43.0


From 157a379ec6925d0ff7e8601962fe5dfd54c7cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 15/31] fix: do not expect heart-beats that were not negotiated

If the server announced that it does not send heart-beats, or the client
asked for none, the client still applied a read timeout and dropped a
healthy connection when it was idle.
---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 4dabb6d..895f532 100644
--- a/conn.go
+++ b/conn.go
@@ -209,7 +209,11 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
+		// A zero value from either side means that the server does not
+		// send heart-beats.
+		if options.ReadTimeout <= 0 {
+			readTimeout = 0
+		} else if readTimeout > 0 && readTimeout < options.ReadTimeout {
 			readTimeout = options.ReadTimeout
 		}
 
-- 
2.43.0


From 3f5518ff169154dd4a2e354dce61e4ab3ef70a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 16/31] fix: do not leak the network connection when Dial fails

The connection was left open when the STOMP handshake failed, and the
context was not used for the dialling itself.
---
 conn.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 895f532..0345cc7 100644
--- a/conn.go
+++ b/conn.go
@@ -71,7 +71,8 @@ func Dial(network, addr string, opts ...func(*Conn) error) (*Conn, error) {
 }
 
 func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Conn) error) (*Conn, error) {
-	c, err := net.Dial(network, addr)
+	var dialer net.Dialer
+	c, err := dialer.DialContext(ctx, network, addr)
 	if err != nil {
 		return nil, err
 	}
@@ -86,7 +87,14 @@ func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Co
 	// so that if host has been explicitly specified it will override.
 	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
 
-	return ConnectWithContext(ctx, c, opts...)
+	conn, err := ConnectWithContext(ctx, c, opts...)
+	if err != nil {
+		// nobody else can close the network connection
+		c.Close()
+		return nil, err
+	}
+
+	return conn, nil
 }
 
 // Connect creates a STOMP connection and performs the STOMP connect
-- 
2.43.0


From 2b1901b8532d50510a3e48eb784efaa3054c288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 17/31] fix: do not block on a RECEIPT that nobody waits for

After a receipt timeout the response channel had no reader, so a late
RECEIPT or an ERROR blocked the processing loop, and with it the whole
connection, forever.
---
 conn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 0345cc7..80905f8 100644
--- a/conn.go
+++ b/conn.go
@@ -497,7 +497,7 @@ func (c *Conn) Disconnect() error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame)
+	ch := make(chan *frame.Frame, 1)
 	c.writeCh <- writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
@@ -563,7 +563,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
@@ -662,7 +662,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		c.writeCh <- request
-- 
2.43.0


From 6373247a5037b2712fdf30bc4f0593b32f63474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 18/31] fix: keep a subscription open when its SUBSCRIBE has a
 receipt

The message channel was also registered for the receipt, so the RECEIPT
ended the subscription and the next MESSAGE panicked with a send on a
closed channel.
---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 80905f8..f56ea33 100644
--- a/conn.go
+++ b/conn.go
@@ -420,7 +420,9 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				sendError(channels, errors.New("write channel closed"))
 				return
 			}
-			if req.C != nil {
+			// (the channel of a SUBSCRIBE frame is for its messages, and
+			// must not be closed when a receipt arrives)
+			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
 					channels[receipt] = req.C
-- 
2.43.0


From 6ad86e590c4e1dd22ac6036ce9a5ded83acc9000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 19/31] fix: do not hang when the connection terminates

Requests, receipt waits, subscriptions and Disconnect could wait forever
for a processing loop that had already terminated, or deadlock with it on
the close mutex. The end of the processing loop is now visible to all of
them.
---
 conn.go         | 112 ++++++++++++++++++++++++++++--------------------
 subscription.go |  10 ++++-
 2 files changed, 74 insertions(+), 48 deletions(-)

diff --git a/conn.go b/conn.go
index f56ea33..9f23159 100644
--- a/conn.go
+++ b/conn.go
@@ -55,6 +55,7 @@ type Conn struct {
 	writesSent                int64
 	readsReceived             int64
 	statsEnabled              bool
+	done                      chan struct{} // closed when processLoop terminates
 }
 
 type writeRequest struct {
@@ -112,6 +113,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c := &Conn{
 		conn:       conn,
 		closeMutex: &sync.Mutex{},
+		done:       make(chan struct{}),
 	}
 
 	options, err := newConnOptions(c, opts)
@@ -325,6 +327,10 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 	defer c.MustDisconnect()
 
+	// Before that, let go of anyone waiting for this goroutine, because they
+	// might be holding the mutex.
+	defer close(c.done)
+
 	for {
 		if c.readTimeout > 0 && readTimer == nil {
 			readTimer = time.NewTimer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
@@ -392,11 +398,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					close(ch)
 				}
 
-				c.closeMutex.Lock()
-				defer c.closeMutex.Unlock()
-				c.closed = true
-				c.conn.Close()
-
 				return
 
 			case frame.MESSAGE:
@@ -500,12 +501,15 @@ func (c *Conn) Disconnect() error {
 	}
 
 	ch := make(chan *frame.Frame, 1)
-	c.writeCh <- writeRequest{
+	err := c.sendRequest(writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
+	}, 0)
+	if err != nil {
+		return err
 	}
 
-	err := readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
+	err = c.readReceipt(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
 	if err == nil {
 		c.closed = true
 		return c.conn.Close()
@@ -568,12 +572,12 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 			C:     make(chan *frame.Frame, 1),
 		}
 
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
+		err := c.sendRequest(request, c.msgSendTimeout)
 		if err != nil {
 			return err
 		}
 
-		err = readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
+		err = c.readReceipt(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
 		if err != nil {
 			return err
 		}
@@ -581,7 +585,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// no receipt required
 		request := writeRequest{Frame: f}
 
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
+		err := c.sendRequest(request, c.msgSendTimeout)
 		if err != nil {
 			return err
 		}
@@ -591,34 +595,60 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
+	return readReceiptUntil(nil, responseChan, timeout, timeoutErr)
+}
+
+// readReceipt waits for the response to a request. Returns an error if
+// the connection terminates without a response.
+func (c *Conn) readReceipt(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
+	return readReceiptUntil(c.done, responseChan, timeout, timeoutErr)
+}
+
+func readReceiptUntil(done <-chan struct{}, responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
 	var timeoutChan <-chan time.Time
 	if timeout > 0 {
 		timeoutChan = time.After(timeout)
 	}
 
+	var response *frame.Frame
+
 	select {
 	case <-timeoutChan:
 		return timeoutErr
-	case response := <-responseChan:
-		if response.Command != frame.RECEIPT {
-			return newError(response)
+	case response = <-responseChan:
+	case <-done:
+		// the response might have arrived before the connection terminated
+		select {
+		case response = <-responseChan:
+		default:
 		}
-		return nil
 	}
+
+	if response == nil {
+		return ErrClosedUnexpectedly
+	}
+	if response.Command != frame.RECEIPT {
+		return newError(response)
+	}
+	return nil
 }
 
-func sendDataToWriteChWithTimeout(ch chan writeRequest, request writeRequest, timeout time.Duration) error {
-	if timeout <= 0 {
-		ch <- request
-		return nil
+// sendRequest hands a request over to processLoop. Must be called with
+// closeMutex locked, and the connection not closed.
+func (c *Conn) sendRequest(request writeRequest, timeout time.Duration) error {
+	var timeoutChan <-chan time.Time
+	if timeout > 0 {
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+		timeoutChan = timer.C
 	}
 
-	timer := time.NewTimer(timeout)
 	select {
-	case <-timer.C:
+	case <-timeoutChan:
 		return ErrMsgSendTimeout
-	case ch <- request:
-		timer.Stop()
+	case <-c.done:
+		return ErrClosedUnexpectedly
+	case c.writeCh <- request:
 		return nil
 	}
 }
@@ -667,41 +697,26 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 			C:     make(chan *frame.Frame, 1),
 		}
 
-		c.writeCh <- request
+		err := c.sendRequest(request, 0)
 
 		// Now that we've written to the writeCh channel we can release the
 		// close mutex while we wait for our response
 		c.closeMutex.Unlock()
-
-		var response *frame.Frame
-
-		if c.writeTimeout > 0 {
-			select {
-			case response, ok = <-request.C:
-			case <-time.After(c.writeTimeout):
-				ok = false
-			}
-		} else {
-			response, ok = <-request.C
+		if err != nil {
+			return err
 		}
 
-		if ok {
-			if response.Command != frame.RECEIPT {
-				return newError(response)
-			}
-		} else {
-			return ErrClosedUnexpectedly
-		}
+		return c.readReceipt(request.C, c.writeTimeout, ErrClosedUnexpectedly)
 	} else {
 		// no receipt required
 		request := writeRequest{Frame: f}
-		c.writeCh <- request
+		err := c.sendRequest(request, 0)
 
 		// Unlock the mutex now that we're written to the write channel
 		c.closeMutex.Unlock()
-	}
 
-	return nil
+		return err
+	}
 }
 
 // Subscribe creates a subscription on the STOMP server.
@@ -763,14 +778,17 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		closeCond:                 sync.NewCond(closeMutex),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
-	go sub.readLoop(ch)
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	// TODO is this safe? There is no check if writeCh is actually open.
-	c.writeCh <- request
+	err := c.sendRequest(request, 0)
+	if err != nil {
+		return nil, err
+	}
+
+	go sub.readLoop(ch)
 	return sub, nil
 }
 
diff --git a/subscription.go b/subscription.go
index 8ca54af..d7c6515 100644
--- a/subscription.go
+++ b/subscription.go
@@ -171,7 +171,15 @@ func (s *Subscription) subscriptionErrorMessage(message string) *Message {
 
 func (s *Subscription) readLoop(ch chan *frame.Frame) {
 	for {
-		f, ok := <-ch
+		var f *frame.Frame
+		var ok bool
+
+		select {
+		case f, ok = <-ch:
+		case <-s.conn.done:
+			// connection terminated without a last frame for us
+		}
+
 		if !ok {
 			state := atomic.LoadInt32(&s.state)
 			if state == subStateActive || state == subStateClosing {
-- 
2.43.0


From 3f09106e6b3e9387c0ed375fa2ca2e26e746d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 20/31] fix: do not keep the connection locked while waiting
 for a receipt

While Send waited for a receipt, a subscriber could not acknowledge the
messages that arrived before it, and the receipt could not be processed
until they were taken: both waited until the receipt timeout.
---
 conn.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 9f23159..fe1b368 100644
--- a/conn.go
+++ b/conn.go
@@ -550,15 +550,28 @@ func (c *Conn) MustDisconnect() error {
 // Any number of options can be specified in opts. See the examples for usage. Options include whether
 // to receive a RECEIPT, should the content-length be suppressed, and sending custom header entries.
 func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
+	responseChan, err := c.requestSend(destination, contentType, body, opts)
+	if err != nil || responseChan == nil {
+		return err
+	}
+
+	// The mutex is not locked while waiting for the response, otherwise
+	// nobody could acknowledge messages that arrive before the response.
+	return c.readReceipt(responseChan, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
+}
+
+// requestSend requests the sending of a message. Returns the response
+// channel if the message requires a receipt, nil otherwise.
+func (c *Conn) requestSend(destination, contentType string, body []byte, opts []func(*frame.Frame) error) (chan *frame.Frame, error) {
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
-		return ErrAlreadyClosed
+		return nil, ErrAlreadyClosed
 	}
 
 	f, err := createSendFrame(destination, contentType, body, opts)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	if c.statsEnabled {
@@ -574,24 +587,21 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 
 		err := c.sendRequest(request, c.msgSendTimeout)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
-		err = c.readReceipt(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
-		if err != nil {
-			return err
-		}
+		return request.C, nil
 	} else {
 		// no receipt required
 		request := writeRequest{Frame: f}
 
 		err := c.sendRequest(request, c.msgSendTimeout)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
-	return nil
+	return nil, nil
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
-- 
2.43.0


From 8285625251dbccb57374e3204a65f8de1d4f644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 21/31] fix: make Unsubscribe safe against the end of the
 subscription

Only the read loop of the subscription now sends on or closes its message
channel (Unsubscribe could send on it after it was closed), the end of the
subscription can no longer be missed (a lost wake-up ran into the receipt
timeout), an option that fails leaves the subscription active, and a
receipt header set by an option no longer blocks forever.
---
 conn.go         |  5 ++--
 subscription.go | 66 +++++++++++++++++++++----------------------------
 2 files changed, 30 insertions(+), 41 deletions(-)

diff --git a/conn.go b/conn.go
index fe1b368..88208e6 100644
--- a/conn.go
+++ b/conn.go
@@ -776,7 +776,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		C:     ch,
 	}
 
-	closeMutex := &sync.Mutex{}
 	sub := &Subscription{
 		id:                        id,
 		replyToSet:                replyToSet,
@@ -784,8 +783,8 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		conn:                      c,
 		ackMode:                   ack,
 		C:                         make(chan *Message, 16),
-		closeMutex:                closeMutex,
-		closeCond:                 sync.NewCond(closeMutex),
+		closed:                    make(chan struct{}),
+		errors:                    make(chan *Message, 1),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
 
diff --git a/subscription.go b/subscription.go
index d7c6515..c0a628b 100644
--- a/subscription.go
+++ b/subscription.go
@@ -1,7 +1,6 @@
 package stomp
 
 import (
-	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -28,9 +27,9 @@ type Subscription struct {
 	conn                      *Conn
 	ackMode                   AckMode
 	state                     int32
-	closeMutex                *sync.Mutex
-	closeCond                 *sync.Cond
 	closeOnce                 sync.Once
+	closed                    chan struct{} // closed after C has been closed
+	errors                    chan *Message // for readLoop to pass on to C
 	unsubscribeReceiptTimeout time.Duration
 }
 
@@ -63,8 +62,7 @@ func (s *Subscription) Active() bool {
 
 // Unsubscribes and closes the channel C.
 func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
-	// transition to the "closing" state
-	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+	if !s.Active() {
 		return ErrCompletedSubscription
 	}
 
@@ -84,10 +82,17 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		f.Header.Set(ReplyToHeader, s.id)
 	}
 
+	// The receipt for this frame is requested on the I/O goroutine, see below.
+	f.Header.Del(frame.Receipt)
+
+	// transition to the "closing" state
+	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+		return ErrCompletedSubscription
+	}
+
 	err := s.conn.sendFrame(f)
-	if errors.Is(err, ErrClosedUnexpectedly) {
-		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-		s.closeChannel(msg)
+	if err != nil {
+		// the connection is closed, and readLoop is about to find out
 		return err
 	}
 
@@ -96,39 +101,21 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 	// for the resulting RECEIPT.
 	//
 	// We don't want to interfere with `s.C` since we might be "stealing"
-	// MESSAGEs or ERRORs from another goroutine, so use a sync.Cond to
-	// wait for the terminal state transition instead.
-	s.closeMutex.Lock()
-	for atomic.LoadInt32(&s.state) != subStateClosed {
-		err = waitWithTimeout(s.closeCond, s.unsubscribeReceiptTimeout)
-		if err != nil && errors.Is(err, &ErrUnsubscribeReceiptTimeout) {
-			// The [closeCond.Broadcast] can race with the timeout, so make sure
-			// the channel is still available.
-			if atomic.LoadInt32(&s.state) != subStateClosed {
-				msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
-				s.C <- msg
-			}
-			return err
-		}
+	// MESSAGEs or ERRORs from another goroutine, and because readLoop might
+	// close it, so wait for the terminal state transition instead.
+	var timeoutChan <-chan time.Time
+	if s.unsubscribeReceiptTimeout != 0 {
+		timer := time.NewTimer(s.unsubscribeReceiptTimeout)
+		defer timer.Stop()
+		timeoutChan = timer.C
 	}
-	s.closeMutex.Unlock()
-	return err
-}
 
-func waitWithTimeout(cond *sync.Cond, timeout time.Duration) error {
-	if timeout == 0 {
-		cond.Wait()
-		return nil
-	}
-	waitChan := make(chan struct{})
-	go func() {
-		cond.Wait()
-		close(waitChan)
-	}()
 	select {
-	case <-waitChan:
+	case <-s.closed:
 		return nil
-	case <-time.After(timeout):
+	case <-timeoutChan:
+		// room for one message, and this is the only one
+		s.errors <- s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
 		return &ErrUnsubscribeReceiptTimeout
 	}
 }
@@ -157,7 +144,7 @@ func (s *Subscription) closeChannel(msg *Message) {
 		}
 		atomic.StoreInt32(&s.state, subStateClosed)
 		close(s.C)
-		s.closeCond.Broadcast()
+		close(s.closed)
 	})
 }
 
@@ -176,6 +163,9 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 
 		select {
 		case f, ok = <-ch:
+		case msg := <-s.errors:
+			s.C <- msg
+			continue
 		case <-s.conn.done:
 			// connection terminated without a last frame for us
 		}
-- 
2.43.0


From 0033a4a8e655bff1942d7c2682447fdc157424ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 22/31] fix: align the connection statistics on 32-bit systems

Updating them panicked with an unaligned 64-bit atomic operation.
---
 conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 88208e6..f0bb986 100644
--- a/conn.go
+++ b/conn.go
@@ -35,6 +35,10 @@ const ReplyToHeader = "reply-to"
 // A Conn is a connection to a STOMP server. Create a Conn using either
 // the Dial or Connect function.
 type Conn struct {
+	// updated atomically: first, so that they are aligned on 32-bit systems
+	writesSent    int64
+	readsReceived int64
+
 	conn                      io.ReadWriteCloser
 	readCh                    chan *frame.Frame
 	writeCh                   chan writeRequest
@@ -52,8 +56,6 @@ type Conn struct {
 	closeMutex                *sync.Mutex
 	options                   *connOptions
 	log                       Logger
-	writesSent                int64
-	readsReceived             int64
 	statsEnabled              bool
 	done                      chan struct{} // closed when processLoop terminates
 }
-- 
2.43.0


From 1fc3c9f74f104edac1bc1f36cb2feb2bcd20a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 23/31] fix: let the client's read loop terminate with the
 connection

It stayed blocked on a full read channel forever when the processing loop
had terminated.
---
 conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index f0bb986..e38b42b 100644
--- a/conn.go
+++ b/conn.go
@@ -313,7 +313,13 @@ func readLoop(c *Conn, reader *frame.Reader) {
 		if c.statsEnabled {
 			atomic.AddInt64(&c.readsReceived, 1)
 		}
-		c.readCh <- f
+
+		select {
+		case c.readCh <- f:
+		case <-c.done:
+			close(c.readCh)
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 25aa87060bdc8dec2b5c188fb55a2907df38ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 24/31] fix: keep the heart-beat timer running when nothing is
 written

A delivery that is requeued because its subscription is gone stopped and
restarted the timer although nothing had been written to the client, so
the next heart-beat was late.
---
 server/client/conn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 63effb0..b2b00bb 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -280,16 +280,16 @@ func (c *Conn) processLoop() {
 			// have a frame to the client which requires
 			// acknowledgement to the upper layer
 
-			// stop the heart-beat timer
-			if timer != nil {
-				timer.Stop()
-				timer = nil
-			}
-
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
 			if c.subs[sub.id] == sub {
+				// stop the heart-beat timer
+				if timer != nil {
+					timer.Stop()
+					timer = nil
+				}
+
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
-- 
2.43.0


From 0b639b5a9a1bd637c65a66fbdff60746274b84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:29 +0000
Subject: [PATCH 25/31] fix: end a broker connection whose client neither sends
 nor takes data

The processing loop waited forever in a write to a client that had stopped
reading, even after the read loop had given up on it (heart-beat timeout or
read error): the connection was never cleaned up, its goroutine never ended.
---
 server/client/conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index b2b00bb..1ebed4f 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -21,6 +21,10 @@ const maxPendingWrites = 16
 // go routine starts blocking.
 const maxPendingReads = 16
 
+// How long the remaining frames may take to be written to a client after
+// nothing more can be read from it.
+const finalWriteTimeout = 10 * time.Second
+
 // Represents a connection with the STOMP client.
 type Conn struct {
 	config         Config
@@ -142,6 +146,10 @@ func (c *Conn) readLoop() {
 				c.log.Errorf("read failed: %v : %s", err, c.rw.RemoteAddr())
 			}
 
+			// The processing loop might be waiting for a client that does not
+			// take any more data: do not let it wait forever.
+			c.rw.SetWriteDeadline(time.Now().Add(finalWriteTimeout))
+
 			// Close the read channel so that the processing loop will
 			// know to terminate, if it has not already done so. This is
 			// the only channel that we close, because it is the only one
-- 
2.43.0


From 210b26815a867b6b6cadf4120522823d3772d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:15 +0000
Subject: [PATCH 26/31] fix: refuse content-lengths that a 32-bit int cannot
 hold

On 32-bit platforms a content-length above 2147483647 was converted to a
negative int, and allocating the body panicked.
---
 frame/header.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frame/header.go b/frame/header.go
index 163f513..fba8837 100644
--- a/frame/header.go
+++ b/frame/header.go
@@ -164,7 +164,8 @@ func (h *Header) ContentLength() (value int, ok bool, err error) {
 		return 0, false, nil
 	}
 
-	n, err := strconv.ParseUint(text, 10, 32)
+	// at most 31 bits, because int may have no more than 32
+	n, err := strconv.ParseUint(text, 10, 31)
 	if err != nil {
 		return 0, true, err
 	}
-- 
2.43.0


From cb547f6da8530fa28b14b050000c23303664af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 27/31] fix: do not use a transaction any more once COMMIT or
 ABORT has been sent

---
 transaction.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/transaction.go b/transaction.go
index 0a8398f..a1d67b2 100644
--- a/transaction.go
+++ b/transaction.go
@@ -56,13 +56,10 @@ func (tx *Transaction) abort(receipt bool) error {
 		f.Header.Set(frame.Receipt, id)
 	}
 
-	err := tx.conn.sendFrame(f)
-	if err != nil {
-		return err
-	}
+	// The transaction ends with this frame, even if there is no receipt for it.
 	tx.completed = true
 
-	return nil
+	return tx.conn.sendFrame(f)
 }
 
 // Commit will commit the transaction. All messages and acknowledgements
@@ -91,13 +88,10 @@ func (tx *Transaction) commit(receipt bool) error {
 		f.Header.Set(frame.Receipt, id)
 	}
 
-	err := tx.conn.sendFrame(f)
-	if err != nil {
-		return err
-	}
+	// The transaction ends with this frame, even if there is no receipt for it.
 	tx.completed = true
 
-	return nil
+	return tx.conn.sendFrame(f)
 }
 
 // Send sends a message to the STOMP server as part of a transaction. The server will not process the
-- 
2.43.0


From cccb0217654c041f2b1e077f80b01cd6c154e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 28/31] fix: let Unsubscribe report that the server has not
 confirmed

---
 subscription.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subscription.go b/subscription.go
index c0a628b..1f3a5f2 100644
--- a/subscription.go
+++ b/subscription.go
@@ -29,6 +29,7 @@ type Subscription struct {
 	state                     int32
 	closeOnce                 sync.Once
 	closed                    chan struct{} // closed after C has been closed
+	closeErr                  error         // why C has been closed, set before closed is closed
 	errors                    chan *Message // for readLoop to pass on to C
 	unsubscribeReceiptTimeout time.Duration
 }
@@ -112,7 +113,8 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 
 	select {
 	case <-s.closed:
-		return nil
+		// nil if the server has confirmed
+		return s.closeErr
 	case <-timeoutChan:
 		// room for one message, and this is the only one
 		s.errors <- s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
@@ -140,6 +142,7 @@ func (s *Subscription) Read() (*Message, error) {
 func (s *Subscription) closeChannel(msg *Message) {
 	s.closeOnce.Do(func() {
 		if msg != nil {
+			s.closeErr = msg.Err
 			s.C <- msg
 		}
 		atomic.StoreInt32(&s.state, subStateClosed)
-- 
2.43.0


From 2cb2511d803f1bbb5d5b2865d06d611d1ac65a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:51 +0000
Subject: [PATCH 29/31] fix: do not send heart-beats that the client has
 declined to send

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index e38b42b..7f97f05 100644
--- a/conn.go
+++ b/conn.go
@@ -228,6 +228,10 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 		} else if readTimeout > 0 && readTimeout < options.ReadTimeout {
 			readTimeout = options.ReadTimeout
 		}
+		// Likewise, the client sends none if it has declined to.
+		if options.WriteTimeout <= 0 {
+			writeTimeout = 0
+		}
 
 		c.readTimeout = readTimeout
 		c.writeTimeout = writeTimeout
-- 
2.43.0


From c56e007306d7981543a0744cf789ebe7c951b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:40 +0000
Subject: [PATCH 30/31] fix: let Unsubscribe from a temporary queue succeed

---
 subscription.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subscription.go b/subscription.go
index 1f3a5f2..258ecb9 100644
--- a/subscription.go
+++ b/subscription.go
@@ -166,6 +166,11 @@ func (s *Subscription) readLoop(ch chan *frame.Frame) {
 
 		select {
 		case f, ok = <-ch:
+			if !ok && s.replyToSet {
+				// Unsubscribed: there is no RECEIPT for a temporary queue.
+				s.closeChannel(nil)
+				return
+			}
 		case msg := <-s.errors:
 			s.C <- msg
 			continue
-- 
2.43.0


From b0f89e0c6777817a5b711fdeb03a34ecd71684e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 31/31] fix: send heart-beats while only temporary queues are
 subscribed to

---
 conn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 7f97f05..7e9994a 100644
--- a/conn.go
+++ b/conn.go
@@ -423,12 +423,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			}
 
 		case req, ok := <-c.writeCh:
-			// stop the write timeout
-			if writeTimer != nil {
-				writeTimer.Stop()
-				writeTimer = nil
-				writeTimeoutChannel = nil
-			}
 			if !ok {
 				sendError(channels, errors.New("write channel closed"))
 				return
@@ -477,6 +471,12 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			// frame to send, if enabled
 			if sendFrame {
+				// stop the write timeout
+				if writeTimer != nil {
+					writeTimer.Stop()
+					writeTimer = nil
+					writeTimeoutChannel = nil
+				}
 				err := writer.Write(req.Frame)
 				if err != nil {
 					sendError(channels, err)
-- 
2.43.0

