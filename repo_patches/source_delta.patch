From f36cf5d550b70c934cf1247840ec3df260cfdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 01/25] fix: enforce both server connection limits, counting
 pending handshakes

---
 src/server/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index f78eb2b..28cab1b 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -251,8 +251,15 @@ impl Server {
             return;
         }
 
+        // A pending client will become active as soon as it acknowledges our reply, so a slot
+        // among the active connections is reserved for each
+        let reserved_count = self.clients.values().filter(|client| match client.borrow().state {
+            remote_client::State::Pending(_) | remote_client::State::Active(_) => true,
+            _ => false,
+        }).count();
+
         if self.clients.len() >= self.config.max_total_connections
-            && self.active_clients.len() >= self.config.max_active_connections
+            || reserved_count >= self.config.max_active_connections
         {
             // No room in the inn
             let reply = frame::Frame::HandshakeErrorFrame(frame::HandshakeErrorFrame {
-- 
2.43.0


From aef3a5120b54c17d4e05688ddc68a2394cde7858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 02/25] fix: measure the client's active timeout from the last
 frame, including the SYN+ACK

---
 src/client/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 2b6acb0..3248473 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -391,7 +391,7 @@ impl Client {
         (now - self.time_base).as_millis() as u64
     }
 
-    fn handle_handshake_syn_ack(&mut self, frame: frame::HandshakeSynAckFrame) {
+    fn handle_handshake_syn_ack(&mut self, now_ms: u64, frame: frame::HandshakeSynAckFrame) {
         match self.state {
             State::Pending(ref mut state) => {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
@@ -449,12 +449,12 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
                         disconnect_signal: None,
                     });
                 }
             }
-            State::Active(ref state) => {
+            State::Active(ref mut state) => {
                 // A matching SYN+ACK has already been received, so acknowledge this one assuming
                 // the nonce ack matches ours (and ignore it otherwise). This case is only
                 // encountered when our initial ACK was dropped - all that matters is that the
@@ -465,6 +465,8 @@ impl Client {
                         nonce_ack: frame.nonce,
                     });
                     let _ = self.socket.send(&reply.write());
+
+                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
                 }
             }
             _ => (),
@@ -589,7 +591,7 @@ impl Client {
             frame::Frame::HandshakeSynFrame(_) => (),
             frame::Frame::HandshakeAckFrame(_) => (),
             frame::Frame::HandshakeSynAckFrame(frame) => {
-                self.handle_handshake_syn_ack(frame);
+                self.handle_handshake_syn_ack(now_ms, frame);
             },
             frame::Frame::HandshakeErrorFrame(frame) => {
                 self.handle_handshake_error(frame);
-- 
2.43.0


From 2c6a38c45e2597832f3106d41a4d36a4cafe54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 03/25] fix: do not panic when the nofeedback timer expires
 twice before any feedback

---
 src/half_connection/send_rate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 1c6e58e..75aed7f 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -329,8 +329,8 @@ impl SendRateComp {
                         self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
                     }
                 } else {
-                    // In slow start, but no feedback has been received.
-                    debug_assert!(self.nofeedback_idle == false);
+                    // In slow start, but no feedback has been received. The sender may have been
+                    // idle since the timer last expired.
 
                     // Halve send rate every RTO, subject to minimum
                     self.send_rate = (self.send_rate/2).max(MINIMUM_RATE);
-- 
2.43.0


From ae2e7ffc6c7cd158f1e8b5e831f7ba6842f4d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 04/25] fix: bound the search for the initial loss rate

---
 src/half_connection/send_rate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 75aed7f..c2886e8 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -28,12 +28,16 @@ fn eval_tcp_throughput(rtt: f64, p: f64) -> u32 {
 }
 
 fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
+    const MAX_ITERATIONS: usize = 64;
+
     let delta = (target_rate_bps as f64 * 0.05) as u32;
 
     let mut a = 0.0;
     let mut b = 1.0;
 
-    loop {
+    // The target may not be attainable for any p in [0, 1] (e.g. when rtt = 0), so give up once the
+    // interval has been exhausted
+    for _ in 0 .. MAX_ITERATIONS {
         let c = (b + a)/2.0;
 
         let rate = eval_tcp_throughput(rtt, c);
@@ -56,6 +60,8 @@ fn eval_tcp_throughput_inv(rtt: f64, target_rate_bps: u32) -> f64 {
             return c;
         }
     }
+
+    return b;
 }
 
 #[derive(Debug,PartialEq)]
-- 
2.43.0


From 6f53295ad7a5a08db548a0de1e7392033013a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 05/25] fix: saturate when doubling a send rate

---
 src/half_connection/send_rate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index c2886e8..6f8799f 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -258,7 +258,7 @@ impl SendRateComp {
                         // Continue slow start doubling, see section 4.3, step 5
                         if now_ms - time_last_doubled_ms >= rtt_ms {
                             state.time_last_doubled_ms = Some(now_ms);
-                            self.send_rate = (2*self.send_rate).min(recv_limit).max(initial_rate);
+                            self.send_rate = self.send_rate.saturating_mul(2).min(recv_limit).max(initial_rate);
                             //println!("SS: doubling: new send rate: {} (limit {}, rl: {}, li: {})",
                             //    self.send_rate, recv_limit, rate_limited, loss_increase);
                         }
@@ -328,7 +328,7 @@ impl SendRateComp {
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
                     let recover_rate = compute_initial_send_rate(rtt_s);
 
-                    if self.nofeedback_idle && self.send_rate < 2*recover_rate {
+                    if self.nofeedback_idle && self.send_rate < recover_rate.saturating_mul(2) {
                         // Do nothing, this is acceptable
                     } else {
                         // Halve send rate every RTO, subject to minimum
-- 
2.43.0


From 1e220711d69674048e974118811b849380d6a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 06/25] fix: keep the latest receive rate when the RTT estimate
 is zero

---
 src/half_connection/recv_rate_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/recv_rate_set.rs b/src/half_connection/recv_rate_set.rs
index 51fb05b..fba5d21 100644
--- a/src/half_connection/recv_rate_set.rs
+++ b/src/half_connection/recv_rate_set.rs
@@ -53,14 +53,14 @@ impl RecvRateSet {
     }
 
     pub fn rate_limited_update(&mut self, now_ms: u64, recv_rate: u32, rtt_ms: u64) -> u32 {
+        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
+
         self.entries.push(RecvEntry {
             value: recv_rate,
             timestamp_ms: now_ms,
             is_initial: false
         });
 
-        self.entries.retain(|e| now_ms - e.timestamp_ms < 2 * rtt_ms);
-
         return self.max();
     }
 
-- 
2.43.0


From dbdb8b671922987666d61e92493a322303dba688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 07/25] fix: ignore sync frames with an invalid packet ID

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 367efaf..105125f 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -406,7 +406,10 @@ impl PacketReceiver {
     // comes first. Any incomplete or dropped packets are skipped, and as a result, the sender must
     // ensure that all reliable packets have been received in full prior to issuing the request.
     pub fn resynchronize(&mut self, sender_next_id: u32) {
-        debug_assert!(packet_id::is_valid(sender_next_id));
+        if !packet_id::is_valid(sender_next_id) {
+            // Sync frame has invalid contents
+            return;
+        }
 
         let base_id = self.base_id;
         let sender_delta = packet_id::sub(sender_next_id, base_id);
-- 
2.43.0


From f75d848cfa48a4493ab5b02c3c723b1b2a321f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 08/25] fix: ignore acknowledgements of an invalid packet ID

---
 src/half_connection/packet_sender.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index b8eec8c..1e5295e 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -240,6 +240,11 @@ impl PacketSender {
     // Responds to a receive window acknowledgement. All packet data beyond the new receive window
     // is forgotten, thereby freeing transfer window & allocation space for new packets.
     pub fn acknowledge(&mut self, receiver_base_id: u32) {
+        if !packet_id::is_valid(receiver_base_id) {
+            // Ack frame has invalid contents
+            return;
+        }
+
         let receiver_delta = packet_id::sub(receiver_base_id, self.base_id);
         let span = packet_id::sub(self.next_id, self.base_id);
 
-- 
2.43.0


From 2005a4e99f0bdd006c260175f1c5ec297f3ca210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 09/25] fix: skip packets which exceeded the receive memory
 limit instead of panicking

---
 src/half_connection/packet_receiver/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 105125f..2d52152 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -334,7 +334,10 @@ impl PacketReceiver {
                     let channel_delta = packet_id::sub(sequence_id, channel_base_id);
 
                     if channel_parent_lead == 0 || channel_parent_lead > channel_delta {
-                        sink.send(self.data_entries[window_idx].data.take().unwrap());
+                        // Packets which exceeded the memory limit have no data
+                        if let Some(data) = self.data_entries[window_idx].data.take() {
+                            sink.send(data);
+                        }
 
                         self.data_flags[flags_index] &= !flag_bit;
 
-- 
2.43.0


From e280b1947cb20f13c6b0ee43d359c3d3c659f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 10/25] fix: never advance the receive window past an
 undelivered packet

---
 src/half_connection/packet_receiver/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/packet_receiver/mod.rs b/src/half_connection/packet_receiver/mod.rs
index 2d52152..193b1bb 100644
--- a/src/half_connection/packet_receiver/mod.rs
+++ b/src/half_connection/packet_receiver/mod.rs
@@ -386,10 +386,13 @@ impl PacketReceiver {
                     let window_delta = packet_id::sub(sequence_id, new_base_id);
 
                     if window_parent_lead == 0 || window_parent_lead > window_delta {
+                        if self.data_flags[flags_index] & flag_bit != 0 {
+                            // Window advancement requires that this packet has been delivered. The
+                            // sender has provided inconsistent leads, stop advancement here.
+                            break;
+                        }
                         // println!("Forget sequence ID {}", sequence_id);
                         new_base_id = next_id;
-                        // Window advancement implies that this packet has been delivered
-                        debug_assert!(self.data_flags[flags_index] & flag_bit == 0);
                         debug_assert!(self.data_entries[window_idx].data.is_none());
                     } else {
                         // Cease to consider advancing the window
-- 
2.43.0


From f7cf536323c7640a2be7655c64dc56505800cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 11/25] fix: drop dead fragments from the pending queue, not
 the resend queue

---
 src/half_connection/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index bb0a90a..1faa984 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -403,7 +403,7 @@ impl HalfConnection {
                     let packet_ref = packet_rc.borrow();
 
                     if packet_ref.fragment_acknowledged(entry.fragment_ref.fragment_id) {
-                        self.resend_queue.pop();
+                        self.pending_queue.pop_front();
                         continue;
                     }
 
@@ -420,7 +420,7 @@ impl HalfConnection {
                         self.resend_queue.push(resend_queue::Entry::new(entry.fragment_ref, now_ms + rtt_ms, 1));
                     }
                 } else {
-                    self.resend_queue.pop();
+                    self.pending_queue.pop_front();
                     continue;
                 }
             }
-- 
2.43.0


From d82b1a3a3817be64c7e782c6b3614e3113412647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 12/25] fix: refuse servers which cannot receive the client's
 largest packet

---
 src/client/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3248473..17001cb 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -397,13 +397,20 @@ impl Client {
                 // If the server responds to our SYN with a matching SYN+ACK, it has already
                 // validated the connection parameters, so initialize an active connection. Since
                 // it is trivial for either party to intentionally stall a connection, there is no
-                // need for the client to double check the protocol version or connection
-                // parameters.
+                // need for the client to double check the protocol version. The server's receive
+                // limit must be checked, because no packet may exceed it.
                 //
                 // Otherwise, if the nonce does not match, a duplicated SYN+ACK from a previous
                 // handshake must have been received. Ignore that.
 
                 if frame.nonce_ack == state.local_nonce {
+                    if (frame.max_receive_alloc as usize) < self.config.endpoint_config.max_packet_size {
+                        // Packets accepted by send() may exceed what the server can receive
+                        self.events_out.push(Event::Error(ErrorType::Config));
+                        self.state = State::Fin;
+                        return;
+                    }
+
                     let reply = frame::Frame::HandshakeAckFrame(frame::HandshakeAckFrame {
                         nonce_ack: frame.nonce,
                     });
-- 
2.43.0


From a7c0e5f3d40cde34e550545fa13f36ac6bd4c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 13/25] fix: saturate the nofeedback timer when the send rate
 is zero

---
 src/half_connection/send_rate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 6f8799f..98f7d12 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -285,7 +285,7 @@ impl SendRateComp {
         self.send_rate = self.send_rate.min(self.max_send_rate);
 
         // Restart nofeedback timer
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
@@ -366,7 +366,7 @@ impl SendRateComp {
         // This may or may not be the intended behavior.
         let rto_s = self.update_rto(self.rtt_s.unwrap_or(0.0), self.send_rate);
 
-        self.nofeedback_exp_ms = Some(now_ms + s_to_ms(rto_s));
+        self.nofeedback_exp_ms = Some(now_ms.saturating_add(s_to_ms(rto_s)));
         self.nofeedback_idle = true;
     }
 
-- 
2.43.0


From ce71a64f05d4512fc35746bdbd5cb451859d0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 14/25] fix: saturate max_send_rate at 32 bits

---
 src/client/mod.rs | 2 +-
 src/server/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 17001cb..653d705 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -431,7 +431,7 @@ impl Client {
                         tx_packet_base_id: state.local_nonce & packet_id::MASK,
                         rx_packet_base_id: frame.nonce & packet_id::MASK,
 
-                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(frame.max_receive_rate),
+                        tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(frame.max_receive_rate),
 
                         tx_alloc_limit: frame.max_receive_alloc as usize,
                         rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 28cab1b..f65204a 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -383,7 +383,7 @@ impl Server {
                             tx_packet_base_id: state.local_nonce & packet_id::MASK,
                             rx_packet_base_id: state.remote_nonce & packet_id::MASK,
 
-                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate as u32).min(state.remote_max_receive_rate),
+                            tx_bandwidth_limit: (self.config.endpoint_config.max_send_rate.min(u32::MAX as usize) as u32).min(state.remote_max_receive_rate),
 
                             tx_alloc_limit: state.remote_max_receive_alloc as usize,
                             rx_alloc_limit: self.config.endpoint_config.max_receive_alloc as usize,
-- 
2.43.0


From 3aa70864b9ea8c47b119e69cfbcbbf6f79e4d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 15/25] fix: keep the send rate within its floor and ceiling
 when no feedback arrives

---
 src/half_connection/send_rate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index 98f7d12..cd043ba 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -130,7 +130,7 @@ impl SendRateComp {
             nofeedback_idle: false,
 
             mode: SendRateMode::AwaitSend,
-            send_rate: MSS as u32,
+            send_rate: (MSS as u32).min(max_send_rate),
             max_send_rate: max_send_rate,
 
             recv_rate_set: recv_rate_set::RecvRateSet::new(),
@@ -354,12 +354,14 @@ impl SendRateComp {
                     let current_limit = state.send_rate_tcp.min(recv_rate.saturating_mul(2));
                     let new_limit = (current_limit/2).max(MINIMUM_RATE);
                     self.recv_rate_set.reset(now_ms, new_limit/2);
-                    self.send_rate = state.send_rate_tcp.min(new_limit);
+                    self.send_rate = state.send_rate_tcp.min(new_limit).max(MINIMUM_RATE);
                 }
             }
             _ => panic!()
         }
 
+        self.send_rate = self.send_rate.min(self.max_send_rate);
+
         // Compute RTO for the new send rate, see section 4.4 step 2
         // No default RTT is specified by TFRC, but using RTT = 0 when no feedback has been
         // received will cause RTO to begin at 2s, and double each time send_rate is halved above.
-- 
2.43.0


From dabea451731a90ee09e0d8397c71acace1949fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 16/25] fix: ignore repeated acknowledgements when generating
 feedback

---
 src/half_connection/frame_queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index e1a696d..ccb0ca9 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -350,6 +350,11 @@ impl FrameQueue {
             }
         }
 
+        if total_ack_size == 0 {
+            // Every frame was acknowledged previously
+            return;
+        }
+
         // Add to pending feedback data
         self.feedback_gen.put_ack_data(AckData { last_send_time_ms, total_ack_size, rate_limited });
     }
-- 
2.43.0


From 3894c95f83d55db9da175fe551378f0f9929bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 17/25] fix: bound the number of acknowledgements awaiting
 transmission

---
 src/half_connection/frame_ack_queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/half_connection/frame_ack_queue.rs b/src/half_connection/frame_ack_queue.rs
index 567362d..5345ff5 100644
--- a/src/half_connection/frame_ack_queue.rs
+++ b/src/half_connection/frame_ack_queue.rs
@@ -67,6 +67,11 @@ impl FrameAckQueue {
                         last_entry.nonce ^= nonce;
                     }
                 } else {
+                    if self.entries.len() >= self.receive_window.size as usize {
+                        // Forget the oldest acks if they cannot be sent fast enough
+                        self.entries.pop_front();
+                    }
+
                     self.entries.push_back(frame::AckGroup {
                         base_id: frame_id,
                         bitfield: 0x00000001,
-- 
2.43.0


From ed8a917902ed5956dd4081387b679c9e6d0f77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 18/25] fix: deallocate reassembled packets with the size they
 were allocated with

---
 .../packet_receiver/assembly_window/fragment_buffer.rs    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
index 9fb08af..d0a7e90 100644
--- a/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
+++ b/src/half_connection/packet_receiver/assembly_window/fragment_buffer.rs
@@ -44,11 +44,11 @@ impl FragmentBuffer {
         }
     }
 
-    pub fn finalize(mut self) -> Box<[u8]> {
+    pub fn finalize(self) -> Box<[u8]> {
         debug_assert!(self.total_size <= self.buffer.len());
-        let ptr = self.buffer.as_mut_ptr();
-        std::mem::forget(self.buffer);
-        unsafe { Box::from_raw(std::slice::from_raw_parts_mut(ptr, self.total_size)) }
+        let mut buffer = self.buffer.into_vec();
+        buffer.truncate(self.total_size);
+        buffer.into_boxed_slice()
     }
 
     pub fn is_finished(&self) -> bool {
-- 
2.43.0


From 81a33004a8a7e20335974da028b4fc5afa194716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 19/25] fix: remember frames for the RTO so that
 acknowledgements survive an RTT increase

---
 src/half_connection/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 1faa984..5a88b1d 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -175,7 +175,7 @@ impl HalfConnection {
         self.rto_ms = rto_ms;
 
         // Forget old frame data
-        self.frame_queue.forget_frames(now_ms.saturating_sub(rtt_ms*4), self.send_rate_comp.rtt_ms());
+        self.frame_queue.forget_frames(now_ms.saturating_sub(rto_ms), self.send_rate_comp.rtt_ms());
 
         // Fill flush allocation
         self.fill_flush_alloc(now);
-- 
2.43.0


From 100a92d63f5090085891f742a910a7c85b754bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 20/25] fix: accumulate fractional bytes in the flush
 allocation

---
 src/half_connection/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 5a88b1d..9fc449e 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -74,6 +74,7 @@ pub struct HalfConnection {
     sync_timeout_base_ms: u64,
 
     flush_alloc: isize,
+    flush_alloc_fract: f64,
     flush_id: u32,
 
     sync_reply: bool,
@@ -102,6 +103,7 @@ impl HalfConnection {
             sync_timeout_base_ms: 0,
 
             flush_alloc: 0,
+            flush_alloc_fract: 0.0,
             flush_id: 0,
 
             sync_reply: false,
@@ -203,10 +205,12 @@ impl HalfConnection {
             let rtt_s = self.send_rate_comp.rtt_s();
 
             let delta_time = (now - time_last_flushed).as_secs_f64();
-            let new_bytes = (send_rate * delta_time).round() as isize;
-            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)).round() as isize;
+            let new_bytes = send_rate * delta_time + self.flush_alloc_fract;
+            let alloc_max = (send_rate * rtt_s.unwrap_or(0.0)) as isize;
 
-            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes).min(alloc_max);
+            // Carry fractional bytes over to the next call, lest they be lost (or gained) each time
+            self.flush_alloc = self.flush_alloc.saturating_add(new_bytes as isize).min(alloc_max);
+            self.flush_alloc_fract = new_bytes.fract();
 
             //println!("dt: {}s, rtt: {:?}s, rate: {}B/s, new: {}B, max: {}B, val: {}B",
             //       delta_time, rtt_s, send_rate, new_bytes, alloc_max, self.flush_alloc);
-- 
2.43.0


From 70f67f75ab1a34b0a9223cfbcb060de7cdb9009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 21/25] fix: saturate the active timeout

---
 src/client/mod.rs | 10 +++++-----
 src/server/mod.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 653d705..31c98cf 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -456,7 +456,7 @@ impl Client {
                     self.state = State::Active(ActiveState {
                         local_nonce: state.local_nonce,
                         half_connection,
-                        timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                        timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                         disconnect_signal: None,
                     });
                 }
@@ -473,7 +473,7 @@ impl Client {
                     });
                     let _ = self.socket.send(&reply.write());
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
             }
             _ => (),
@@ -567,7 +567,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_data_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -577,7 +577,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_sync_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
@@ -587,7 +587,7 @@ impl Client {
         match self.state {
             State::Active(ref mut state) => {
                 state.half_connection.handle_ack_frame(frame);
-                state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
             }
             _ => (),
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index f65204a..8d13ec6 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -399,7 +399,7 @@ impl Server {
 
                         client.state = remote_client::State::Active(remote_client::ActiveState {
                             half_connection,
-                            timeout_time_ms: now_ms + self.config.endpoint_config.active_timeout_ms,
+                            timeout_time_ms: now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms),
                             disconnect_signal: None,
                         });
 
@@ -511,7 +511,7 @@ impl Server {
                         .half_connection
                         .handle_data_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -533,7 +533,7 @@ impl Server {
                         .half_connection
                         .handle_ack_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
@@ -555,7 +555,7 @@ impl Server {
                         .half_connection
                         .handle_sync_frame(frame);
 
-                    state.timeout_time_ms = now_ms + self.config.endpoint_config.active_timeout_ms;
+                    state.timeout_time_ms = now_ms.saturating_add(self.config.endpoint_config.active_timeout_ms);
                 }
                 _ => (),
             }
-- 
2.43.0


From 99ba25050617bbc5a458f18518f7b0764f84932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 22/25] fix: saturate the receive memory limit when rounding it
 up

---
 src/half_connection/packet_receiver/assembly_window/mod.rs | 2 +-
 src/half_connection/packet_sender.rs                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/half_connection/packet_receiver/assembly_window/mod.rs b/src/half_connection/packet_receiver/assembly_window/mod.rs
index 833b0f2..b69cdb1 100644
--- a/src/half_connection/packet_receiver/assembly_window/mod.rs
+++ b/src/half_connection/packet_receiver/assembly_window/mod.rs
@@ -70,7 +70,7 @@ impl AssemblyWindow {
     pub fn new(max_alloc: usize) -> Self {
         let window: Vec<WindowEntry> = (0 .. MAX_PACKET_WINDOW_SIZE).map(|_| WindowEntry::Open).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             window: window.into_boxed_slice(),
diff --git a/src/half_connection/packet_sender.rs b/src/half_connection/packet_sender.rs
index 1e5295e..fbebf75 100644
--- a/src/half_connection/packet_sender.rs
+++ b/src/half_connection/packet_sender.rs
@@ -97,7 +97,7 @@ impl PacketSender {
 
         let channels: Vec<Channel> = (0 .. CHANNEL_COUNT).map(|_| Channel::new()).collect();
 
-        let max_alloc_ceil = ((max_alloc + MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
+        let max_alloc_ceil = (max_alloc.saturating_add(MAX_FRAGMENT_SIZE - 1) / MAX_FRAGMENT_SIZE) * MAX_FRAGMENT_SIZE;
 
         Self {
             packet_send_queue: VecDeque::new(),
-- 
2.43.0


From ab7d3b3314bb11a7947e8fa0c7ec5d24b8db138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 23/25] fix: leave packets in the send queue until their
 transmission can begin

---
 src/half_connection/emit.rs        | 26 ++++++++++++++++++++++++++
 src/half_connection/frame_queue.rs |  4 ++++
 src/half_connection/mod.rs         | 13 +++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/src/half_connection/emit.rs b/src/half_connection/emit.rs
index b01620a..b77c6ae 100644
--- a/src/half_connection/emit.rs
+++ b/src/half_connection/emit.rs
@@ -42,6 +42,32 @@ impl<'a, F> DataFrameEmitter<'a, F> where F: FnMut(Box<[u8]>) {
         }
     }
 
+    // Returns Ok(()) if any one datagram would be added successfully
+    // Returns Err(DataPushError) if a datagram might not be added
+    pub fn poll(&mut self) -> Result<(), DataPushError> {
+        let (frame_count, frame_size) =
+            if let Some(ref next_frame) = self.in_progress_frame {
+                (1, next_frame.fbuilder.size())
+            } else {
+                (0, 0)
+            };
+
+        if (self.flush_alloc - frame_size as isize) < 0 {
+            // Out of bandwidth
+            self.finalize();
+            self.frame_queue.mark_rate_limited();
+            return Err(DataPushError::SizeLimited);
+        }
+
+        if !self.frame_queue.can_push_after(frame_count) {
+            // Would exceed window
+            self.finalize();
+            return Err(DataPushError::WindowLimited);
+        }
+
+        return Ok(());
+    }
+
     // Returns Ok(()) if the datagram was added successfully
     // Returns Err(DataPushError) if the datagram could not be added
     pub fn push(&mut self, packet_rc: &pending_packet::PendingPacketRc, fragment_id: u16, resend: bool) -> Result<(), DataPushError> {
diff --git a/src/half_connection/frame_queue.rs b/src/half_connection/frame_queue.rs
index ccb0ca9..b8f2c30 100644
--- a/src/half_connection/frame_queue.rs
+++ b/src/half_connection/frame_queue.rs
@@ -229,6 +229,10 @@ impl FrameQueue {
         return self.next_id().wrapping_sub(self.window.base_id) < self.window.size;
     }
 
+    pub fn can_push_after(&self, frame_count: u32) -> bool {
+        return self.next_id().wrapping_add(frame_count).wrapping_sub(self.window.base_id) < self.window.size;
+    }
+
     pub fn next_id(&self) -> u32 {
         self.frame_log.next_id()
     }
diff --git a/src/half_connection/mod.rs b/src/half_connection/mod.rs
index 9fc449e..579d238 100644
--- a/src/half_connection/mod.rs
+++ b/src/half_connection/mod.rs
@@ -388,6 +388,19 @@ impl HalfConnection {
 
         loop {
             if self.pending_queue.is_empty() {
+                if self.packet_sender.pending_count() == 0 {
+                    break;
+                }
+
+                // A packet may only leave the send queue if its transmission can begin at once,
+                // otherwise a TimeSensitive packet would be sent after the next step
+                match dfe.poll() {
+                    // Being window-limited does not preclude further sends
+                    Err(emit::DataPushError::WindowLimited) => return Ok(()),
+                    Err(emit::DataPushError::SizeLimited) => return Err(()),
+                    Ok(_) => (),
+                }
+
                 if let Some((packet_rc, resend)) = self.packet_sender.emit_packet(flush_id) {
                     let pending_packet_ref = packet_rc.borrow();
 
-- 
2.43.0


From ad8264c0fa2cc5388dd8f72702c5d3f4f9fc887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 24/25] fix: keep the slow start rate above the minimum rate
 for very long round trips

---
 src/half_connection/send_rate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_connection/send_rate.rs b/src/half_connection/send_rate.rs
index cd043ba..4aa9b91 100644
--- a/src/half_connection/send_rate.rs
+++ b/src/half_connection/send_rate.rs
@@ -252,7 +252,7 @@ impl SendRateComp {
                     // No loss, continue slow start phase
 
                     // Recomputing this term on the fly allows for some adaptation as RTT fluctuates
-                    let initial_rate = compute_initial_send_rate(rtt_s);
+                    let initial_rate = compute_initial_send_rate(rtt_s).max(MINIMUM_RATE);
 
                     if let Some(time_last_doubled_ms) = state.time_last_doubled_ms {
                         // Continue slow start doubling, see section 4.3, step 5
-- 
2.43.0


From 38c71e10f7ba0090a1e212730b2de23ac9496c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 25/25] fix: count packets accepted before the connection is
 established in send_buffer_size()

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 31c98cf..4507d28 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -381,6 +381,10 @@ impl Client {
     /// they would not be sent.
     pub fn send_buffer_size(&self) -> usize {
         match self.state {
+            State::Pending(ref state) => {
+                // Packets accepted thus far are waiting for the connection to be established
+                state.initial_sends.iter().map(|send| send.data.len()).sum()
+            }
             State::Active(ref state) => state.half_connection.send_buffer_size(),
             _ => 0,
         }
-- 
2.43.0

