From fa329bb19aa87bb1d0816b2d758078ea7e9d18ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:42 +0000
Subject: [PATCH 1/3] fix: packet timeout only closes the channel the packet
 was sent on

A packet of an earlier, already closed ordered channel can still time out
after a new channel has been opened. The timeout handler then marked the new
channel as closed although it is still open.
---
 src/ibc/relay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..1dad678 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -54,9 +54,12 @@ pub fn ibc_packet_timeout(
     _env: Env,
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
-    // If the channel is ordered, close it.
+    // If the channel is ordered, close it. A packet may still time out on a previously closed
+    // channel, in which case the currently tracked channel is not affected.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.is_ordered()
+        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
+    {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0


From 7157eb0a566ae8a1b020c1376e3608da1f94e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:42 +0000
Subject: [PATCH 2/3] fix: do not replace an open channel when a second
 handshake completes

Two handshakes may be in flight at once. Completing the second one while the
channel of the first is open silently replaced it, leaving an open channel
which the contract neither tracks nor can close. ibc-go's controller rejects
this with ErrActiveChannelAlreadySet.
---
 src/ibc/handshake.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..ee67b0f 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -46,6 +46,7 @@ pub fn ibc_channel_open(
 /// - The host port is invalid.
 /// - The version metadata is invalid.
 /// - The ICA address is empty.
+/// - Another channel is already open.
 #[entry_point]
 #[allow(clippy::needless_pass_by_value)] // entry point needs this signature
 pub fn ibc_channel_connect(
@@ -170,6 +171,14 @@ mod ibc_channel_open {
             return Err(ContractError::InvalidIcaAddress);
         }
 
+        // Another handshake may have completed since this one was initiated.
+        // This contract can only store one active channel.
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // update state with the ica info
         state.set_ica_info(
             &metadata.address,
-- 
2.43.0


From dec5ef89a97fb4b2475df00e1aa9dd5c4964d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 3/3] fix: report a query error only for packets that carried
 queries

A failed acknowledgement delivered a query error to the callback contract even
if the packet contained no queries, although the query result is documented to
be present only for packets with queries. The pending query record of a failed
query packet was also never removed.
---
 src/ibc/relay.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index 1dad678..cb9c784 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -144,13 +144,19 @@ mod ibc_packet_ack {
     ) -> Result<IbcBasicResponse, ContractError> {
         let state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
+        let pending_query_key = (packet.src.channel_id.as_str(), packet.sequence);
+        let query_result = state::PENDING_QUERIES
+            .has(deps.storage, pending_query_key)
+            .then(|| query_msg::IcaQueryResult::Error(err.clone()));
+
+        state::PENDING_QUERIES.remove(deps.storage, pending_query_key);
 
         if let Some(contract_addr) = state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
-                ica_acknowledgement: AcknowledgementData::Error(err.clone()),
+                ica_acknowledgement: AcknowledgementData::Error(err),
                 original_packet: packet,
                 relayer,
-                query_result: Some(query_msg::IcaQueryResult::Error(err)),
+                query_result,
             }
             .into_cosmos_msg(contract_addr)?;
 
-- 
2.43.0

