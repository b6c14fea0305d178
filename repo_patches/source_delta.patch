From c49761ac0819062192300da0ff83c6553db0ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:51 +0000
Subject: [PATCH 1/4] fix: a late packet timeout of a previous channel must not
 close the current one

---
 src/ibc/relay.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..878f366 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -55,8 +55,9 @@ pub fn ibc_packet_timeout(
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
     // If the channel is ordered, close it.
+    // A packet sent over a previous channel must not affect the current one.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0


From 28dd9d4531e8a48d6065cc5f914ebd13ab103691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:51 +0000
Subject: [PATCH 2/4] fix: reject a channel open ack while another channel is
 open

---
 src/ibc/handshake.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..7c5b9f3 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -46,6 +46,7 @@ pub fn ibc_channel_open(
 /// - The host port is invalid.
 /// - The version metadata is invalid.
 /// - The ICA address is empty.
+/// - Another channel is already open.
 #[entry_point]
 #[allow(clippy::needless_pass_by_value)] // entry point needs this signature
 pub fn ibc_channel_connect(
@@ -170,6 +171,14 @@ mod ibc_channel_open {
             return Err(ContractError::InvalidIcaAddress);
         }
 
+        // this contract can only store one active channel, another handshake may have
+        // been completed since this one was started
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // update state with the ica info
         state.set_ica_info(
             &metadata.address,
-- 
2.43.0


From b09b13d61b74906eca1b8c86b54785a79a1ef2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:51 +0000
Subject: [PATCH 3/4] fix: error acks report a query result only for query
 packets and clear their bookkeeping

---
 src/ibc/relay.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index 878f366..e01576a 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -142,13 +142,18 @@ mod ibc_packet_ack {
     ) -> Result<IbcBasicResponse, ContractError> {
         let state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
+        let query_result = state::PENDING_QUERIES
+            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
+            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
+
+        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
 
         if let Some(contract_addr) = state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
-                ica_acknowledgement: AcknowledgementData::Error(err.clone()),
+                ica_acknowledgement: AcknowledgementData::Error(err),
                 original_packet: packet,
                 relayer,
-                query_result: Some(query_msg::IcaQueryResult::Error(err)),
+                query_result,
             }
             .into_cosmos_msg(contract_addr)?;
 
-- 
2.43.0


From 33c4593d992dea6170c6e036f7137c8aa0d0e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:51 +0000
Subject: [PATCH 4/4] fix: an empty next_key means there are no more denom
 metadata pages

---
 src/types/query_msg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/query_msg.rs b/src/types/query_msg.rs
index a4ac186..735349c 100644
--- a/src/types/query_msg.rs
+++ b/src/types/query_msg.rs
@@ -506,6 +506,7 @@ pub mod from_protobuf {
                             .map(convert_to_metadata)
                             .collect(),
                         resp.pagination
+                            .filter(|pagination| !pagination.next_key.is_empty())
                             .map(|pagination| Binary::new(pagination.next_key)),
                     ),
                 )))
-- 
2.43.0

