From 16e6d3bc2516c94e2e5d617ec763184ce65e4283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 01/44] fix: aborting a transaction must not release locks held
 by another dtx

apply_outputs released the inputs of every aborted transaction, including
transactions whose lock had failed because another distributed transaction
holds the output. That made the output spendable twice.
---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 92a325f..c374bbe 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -147,6 +147,7 @@ namespace cbdc::locking_shard {
             return true;
         }
         auto& dtx = prepared_dtx_it->second.m_txs;
+        const auto& lock_results = prepared_dtx_it->second.m_results;
         if(complete_txs.size() != dtx.size()) {
             // This would only happen due to a bug in the controller
             m_logger->fatal("Incorrect number of complete tx flags for apply",
@@ -166,6 +167,11 @@ namespace cbdc::locking_shard {
                     m_uhs.emplace(uhs_id);
                 }
             }
+            if(!lock_results[i]) {
+                // This dtx holds no locks for the transaction. Its inputs may
+                // be locked by another dtx, so leave them alone.
+                continue;
+            }
             for(auto&& uhs_id : tx.m_tx.m_inputs) {
                 if(hash_in_shard_range(uhs_id)) {
                     auto was_locked = m_locked.erase(uhs_id);
-- 
2.43.0


From f439b32fc00eece5eda189630bb9439b6f92bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 02/44] fix: report only completed transactions as completed

The cache of completed transaction ids also recorded aborted transactions, so
a status query claimed that they had completed.
---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index c374bbe..d758722 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -158,7 +158,7 @@ namespace cbdc::locking_shard {
         }
         for(size_t i{0}; i < dtx.size(); i++) {
             auto&& tx = dtx[i];
-            if(hash_in_shard_range(tx.m_tx.m_id)) {
+            if(complete_txs[i] && hash_in_shard_range(tx.m_tx.m_id)) {
                 m_completed_txs.add(tx.m_tx.m_id);
             }
 
-- 
2.43.0


From b0586e01bd7dee4e8b5b783406a89551b665f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 03/44] fix: send discard to the shards when recovering a dtx
 in the discard phase

recover_discard left the shard participation map empty, so discard() skipped
every shard and they kept the applied dtx forever.
---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 5 ++++-
 src/uhs/twophase/coordinator/distributed_tx.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 4aabaa6..aab7712 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -187,7 +187,9 @@ namespace cbdc::coordinator {
         }
         auto futures = std::vector<std::future<bool>>();
         for(size_t i{0}; i < m_shards.size(); i++) {
-            if(m_tx_idxs[i].empty()) {
+            // A dtx recovered in the discard phase doesn't know which shards
+            // participated. Discarding is harmless for the others.
+            if(m_tx_idxs[i].empty() && !m_discard_all) {
                 continue;
             }
             const auto& shard = m_shards[i];
@@ -253,6 +255,7 @@ namespace cbdc::coordinator {
 
     void distributed_tx::recover_discard() {
         m_state = dtx_state::discard;
+        m_discard_all = true;
     }
 
     auto distributed_tx::size() const -> size_t {
diff --git a/src/uhs/twophase/coordinator/distributed_tx.hpp b/src/uhs/twophase/coordinator/distributed_tx.hpp
index 83b9571..b40e081 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.hpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.hpp
@@ -162,6 +162,7 @@ namespace cbdc::coordinator {
         discard_cb_t m_discard_cb;
         done_cb_t m_done_cb;
         dtx_state m_state{dtx_state::start};
+        bool m_discard_all{false};
         std::vector<bool> m_complete_txs;
         std::shared_ptr<logging::log> m_logger;
     };
-- 
2.43.0


From 55887db2b08f47fd51f83ec53679388bcffd5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 04/44] fix: a repeated commit must not overwrite replicated
 shard state

---
 src/parsec/runtime_locking_shard/replicated_shard.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/replicated_shard.cpp b/src/parsec/runtime_locking_shard/replicated_shard.cpp
index 87672e3..4fe0115 100644
--- a/src/parsec/runtime_locking_shard/replicated_shard.cpp
+++ b/src/parsec/runtime_locking_shard/replicated_shard.cpp
@@ -31,6 +31,10 @@ namespace cbdc::parsec::runtime_locking_shard {
                 return error_code::unknown_ticket;
             }
             auto& t = it->second;
+            if(t.m_state == ticket_state::committed) {
+                // The updates were applied by an earlier commit
+                return std::nullopt;
+            }
             t.m_state = ticket_state::committed;
             for(auto&& [k, v] : t.m_state_update) {
                 m_state[k] = std::move(v);
-- 
2.43.0


From fafd039bd510bd7b0f4f60abd04d7e8ce5d18860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 05/44] fix: answer failed replication with the error type of
 the request

---
 src/parsec/runtime_locking_shard/server.cpp | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/server.cpp b/src/parsec/runtime_locking_shard/server.cpp
index 062c91e..a174c4b 100644
--- a/src/parsec/runtime_locking_shard/server.cpp
+++ b/src/parsec/runtime_locking_shard/server.cpp
@@ -101,14 +101,16 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             [this, callback](replicated_shard_interface::return_type res) {
                 if(res.has_value()) {
                     m_log->error("Error response during prepare replication");
-                    callback(error_code::internal_error);
+                    callback(interface::prepare_return_type{
+                        shard_error{error_code::internal_error, std::nullopt}});
                     return;
                 }
                 callback(interface::prepare_return_type{});
             });
         if(!success) {
             m_log->error("Error replicating prepare");
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 
@@ -117,7 +119,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                                const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during commit replication");
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
             return;
         }
 
@@ -128,7 +131,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating commit with internal shard");
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 
@@ -138,7 +142,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication",
                          static_cast<int>(ret.value()));
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
             return;
         }
 
@@ -149,7 +154,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 
@@ -158,7 +164,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                            const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication");
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
             return;
         }
 
@@ -169,7 +176,8 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}});
         }
     }
 }
-- 
2.43.0


From 317ae7850f066542e2ebfda00774e9071866c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 06/44] fix: broker recovery must survive tickets finishing
 while it runs

---
 src/parsec/broker/impl.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 1776796..9a61d7b 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -883,6 +883,8 @@ namespace cbdc::parsec::broker {
         // Do not allow recovery when tickets are in-flight
         auto maybe_tickets = [&]() {
             std::unique_lock l(m_mut);
+            // Discard what an earlier recovery was told
+            m_recovery_tickets.clear();
             return !m_tickets.empty();
         }();
         if(maybe_tickets) {
@@ -972,7 +974,10 @@ namespace cbdc::parsec::broker {
 
     auto impl::do_recovery(const recover_callback_type& result_callback)
         -> std::optional<error_code> {
-        for(auto [ticket_number, ticket] : m_tickets) {
+        // Finishing a ticket erases it from m_tickets, possibly before the call
+        // returns
+        auto tickets = m_tickets;
+        for(auto& [ticket_number, ticket] : tickets) {
             size_t committed{};
             for(auto& [sidx, t_state] : ticket->m_shard_states) {
                 switch(t_state.m_state) {
@@ -1004,7 +1009,7 @@ namespace cbdc::parsec::broker {
                 auto success = commit(
                     ticket_number,
                     {},
-                    [&, result_callback, tn = ticket_number](
+                    [this, result_callback, tn = ticket_number](
                         const commit_return_type& comm_res) {
                         handle_recovery_commit(result_callback, tn, comm_res);
                     });
@@ -1015,7 +1020,7 @@ namespace cbdc::parsec::broker {
                 ticket->m_state = ticket_state::begun;
                 auto success
                     = rollback(ticket_number,
-                               [&, result_callback, tn = ticket_number](
+                               [this, result_callback, tn = ticket_number](
                                    rollback_return_type roll_res) {
                                    handle_recovery_rollback(result_callback,
                                                             tn,
-- 
2.43.0


From e2b61e926d5efaaf97d6de378414ea28a04427db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 07/44] fix: restarting a ticket must not modify the state of
 the aborted attempt

---
 src/parsec/broker/impl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 9a61d7b..7edee91 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -149,8 +149,10 @@ namespace cbdc::parsec::broker {
                 case ticket_state::committed:
                     return error_code::committed;
                 case ticket_state::aborted:
-                    t_state->m_state = ticket_state::begun;
-                    t_state->m_shard_states.clear();
+                    // A prepare of the aborted attempt might still be
+                    // iterating over its shard states
+                    t_state = std::make_shared<state>();
+                    it->second = t_state;
                     m_log->trace(this, "broker restarting", ticket_number);
                     break;
             }
-- 
2.43.0


From 7c3b7cab20b127d4c3672cca7f78dfb4d6dc2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 08/44] fix: a late shard answer must not add the shard to a
 restarted ticket

---
 src/parsec/broker/impl.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 7edee91..0810ece 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -89,7 +89,13 @@ namespace cbdc::parsec::broker {
                     }
 
                     auto t_state = it->second;
-                    auto& s_state = t_state->m_shard_states[shard_idx];
+                    auto s_it = t_state->m_shard_states.find(shard_idx);
+                    if(s_it == t_state->m_shard_states.end()) {
+                        m_log->error("Shard state not found for lock");
+                        return error_code::invalid_shard_state;
+                    }
+
+                    auto& s_state = s_it->second;
                     auto k_it = s_state.m_key_states.find(key);
                     if(k_it == s_state.m_key_states.end()) {
                         m_log->error("Shard state not found for key");
@@ -229,7 +235,12 @@ namespace cbdc::parsec::broker {
         uint64_t shard_idx,
         const parsec::runtime_locking_shard::interface::prepare_return_type&
             res) -> std::optional<commit_return_type> {
-        auto& ss = ts->m_shard_states[shard_idx].m_state;
+        // The ticket might have been restarted without this shard
+        auto s_it = ts->m_shard_states.find(shard_idx);
+        if(s_it == ts->m_shard_states.end()) {
+            return std::nullopt;
+        }
+        auto& ss = s_it->second.m_state;
         if(ss != shard_state_type::preparing) {
             m_log->trace(this,
                          "Shard",
-- 
2.43.0


From 48087b98209cccda804e0b1f896d080fee1db8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 09/44] fix: do not commit again while the committed ticket is
 being finished

---
 src/parsec/broker/impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 0810ece..50c1e0a 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -296,9 +296,10 @@ namespace cbdc::parsec::broker {
                          const std::shared_ptr<state>& ts)
         -> std::optional<error_code> {
         for(auto& shard : ts->m_shard_states) {
-            if(ts->m_state == ticket_state::aborted) {
-                m_log->trace("Broker aborted during commit for",
-                             ticket_number);
+            // The last shard to commit completes the ticket, which the caller
+            // might be finishing already
+            if(ts->m_state != ticket_state::prepared) {
+                m_log->trace("Broker no longer committing", ticket_number);
                 break;
             }
             if(shard.second.m_state == shard_state_type::committed) {
-- 
2.43.0


From 473c7dd51988b277c0651a58e0d12a69d5a0f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 10/44] fix: answer every broker request exactly once

---
 src/parsec/broker/impl.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 50c1e0a..65ea10c 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -7,9 +7,26 @@
 
 #include "util/common/variant_overloaded.hpp"
 
+#include <atomic>
 #include <cassert>
 
 namespace cbdc::parsec::broker {
+    namespace {
+        /// Wraps a result callback so that only the first of several results
+        /// (from different shards, for instance) reaches the caller.
+        template<typename Result>
+        auto call_once(std::function<void(Result)> callback)
+            -> std::function<void(Result)> {
+            return [callback = std::move(callback),
+                    called = std::make_shared<std::atomic_bool>(false)](
+                       Result res) {
+                if(!called->exchange(true)) {
+                    callback(std::move(res));
+                }
+            };
+        }
+    }
+
     impl::impl(
         runtime_locking_shard::broker_id_type broker_id,
         std::vector<std::shared_ptr<runtime_locking_shard::interface>> shards,
@@ -391,6 +408,8 @@ namespace cbdc::parsec::broker {
                       state_update_type state_updates,
                       commit_callback_type result_callback) -> bool {
         m_log->trace(this, "Broker got commit request for", ticket_number);
+        result_callback = call_once(std::move(result_callback));
+        auto done = false;
         auto maybe_error = [&]() -> std::optional<error_code> {
             std::unique_lock l(m_mut);
             auto it = m_tickets.find(ticket_number);
@@ -436,6 +455,12 @@ namespace cbdc::parsec::broker {
                 }
             }
 
+            if(t_state->m_shard_states.empty()) {
+                t_state->m_state = ticket_state::committed;
+                done = true;
+                return std::nullopt;
+            }
+
             if(t_state->m_state == ticket_state::prepared) {
                 return do_commit(result_callback, ticket_number, t_state);
             }
@@ -451,6 +476,8 @@ namespace cbdc::parsec::broker {
                 "Broker calling commit callback with error from commit for",
                 ticket_number);
             result_callback(maybe_error.value());
+        } else if(done) {
+            result_callback(std::nullopt);
         }
 
         return true;
@@ -505,6 +532,7 @@ namespace cbdc::parsec::broker {
 
     auto impl::finish(ticket_number_type ticket_number,
                       finish_callback_type result_callback) -> bool {
+        result_callback = call_once(std::move(result_callback));
         auto done = false;
         auto maybe_error = [&]() -> std::optional<error_code> {
             std::unique_lock l(m_mut);
@@ -530,6 +558,12 @@ namespace cbdc::parsec::broker {
                         ticket_number);
                     return error_code::prepared;
                 case ticket_state::committed:
+                    if(t_state->m_shard_states.empty()) {
+                        // No shard to finish. Just delete the ticket.
+                        m_tickets.erase(it);
+                        done = true;
+                        return std::nullopt;
+                    }
                     break;
                 case ticket_state::aborted:
                     // Ticket already rolled back. Just delete the ticket.
@@ -585,6 +619,7 @@ namespace cbdc::parsec::broker {
     auto impl::rollback(ticket_number_type ticket_number,
                         rollback_callback_type result_callback) -> bool {
         m_log->trace(this, "Broker got rollback request for", ticket_number);
+        result_callback = call_once(std::move(result_callback));
         auto callback = false;
         auto maybe_error = [&]() -> std::optional<error_code> {
             std::unique_lock l(m_mut);
@@ -894,6 +929,7 @@ namespace cbdc::parsec::broker {
     }
 
     auto impl::recover(recover_callback_type result_callback) -> bool {
+        result_callback = call_once(std::move(result_callback));
         // Do not allow recovery when tickets are in-flight
         auto maybe_tickets = [&]() {
             std::unique_lock l(m_mut);
-- 
2.43.0


From 8c7c11669dea928e25397a5557608a24204ef957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 11/44] fix: keep the newest attestation for each input of a
 pending transaction

---
 src/uhs/atomizer/atomizer/atomizer_raft.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer_raft.cpp b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
index 24681f2..d94524f 100644
--- a/src/uhs/atomizer/atomizer/atomizer_raft.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
@@ -69,11 +69,13 @@ namespace cbdc::atomizer {
                 for(auto n : notif.m_attestations) {
                     auto p = std::make_pair(n, notif.m_block_height);
                     auto n_it = it->second.find(p);
-                    if((n_it != it->second.end()
-                        && n_it->second < notif.m_block_height)
-                       || n_it == it->second.end()) {
-                        it->second.insert(std::move(p));
+                    if(n_it != it->second.end()) {
+                        if(n_it->second >= notif.m_block_height) {
+                            continue;
+                        }
+                        it->second.erase(n_it);
                     }
+                    it->second.insert(std::move(p));
                 }
             } else {
                 auto attestations = attestation_set();
-- 
2.43.0


From e23d8a9441ef7ee246950088255e58233e20952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 12/44] fix: accept transactions without inputs whatever the
 notification height

---
 src/uhs/atomizer/atomizer/atomizer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer.cpp b/src/uhs/atomizer/atomizer/atomizer.cpp
index cc83610..142f4f7 100644
--- a/src/uhs/atomizer/atomizer/atomizer.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer.cpp
@@ -45,7 +45,10 @@ namespace cbdc::atomizer {
                           transaction::compact_tx tx,
                           std::unordered_set<uint32_t> attestations)
         -> std::optional<cbdc::watchtower::tx_error> {
-        const auto height_offset = get_notification_offset(block_height);
+        // Without inputs there is nothing to attest to, so the height is
+        // irrelevant and might not be covered by the cache.
+        const auto height_offset
+            = tx.m_inputs.empty() ? 0 : get_notification_offset(block_height);
 
         auto offset_err = check_notification_offset(height_offset, tx);
         if(offset_err) {
@@ -134,7 +137,10 @@ namespace cbdc::atomizer {
     auto atomizer::insert_complete(uint64_t oldest_attestation,
                                    transaction::compact_tx&& tx)
         -> std::optional<cbdc::watchtower::tx_error> {
-        const auto height_offset = get_notification_offset(oldest_attestation);
+        const auto height_offset
+            = tx.m_inputs.empty()
+                ? 0
+                : get_notification_offset(oldest_attestation);
 
         auto offset_err = check_notification_offset(height_offset, tx);
         if(offset_err) {
-- 
2.43.0


From a9074cc27b8dd211e9a3e2f136b18be8703c8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 13/44] fix: keep every error of the window in the watchtower's
 error cache

---
 src/uhs/atomizer/watchtower/error_cache.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/error_cache.cpp b/src/uhs/atomizer/watchtower/error_cache.cpp
index 624842e..3907aa7 100644
--- a/src/uhs/atomizer/watchtower/error_cache.cpp
+++ b/src/uhs/atomizer/watchtower/error_cache.cpp
@@ -17,19 +17,26 @@ namespace cbdc::watchtower {
         for(auto&& err : errs) {
             if((m_k_errs != 0) && (m_errs.size() == m_k_errs)) {
                 auto& old_err = m_errs.front();
-                m_tx_id_errs.erase(old_err->tx_id());
+                // Only forget what is not covered by a more recent error.
+                auto evict = [&](auto& errs_map, const hash_t& id) {
+                    auto it = errs_map.find(id);
+                    if(it != errs_map.end() && it->second == old_err) {
+                        errs_map.erase(it);
+                    }
+                };
+                evict(m_tx_id_errs, old_err->tx_id());
 
                 std::visit(overloaded{
                                [](const tx_error_sync& /* unused */) {},
                                [&](const tx_error_inputs_dne& arg) {
                                    for(auto& uhs_id : arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       evict(m_uhs_errs, uhs_id);
                                    }
                                },
                                [&](const tx_error_inputs_spent& arg) {
                                    for(const auto& uhs_id :
                                        arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       evict(m_uhs_errs, uhs_id);
                                    }
                                },
                                [](const tx_error_stxo_range& /* unused */) {},
@@ -42,17 +49,17 @@ namespace cbdc::watchtower {
 
             auto new_err = std::make_shared<tx_error>(std::move(err));
             m_errs.push(new_err);
-            m_tx_id_errs.insert({new_err->tx_id(), new_err});
+            m_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);
             std::visit(overloaded{
                            [](const tx_error_sync& /* unused */) {},
                            [&](const tx_error_inputs_dne& arg) {
                                for(auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [&](const tx_error_inputs_spent& arg) {
                                for(const auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [](const tx_error_stxo_range& /* unused */) {},
-- 
2.43.0


From 0463654c24d636d09413280f7af46919b149fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 14/44] fix: report one status per UHS ID, a settled one before
 an error

---
 src/uhs/atomizer/watchtower/watchtower.cpp | 47 +++++++++++-----------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/watchtower.cpp b/src/uhs/atomizer/watchtower/watchtower.cpp
index 06a12af..3225581 100644
--- a/src/uhs/atomizer/watchtower/watchtower.cpp
+++ b/src/uhs/atomizer/watchtower/watchtower.cpp
@@ -67,26 +67,6 @@ namespace cbdc::watchtower {
         states.reserve(uhs_ids.size());
         for(const auto& uhs_id : uhs_ids) {
             auto found_status = false;
-            if(internal_err) {
-                states.emplace_back(
-                    status_update_state{search_status::internal_error,
-                                        best_height,
-                                        uhs_id});
-                found_status = true;
-            } else if(tx_err) {
-                if(auto uhs_err = m_ec.check_uhs_id(uhs_id)) {
-                    states.emplace_back(
-                        status_update_state{search_status::invalid_input,
-                                            best_height,
-                                            uhs_id});
-                } else {
-                    states.emplace_back(
-                        status_update_state{search_status::tx_rejected,
-                                            best_height,
-                                            uhs_id});
-                }
-                found_status = true;
-            }
             if(auto spent = m_bc.check_spent(uhs_id)) {
                 auto [height, s_tx_id] = spent.value();
                 if(s_tx_id == tx_id) {
@@ -107,10 +87,29 @@ namespace cbdc::watchtower {
                 }
             }
             if(!found_status) {
-                states.emplace_back(
-                    status_update_state{search_status::no_history,
-                                        best_height,
-                                        uhs_id});
+                if(internal_err) {
+                    states.emplace_back(
+                        status_update_state{search_status::internal_error,
+                                            best_height,
+                                            uhs_id});
+                } else if(tx_err) {
+                    if(auto uhs_err = m_ec.check_uhs_id(uhs_id)) {
+                        states.emplace_back(
+                            status_update_state{search_status::invalid_input,
+                                                best_height,
+                                                uhs_id});
+                    } else {
+                        states.emplace_back(
+                            status_update_state{search_status::tx_rejected,
+                                                best_height,
+                                                uhs_id});
+                    }
+                } else {
+                    states.emplace_back(
+                        status_update_state{search_status::no_history,
+                                            best_height,
+                                            uhs_id});
+                }
             }
         }
         return states;
-- 
2.43.0


From c5523f428cbcf2f282ad4518833f7fd8e3f80d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 15/44] fix: a shard must not count a block it failed to store
 nor attest to unreadable inputs

---
 src/uhs/atomizer/shard/shard.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index c328acf..cad41ad 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -85,17 +85,19 @@ namespace cbdc::shard {
         }
 
         // Bump the best block height
-        this->m_best_block_height++;
+        const auto new_height = this->m_best_block_height + 1;
         std::array<char, sizeof(m_best_block_height)> height_arr{};
-        std::memcpy(height_arr.data(),
-                    &m_best_block_height,
-                    sizeof(m_best_block_height));
+        std::memcpy(height_arr.data(), &new_height, sizeof(new_height));
         leveldb::Slice newBestBlockHeight(height_arr.data(),
                                           sizeof(this->m_best_block_height));
         batch.Put(m_best_block_height_key, newBestBlockHeight);
 
         // Commit the changes atomically
-        this->m_db->Write(this->m_write_options, &batch);
+        const auto res = this->m_db->Write(this->m_write_options, &batch);
+        if(!res.ok()) {
+            return false;
+        }
+        this->m_best_block_height = new_height;
 
         update_snapshot();
 
@@ -147,8 +149,13 @@ namespace cbdc::shard {
             const auto& res = m_db->Get(read_options, OutPointKey, &op);
             if(res.IsNotFound()) {
                 dne_inputs.push_back(inp);
-            } else {
+            } else if(res.ok()) {
                 attestations.insert(i);
+            } else {
+                // Whether the input exists is unknown, so don't attest to it
+                return cbdc::watchtower::tx_error{
+                    tx.m_id,
+                    cbdc::watchtower::tx_error_sync{}};
             }
         }
 
-- 
2.43.0


From 6998105cc88e68bfa3a52f581dc202a3bfe3179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 16/44] fix: the watchtower must not wait for ever on a
 duplicate block

---
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 7ffe9a2..41823cf 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -104,6 +104,10 @@ auto cbdc::watchtower::controller::atomizer_handler(
                     "with",
                     blk.m_transactions.size(),
                     "transactions.");
+    if(blk.m_height <= m_last_blk_height) {
+        m_logger->warn("Ignoring duplicate block:", blk.m_height);
+        return std::nullopt;
+    }
     if(blk.m_height != (m_last_blk_height + 1)) {
         m_logger->warn("Block not contiguous. Last block:", m_last_blk_height);
         while(blk.m_height != (m_last_blk_height + 1)) {
-- 
2.43.0


From f07ff809aa0ec4939a03abbe4d3c03897882f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 17/44] fix: the ticket machine client must answer its callers
 when tickets cannot be fetched

---
 src/parsec/ticket_machine/client.cpp | 36 ++++++++++++++++++----------
 src/parsec/ticket_machine/client.hpp |  2 ++
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/parsec/ticket_machine/client.cpp b/src/parsec/ticket_machine/client.cpp
index 07dc623..6e3c7cf 100644
--- a/src/parsec/ticket_machine/client.cpp
+++ b/src/parsec/ticket_machine/client.cpp
@@ -49,30 +49,37 @@ namespace cbdc::parsec::ticket_machine::rpc {
         return m_client->call(
             std::monostate{},
             [this](std::optional<get_ticket_number_return_type> res) {
-                assert(res.has_value());
+                if(!res.has_value()) {
+                    handle_error(error_code{});
+                    return;
+                }
                 std::visit(overloaded{[&](ticket_number_range_type range) {
                                           handle_ticket_numbers(range);
                                       },
                                       [&](error_code e) {
-                                          auto callbacks
-                                              = decltype(m_callbacks)();
-                                          {
-                                              std::unique_lock ll(m_mut);
-                                              m_fetching_tickets = false;
-                                              callbacks.swap(m_callbacks);
-                                          }
-                                          while(!callbacks.empty()) {
-                                              callbacks.front()(e);
-                                              callbacks.pop();
-                                          }
+                                          handle_error(e);
                                       }},
                            res.value());
             });
     }
 
+    void client::handle_error(error_code e) {
+        auto callbacks = decltype(m_callbacks)();
+        {
+            std::unique_lock ll(m_mut);
+            m_fetching_tickets = false;
+            callbacks.swap(m_callbacks);
+        }
+        while(!callbacks.empty()) {
+            callbacks.front()(e);
+            callbacks.pop();
+        }
+    }
+
     void client::handle_ticket_numbers(ticket_number_range_type range) {
         auto callbacks = decltype(m_callbacks)();
         auto tickets = decltype(m_tickets)();
+        auto failed = decltype(m_callbacks)();
         {
             std::unique_lock ll(m_mut);
             for(ticket_number_type i = range.first; i < range.second; i++) {
@@ -90,6 +97,7 @@ namespace cbdc::parsec::ticket_machine::rpc {
                 auto fetch_res = fetch_tickets();
                 if(!fetch_res) {
                     m_fetching_tickets = false;
+                    failed.swap(m_callbacks);
                 }
             }
         }
@@ -100,5 +108,9 @@ namespace cbdc::parsec::ticket_machine::rpc {
             callbacks.pop();
             tickets.pop();
         }
+        while(!failed.empty()) {
+            failed.front()(error_code{});
+            failed.pop();
+        }
     }
 }
diff --git a/src/parsec/ticket_machine/client.hpp b/src/parsec/ticket_machine/client.hpp
index 52099d5..2416369 100644
--- a/src/parsec/ticket_machine/client.hpp
+++ b/src/parsec/ticket_machine/client.hpp
@@ -52,6 +52,8 @@ namespace cbdc::parsec::ticket_machine::rpc {
         auto fetch_tickets() -> bool;
 
         void handle_ticket_numbers(ticket_number_range_type range);
+
+        void handle_error(error_code e);
     };
 }
 
-- 
2.43.0


From d8e2f0c247873d465840de7685fbb08089adfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 18/44] fix: drop spent outputs from the wallet's spend queue

---
 src/uhs/transaction/wallet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 059bd68..2886b77 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -225,9 +225,11 @@ namespace cbdc {
         }
 
         for(const auto& inp : debits) {
-            const auto erased = m_utxos_set.erase(inp) > 0;
-            if(erased) {
-                m_balance -= inp.m_prevout_data.m_value;
+            const auto utxo = m_utxos_set.find(inp);
+            if(utxo != m_utxos_set.end()) {
+                m_balance -= utxo->m_prevout_data.m_value;
+                m_spend_queue.remove(*utxo);
+                m_utxos_set.erase(utxo);
             }
         }
         assert(m_spend_queue.size() == m_utxos_set.size());
-- 
2.43.0


From 3ce48820183ab4cd7858e307197114f9de13b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 19/44] fix: do not allocate more memory for a decoded buffer
 than its data backs

---
 src/util/serialization/format.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/util/serialization/format.cpp b/src/util/serialization/format.cpp
index 8024d2a..97157ba 100644
--- a/src/util/serialization/format.cpp
+++ b/src/util/serialization/format.cpp
@@ -29,9 +29,18 @@ namespace cbdc {
 
     auto operator>>(serializer& deser, buffer& b) -> serializer& {
         uint64_t sz{};
-        deser >> sz;
-        b.extend(sz);
-        deser.read(b.data(), sz);
+        if(!(deser >> sz)) {
+            return deser;
+        }
+        b.clear();
+        while(b.size() < sz) {
+            const auto offset = b.size();
+            const auto len = std::min(sz - offset, config::maximum_reservation);
+            b.extend(len);
+            if(!deser.read(b.data_at(offset), len)) {
+                return deser;
+            }
+        }
         return deser;
     }
 }
-- 
2.43.0


From 43998342fd7def7857b5aa128cd7ded8cf683aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 20/44] fix: refuse invalid variant and boolean tags instead of
 aborting

---
 src/uhs/atomizer/watchtower/client.cpp       |  6 ++++
 src/uhs/atomizer/watchtower/controller.cpp   |  4 +++
 src/util/raft/serialization.cpp              |  4 +++
 src/util/raft/serialization.hpp              |  3 ++
 src/util/serialization/buffer_serializer.cpp |  4 +++
 src/util/serialization/buffer_serializer.hpp |  3 ++
 src/util/serialization/format.hpp            | 29 +++++++++++++++++---
 src/util/serialization/serializer.hpp        |  4 +++
 src/util/serialization/size_serializer.cpp   |  2 ++
 src/util/serialization/size_serializer.hpp   |  3 ++
 src/util/serialization/stream_serializer.cpp |  4 +++
 src/util/serialization/stream_serializer.hpp |  3 ++
 12 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/client.cpp b/src/uhs/atomizer/watchtower/client.cpp
index 8afee9d..357215e 100644
--- a/src/uhs/atomizer/watchtower/client.cpp
+++ b/src/uhs/atomizer/watchtower/client.cpp
@@ -27,6 +27,9 @@ namespace cbdc::watchtower {
                 -> std::optional<cbdc::buffer> {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
+                if(!deser) {
+                    return std::nullopt;
+                }
                 m_res_q.push(
                     std::make_shared<cbdc::watchtower::response>(res));
                 return std::nullopt;
@@ -90,6 +93,9 @@ namespace cbdc::watchtower {
                 -> std::optional<cbdc::buffer> {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
+                if(!deser) {
+                    return std::nullopt;
+                }
                 m_res_q.push(
                     std::make_shared<cbdc::watchtower::response>(res));
                 return std::nullopt;
diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 41823cf..28fa9f5 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -146,6 +146,10 @@ auto cbdc::watchtower::controller::external_server_handler(
     cbdc::network::message_t&& pkt) -> std::optional<cbdc::buffer> {
     auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
     auto req = request(deser);
+    if(!deser) {
+        m_logger->error("Invalid external request packet");
+        return std::nullopt;
+    }
     auto res_handler = overloaded{
         [&](const cbdc::watchtower::status_update_request& su_req)
             -> cbdc::buffer {
diff --git a/src/util/raft/serialization.cpp b/src/util/raft/serialization.cpp
index e6c23d2..9af9b4a 100644
--- a/src/util/raft/serialization.cpp
+++ b/src/util/raft/serialization.cpp
@@ -31,6 +31,10 @@ namespace cbdc {
         return m_buf.pos() >= m_buf.size();
     }
 
+    void nuraft_serializer::invalidate() {
+        m_valid = false;
+    }
+
     auto nuraft_serializer::write(const void* data, size_t len) -> bool {
         if(m_buf.pos() + len > m_buf.size()) {
             m_valid = false;
diff --git a/src/util/raft/serialization.hpp b/src/util/raft/serialization.hpp
index 084ffd4..7cc66e9 100644
--- a/src/util/raft/serialization.hpp
+++ b/src/util/raft/serialization.hpp
@@ -53,6 +53,9 @@ namespace cbdc {
         ///        from the buffer to the given destination.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Marks the serializer as failed.
+        void invalidate() final;
+
       private:
         nuraft::buffer& m_buf;
         bool m_valid{true};
diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index 1e4cc74..6b0fb84 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -27,6 +27,10 @@ namespace cbdc {
         return m_cursor >= m_pkt.size();
     }
 
+    void buffer_serializer::invalidate() {
+        m_valid = false;
+    }
+
     auto buffer_serializer::write(const void* data, size_t len) -> bool {
         if(m_cursor + len > m_pkt.size()) {
             m_pkt.extend(m_cursor + len - m_pkt.size());
diff --git a/src/util/serialization/buffer_serializer.hpp b/src/util/serialization/buffer_serializer.hpp
index 97fd435..1041e63 100644
--- a/src/util/serialization/buffer_serializer.hpp
+++ b/src/util/serialization/buffer_serializer.hpp
@@ -49,6 +49,9 @@ namespace cbdc {
         ///         from the buffer.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Marks the serializer as failed.
+        void invalidate() final;
+
       private:
         cbdc::buffer& m_pkt;
         size_t m_cursor{};
diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 683db37..f16f2c1 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -86,7 +86,18 @@ namespace cbdc {
     auto operator>>(serializer& s, T& t) ->
         typename std::enable_if_t<std::is_integral_v<T> && !std::is_enum_v<T>,
                                   serializer&> {
-        s.read(&t, sizeof(t));
+        if constexpr(std::is_same_v<T, bool>) {
+            uint8_t val{};
+            if(s.read(&val, sizeof(val))) {
+                if(val > 1) {
+                    s.invalidate();
+                } else {
+                    t = val != 0;
+                }
+            }
+        } else {
+            s.read(&t, sizeof(t));
+        }
         return s;
     }
 
@@ -388,8 +399,14 @@ namespace cbdc {
             std::variant_size_v<std::remove_reference_t<decltype(var)>> < std::
                 numeric_limits<S>::max());
         S idx{};
-        deser >> idx;
+        if(!(deser >> idx)) {
+            return deser;
+        }
         auto var_idx = static_cast<size_t>(idx);
+        if(var_idx >= sizeof...(Ts)) {
+            deser.invalidate();
+            return deser;
+        }
         var = expand_type<Ts...>(var_idx);
         std::visit(
             [&](auto&& arg) {
@@ -421,11 +438,15 @@ namespace cbdc {
             S idx{};
             deser >> idx;
             auto i = static_cast<size_t>(idx);
-            assert(i < std::variant_size_v<T>);
+            if(i >= std::variant_size_v<T>) {
+                // There is no value to return in this case: the caller has to
+                // check the serializer.
+                deser.invalidate();
+                i = 0;
+            }
             static constexpr auto t = std::array{+[](serializer& d) {
                 return T{std::in_place_type<Ts>, d};
             }...};
-            // TODO: deserialization error handling for variant indexes.
             return t.at(i)(deser);
         }
     }
diff --git a/src/util/serialization/serializer.hpp b/src/util/serialization/serializer.hpp
index 54291c4..8168072 100644
--- a/src/util/serialization/serializer.hpp
+++ b/src/util/serialization/serializer.hpp
@@ -53,6 +53,10 @@ namespace cbdc {
         ///         from the buffer into the destination.
         virtual auto read(void* data, size_t len) -> bool = 0;
 
+        /// Marks the serializer as failed, for example because the data read
+        /// from it is not valid.
+        virtual void invalidate() = 0;
+
       protected:
         serializer() = default;
     };
diff --git a/src/util/serialization/size_serializer.cpp b/src/util/serialization/size_serializer.cpp
index 694a8cd..181d950 100644
--- a/src/util/serialization/size_serializer.cpp
+++ b/src/util/serialization/size_serializer.cpp
@@ -22,6 +22,8 @@ namespace cbdc {
         return false;
     }
 
+    void size_serializer::invalidate() {}
+
     auto size_serializer::write(const void* /* data */, size_t len) -> bool {
         m_cursor += len;
         return true;
diff --git a/src/util/serialization/size_serializer.hpp b/src/util/serialization/size_serializer.hpp
index 00d8046..3151de8 100644
--- a/src/util/serialization/size_serializer.hpp
+++ b/src/util/serialization/size_serializer.hpp
@@ -44,6 +44,9 @@ namespace cbdc {
         /// \return false.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Has no effect: the size serializer never fails.
+        void invalidate() final;
+
         /// Returns the number of bytes accumulated in the size counter during
         /// mock serialization.
         /// \return number of bytes a buffer would need for serialization.
diff --git a/src/util/serialization/stream_serializer.cpp b/src/util/serialization/stream_serializer.cpp
index 9a989bb..c40eb50 100644
--- a/src/util/serialization/stream_serializer.cpp
+++ b/src/util/serialization/stream_serializer.cpp
@@ -8,6 +8,10 @@
 namespace cbdc {
     stream_serializer::stream_serializer(std::ios& s) : m_str(s) {}
 
+    void stream_serializer::invalidate() {
+        m_str.setstate(std::ios::failbit);
+    }
+
     stream_serializer::operator bool() const {
         return m_str.good();
     }
diff --git a/src/util/serialization/stream_serializer.hpp b/src/util/serialization/stream_serializer.hpp
index d083406..7c97e8c 100644
--- a/src/util/serialization/stream_serializer.hpp
+++ b/src/util/serialization/stream_serializer.hpp
@@ -25,6 +25,9 @@ namespace cbdc {
         /// \return true if the last serialization operation succeeded.
         explicit operator bool() const final;
 
+        /// Sets the failure bit of the stream.
+        void invalidate() final;
+
       private:
         std::ios& m_str;
     };
-- 
2.43.0


From d10ddd1b39580dad3cfcb5605ec33b6bb2a51754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 21/44] fix: refuse text that is not hexadecimal in
 buffer::from_hex

---
 src/util/common/buffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index b85491d..e7861a5 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -88,6 +88,11 @@ namespace cbdc {
             return std::nullopt;
         }
 
+        if(hex.find_first_not_of("0123456789abcdefABCDEF")
+           != std::string::npos) {
+            return std::nullopt;
+        }
+
         auto ret = cbdc::buffer();
 
         for(size_t i = 0; i < hex.size(); i += 2) {
-- 
2.43.0


From 72cd4ba46866d11ba089d54540bdc05b1c66baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 22/44] fix: do not write past the hash when converting
 overlong text

---
 src/util/common/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/common/hash.cpp b/src/util/common/hash.cpp
index f75dead..a481b5b 100644
--- a/src/util/common/hash.cpp
+++ b/src/util/common/hash.cpp
@@ -24,9 +24,9 @@ namespace cbdc {
     }
 
     auto hash_from_hex(const std::string& val) -> hash_t {
-        hash_t ret;
+        hash_t ret{};
 
-        for(size_t i = 0; i < val.size(); i += 2) {
+        for(size_t i = 0; i < val.size() && i / 2 < ret.size(); i += 2) {
             unsigned int v{};
             std::stringstream s;
             s << std::hex << val.substr(i, 2);
-- 
2.43.0


From 0f248fc6bed00ce10218649816644c09a602301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 23/44] fix: let the cache set hold as many values as its
 maximum size

---
 src/util/common/cache_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/common/cache_set.hpp b/src/util/common/cache_set.hpp
index 51ef4b2..338486b 100644
--- a/src/util/common/cache_set.hpp
+++ b/src/util/common/cache_set.hpp
@@ -40,7 +40,7 @@ namespace cbdc {
             auto added = m_vals.emplace(std::forward<T>(val));
             if(added.second) {
                 m_eviction_queue.push(std::ref(*added.first));
-                if(m_eviction_queue.size() >= m_max_size) {
+                if(m_eviction_queue.size() > m_max_size) {
                     auto& v = m_eviction_queue.front();
                     m_vals.erase(v);
                     m_eviction_queue.pop();
-- 
2.43.0


From cc112c19df1d4377fbe6a30032962088e4ecd9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 24/44] fix: send a transaction to the shards that hold its
 inputs

The sentinel looked up the input with the index of the shard, which sent
transactions to the wrong shards and read past the inputs.
---
 src/uhs/atomizer/sentinel/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index ac2af00..d05164e 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -192,7 +192,7 @@ namespace cbdc::sentinel {
                 if(inputs_sent.find(j) != inputs_sent.end()) {
                     continue;
                 }
-                if(!config::hash_in_shard_range(range, ctx.m_inputs[i])) {
+                if(!config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                     continue;
                 }
                 inputs_sent.insert(j);
-- 
2.43.0


From 1282be834446681d8b154a2b7bf0f37bf724c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 25/44] fix: refuse shard ranges that are inverted or do not
 fit a hash prefix

---
 src/util/common/config.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 02811f4..a9f76c5 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -331,6 +331,13 @@ namespace cbdc::config {
                 return "No range end specified for shard " + std::to_string(i)
                      + " (" + end_key + ")";
             }
+            if(*range_start > *range_end
+               || *range_end
+                      > std::numeric_limits<
+                          decltype(shard_range_t::second)>::max()) {
+                return "Invalid range specified for shard " + std::to_string(i)
+                     + " (" + start_key + ", " + end_key + ")";
+            }
             const auto shard_range
                 = std::make_pair(static_cast<uint8_t>(*range_start),
                                  static_cast<uint8_t>(*range_end));
-- 
2.43.0


From a3b1e4fc74bb76391267657625258b965a018569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 26/44] fix: refuse configuration values with signs, trailing
 text or unbalanced quotes

---
 src/util/common/config.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index a9f76c5..0a44af6 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -10,6 +10,14 @@
 #include <sstream>
 
 namespace cbdc::config {
+    static auto parse_number(const std::string& in_str) -> size_t {
+        // std::stoull alone would accept a sign and ignore any text that
+        // follows the digits.
+        assert(!in_str.empty()
+               && in_str.find_first_not_of("0123456789") == std::string::npos);
+        return static_cast<size_t>(std::stoull(in_str));
+    }
+
     auto parse_ip_port(const std::string& in_str) -> network::endpoint_t {
         // TODO: error handling for string parsing
         std::istringstream ss(in_str);
@@ -23,7 +31,9 @@ namespace cbdc::config {
             = std::getline(ss, port_str, ':');
         assert(port_res);
 
-        auto port = std::stoul(port_str);
+        assert(ss.eof());
+
+        auto port = parse_number(port_str);
         assert(port <= std::numeric_limits<unsigned short>::max());
 
         return {host, static_cast<unsigned short>(port)};
@@ -851,16 +861,23 @@ namespace cbdc::config {
     }
 
     auto parser::parse_value(const std::string& value) -> value_t {
-        if(value[0] != '\"' && value[value.size() - 1] != '\"') {
-            if(value.find('.') == std::string::npos) {
-                const auto as_int = static_cast<size_t>(std::stoull(value));
-                return as_int;
+        static constexpr auto blanks = " \t\r";
+        const auto first = value.find_first_not_of(blanks);
+        assert(first != std::string::npos);
+        const auto trimmed
+            = value.substr(first, value.find_last_not_of(blanks) - first + 1);
+
+        if(trimmed.front() != '\"') {
+            if(trimmed.find('.') == std::string::npos) {
+                return parse_number(trimmed);
             }
-            const auto as_dbl = std::stod(value);
+            size_t parsed_len{};
+            const auto as_dbl = std::stod(trimmed, &parsed_len);
+            assert(parsed_len == trimmed.size());
             return as_dbl;
         }
 
-        const auto unquoted = value.substr(1, value.size() - 2);
-        return unquoted;
+        assert(trimmed.size() > 1 && trimmed.back() == '\"');
+        return trimmed.substr(1, trimmed.size() - 2);
     }
 }
-- 
2.43.0


From 62e9b4dc335356013a97f56b90d078251ef13b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 27/44] fix: treat an empty environment variable as absent

---
 src/util/common/config.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 0a44af6..15d0c9d 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -847,7 +847,8 @@ namespace cbdc::config {
                        [](unsigned char c) {
                            return std::toupper(c);
                        });
-        if(const auto* env_v = std::getenv(upper_key.c_str())) {
+        const auto* env_v = std::getenv(upper_key.c_str());
+        if(env_v != nullptr && *env_v != '\0') {
             auto value = std::string(env_v);
             return parse_value(value);
         }
-- 
2.43.0


From 718c015832adfcf02ea64fd43a400a56dbff3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 28/44] fix: refuse keys that are not 64 hexadecimal digits in
 the configuration

---
 src/util/common/config.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 15d0c9d..19c5d17 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -5,6 +5,8 @@
 
 #include "config.hpp"
 
+#include "buffer.hpp"
+
 #include <algorithm>
 #include <cassert>
 #include <sstream>
@@ -18,6 +20,14 @@ namespace cbdc::config {
         return static_cast<size_t>(std::stoull(in_str));
     }
 
+    static auto parse_key(const std::string& in_str) -> std::optional<hash_t> {
+        const auto key = buffer::from_hex(in_str);
+        if(!key.has_value() || key->size() != hash_t{}.size()) {
+            return std::nullopt;
+        }
+        return hash_from_hex(in_str);
+    }
+
     auto parse_ip_port(const std::string& in_str) -> network::endpoint_t {
         // TODO: error handling for string parsing
         std::istringstream ss(in_str);
@@ -365,10 +375,10 @@ namespace cbdc::config {
             if(!priv_str) {
                 return "Seed range defined but missing a private key";
             }
-            if(priv_str.value().size() != sizeof(privkey_t) * 2) {
-                return "Invalid seed private key length";
+            opts.m_seed_privkey = parse_key(priv_str.value());
+            if(!opts.m_seed_privkey) {
+                return "Invalid seed private key";
             }
-            opts.m_seed_privkey = hash_from_hex(priv_str.value());
             opts.m_seed_value
                 = cfg.get_ulong(seed_value).value_or(opts.m_seed_value);
         }
@@ -451,8 +461,13 @@ namespace cbdc::config {
             const auto sentinel_private_key
                 = cfg.get_string(sentinel_private_key_key);
             if(sentinel_private_key.has_value()) {
-                auto key = hash_from_hex(sentinel_private_key.value());
-                opts.m_sentinel_private_keys[i] = key;
+                auto key = parse_key(sentinel_private_key.value());
+                if(!key) {
+                    return "Invalid private key for sentinel "
+                         + std::to_string(i) + " (" + sentinel_private_key_key
+                         + ")";
+                }
+                opts.m_sentinel_private_keys[i] = *key;
             }
 
             const auto sentinel_public_key_key
@@ -467,8 +482,12 @@ namespace cbdc::config {
                      + std::to_string(i) + " (" + sentinel_public_key_key
                      + ")";
             }
-            auto key = hash_from_hex(sentinel_public_key.value());
-            opts.m_sentinel_public_keys.insert(key);
+            auto key = parse_key(sentinel_public_key.value());
+            if(!key) {
+                return "Invalid public key for sentinel " + std::to_string(i)
+                     + " (" + sentinel_public_key_key + ")";
+            }
+            opts.m_sentinel_public_keys.insert(*key);
         }
         return std::nullopt;
     }
-- 
2.43.0


From 267715baeb1e019eb90ac1449423065022c84cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 29/44] fix: keep the log indices of a Raft log whose entries
 were all compacted

---
 src/util/raft/log_store.cpp | 87 ++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index e276bc1..bb8913d 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -5,36 +5,45 @@
 
 #include "log_store.hpp"
 
-#include <array>
 #include <cstring>
 #include <leveldb/write_batch.h>
 #include <libnuraft/buffer_serializer.hxx>
+#include <limits>
 
 namespace cbdc::raft {
-    template<bool First>
-    auto get_first_or_last_index(leveldb::DB* db,
-                                 const leveldb::ReadOptions& opt) -> uint64_t {
+    // Log entries start at index 1. Key 0 holds the start index of a log whose
+    // entries may all have been compacted.
+    static constexpr uint64_t start_idx_key{0};
+
+    auto get_index(const leveldb::Slice& slice) -> uint64_t {
+        uint64_t ret{};
+        assert(slice.size() == sizeof(ret));
+        std::memcpy(&ret, slice.data(), sizeof(ret));
+        return ret;
+    }
+
+    auto get_first_index(leveldb::DB* db, const leveldb::ReadOptions& opt)
+        -> uint64_t {
         auto it = std::unique_ptr<leveldb::Iterator>(db->NewIterator(opt));
 
-        if constexpr(First) {
-            it->SeekToFirst();
-            if(!it->Valid()) {
-                return 1;
-            }
-        } else {
-            it->SeekToLast();
-            if(!it->Valid()) {
-                return 0;
-            }
+        it->SeekToFirst();
+        uint64_t ret{1};
+        if(it->Valid() && get_index(it->key()) == start_idx_key) {
+            ret = get_index(it->value());
+            it->Next();
         }
+        return it->Valid() ? get_index(it->key()) : ret;
+    }
 
-        const auto last_log_key_slice = it->key();
-
-        uint64_t ret{};
-        assert(last_log_key_slice.size() == sizeof(ret));
-        std::memcpy(&ret, last_log_key_slice.data(), sizeof(ret));
+    auto get_next_index(leveldb::DB* db, const leveldb::ReadOptions& opt)
+        -> uint64_t {
+        auto it = std::unique_ptr<leveldb::Iterator>(db->NewIterator(opt));
 
-        return ret;
+        it->SeekToLast();
+        if(!it->Valid() || get_index(it->key()) == start_idx_key) {
+            return get_first_index(db, opt);
+        }
+        return get_index(it->key()) + 1;
     }
 
     auto log_store::load(const std::string& db_dir) -> bool {
@@ -54,10 +63,8 @@ namespace cbdc::raft {
             std::lock_guard<std::mutex> l(m_db_mut);
             m_db.reset(db_ptr);
 
-            m_next_idx
-                = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
-            m_start_idx
-                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
+            m_next_idx = get_next_index(m_db.get(), m_read_opt);
+            m_start_idx = get_first_index(m_db.get(), m_read_opt);
         }
 
         return true;
@@ -91,7 +98,7 @@ namespace cbdc::raft {
 
             it->SeekToLast();
 
-            if(!it->Valid()) {
+            if(!it->Valid() || get_index(it->key()) == start_idx_key) {
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -189,6 +196,10 @@ namespace cbdc::raft {
 
     auto log_store::entry_at(uint64_t index)
         -> nuraft::ptr<nuraft::log_entry> {
+        if(index == start_idx_key) {
+            return nuraft::cs_new<nuraft::log_entry>(0, nullptr);
+        }
+
         const auto key = get_key_slice(index);
         std::string val;
 
@@ -280,10 +291,8 @@ namespace cbdc::raft {
             const auto status = m_db->Write(m_write_opt, &batch);
             assert(status.ok());
 
-            m_start_idx
-                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
-            m_next_idx
-                = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
+            m_start_idx = get_first_index(m_db.get(), m_read_opt);
+            m_next_idx = get_next_index(m_db.get(), m_read_opt);
         }
     }
 
@@ -293,6 +302,10 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
 
+            if(last_log_index < m_start_idx) {
+                return true;
+            }
+
             const auto n_elems = last_log_index - m_start_idx + 1;
             std::vector<data_slice::second_type> data_slices(n_elems);
             for(uint64_t i{m_start_idx}; i <= last_log_index; i++) {
@@ -300,6 +313,9 @@ namespace cbdc::raft {
                 batch.Delete(key.first);
                 data_slices[i - m_start_idx] = std::move(key.second);
             }
+            const auto start_key = get_key_slice(start_idx_key);
+            const auto start_val = get_key_slice(last_log_index + 1);
+            batch.Put(start_key.first, start_val.first);
 
             const auto status = m_db->Write(m_write_opt, &batch);
             assert(status.ok());
@@ -321,13 +337,12 @@ namespace cbdc::raft {
 
         leveldb::WriteBatch batch;
 
-        // Log entry 0 is always empty so we're not overwriting anything
-        // important
-        std::array<char, sizeof(uint64_t)> dummy_key_data{};
-        leveldb::Slice dummy_key_slice(dummy_key_data.data(),
-                                       dummy_key_data.size());
-        batch.Put(dummy_key_slice, dummy_key_slice);
-        batch.Delete(dummy_key_slice);
+        // The last possible log entry is never reached so we're not
+        // overwriting anything important
+        const auto dummy_key
+            = get_key_slice(std::numeric_limits<uint64_t>::max());
+        batch.Put(dummy_key.first, dummy_key.first);
+        batch.Delete(dummy_key.first);
 
         {
             std::lock_guard<std::mutex> l(m_db_mut);
-- 
2.43.0


From ac39674191f4eaaa5e77bed070e6019fac86dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 30/44] fix: do not replace the Raft state with a file that
 could not be written

---
 src/util/raft/state_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/raft/state_manager.cpp b/src/util/raft/state_manager.cpp
index 45b2ff8..c0fa67d 100644
--- a/src/util/raft/state_manager.cpp
+++ b/src/util/raft/state_manager.cpp
@@ -39,6 +39,7 @@ namespace cbdc::raft {
                    static_cast<std::streamsize>(char_buf.size()));
         file.flush();
         file.close();
+        assert(file.good());
 
         std::filesystem::rename(tmp_file, filename);
     }
-- 
2.43.0


From c10a3b2ee51c10d68b7237285cd9d371793740a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 31/44] fix: report a failed request to the caller of a PARSEC
 client instead of stopping

---
 src/parsec/agent/client.cpp                 |  7 ++-
 src/parsec/runtime_locking_shard/client.cpp | 55 +++++++++++----------
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/parsec/agent/client.cpp b/src/parsec/agent/client.cpp
index 18efaa7..1711df2 100644
--- a/src/parsec/agent/client.cpp
+++ b/src/parsec/agent/client.cpp
@@ -26,7 +26,12 @@ namespace cbdc::parsec::agent::rpc {
             = request{std::move(function), std::move(param), is_readonly_run};
         return m_client->call(std::move(req),
                               [result_callback](std::optional<response> resp) {
-                                  assert(resp.has_value());
+                                  if(!resp.has_value()) {
+                                      result_callback(
+                                          interface::error_code::
+                                              function_execution);
+                                      return;
+                                  }
                                   result_callback(resp.value());
                               });
     }
diff --git a/src/parsec/runtime_locking_shard/client.cpp b/src/parsec/runtime_locking_shard/client.cpp
index 78be3f5..41500bb 100644
--- a/src/parsec/runtime_locking_shard/client.cpp
+++ b/src/parsec/runtime_locking_shard/client.cpp
@@ -9,6 +9,18 @@
 #include "util/serialization/format.hpp"
 
 namespace cbdc::parsec::runtime_locking_shard::rpc {
+    namespace {
+        /// Returns the expected kind of response, or the given error if the
+        /// server reported a failure or responded to another kind of request.
+        template<typename T>
+        auto get_or(std::optional<response> resp, T error) -> T {
+            if(!resp.has_value() || !std::holds_alternative<T>(resp.value())) {
+                return error;
+            }
+            return std::get<T>(std::move(resp.value()));
+        }
+    }
+
     client::client(std::vector<network::endpoint_t> endpoints)
         : m_client(std::make_unique<decltype(m_client)::element_type>(
             std::move(endpoints))) {}
@@ -31,10 +43,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             std::move(req),
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(std::holds_alternative<try_lock_return_type>(
-                    resp.value()));
-                result_callback(std::get<try_lock_return_type>(resp.value()));
+                result_callback(get_or<try_lock_return_type>(
+                    std::move(resp),
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -46,10 +57,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             std::move(req),
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(
-                    std::holds_alternative<prepare_return_type>(resp.value()));
-                result_callback(std::get<prepare_return_type>(resp.value()));
+                result_callback(get_or<prepare_return_type>(
+                    std::move(resp),
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -59,10 +69,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(
-                    std::holds_alternative<commit_return_type>(resp.value()));
-                result_callback(std::get<commit_return_type>(resp.value()));
+                result_callback(get_or<commit_return_type>(
+                    std::move(resp),
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -72,10 +81,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(std::holds_alternative<rollback_return_type>(
-                    resp.value()));
-                result_callback(std::get<rollback_return_type>(resp.value()));
+                result_callback(get_or<rollback_return_type>(
+                    std::move(resp),
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -85,10 +93,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(
-                    std::holds_alternative<finish_return_type>(resp.value()));
-                result_callback(std::get<finish_return_type>(resp.value()));
+                result_callback(get_or<finish_return_type>(
+                    std::move(resp),
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -99,11 +106,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(std::holds_alternative<get_tickets_return_type>(
-                    resp.value()));
-                result_callback(
-                    std::get<get_tickets_return_type>(resp.value()));
+                result_callback(get_or<get_tickets_return_type>(
+                    std::move(resp),
+                    error_code::internal_error));
             });
     }
 }
-- 
2.43.0


From 3f86710ca51471ccd5013198035ecef8eae055e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 32/44] fix: RPC clients must treat an answer of another kind
 as a failure

---
 src/uhs/sentinel/client.cpp               | 12 ++++++++----
 src/uhs/twophase/locking_shard/client.cpp |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/uhs/sentinel/client.cpp b/src/uhs/sentinel/client.cpp
index c45eef1..382dde2 100644
--- a/src/uhs/sentinel/client.cpp
+++ b/src/uhs/sentinel/client.cpp
@@ -26,7 +26,8 @@ namespace cbdc::sentinel::rpc {
     auto client::execute_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<execute_response> {
         auto res = m_client.call(execute_request{std::move(tx)});
-        if(!res.has_value()) {
+        if(!res.has_value()
+           || !std::holds_alternative<execute_response>(res.value())) {
             return std::nullopt;
         }
         return std::get<execute_response>(res.value());
@@ -38,7 +39,8 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             execute_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
+                if(!res.has_value()
+                   || !std::holds_alternative<execute_response>(res.value())) {
                     cb(std::nullopt);
                     return;
                 }
@@ -49,7 +51,8 @@ namespace cbdc::sentinel::rpc {
     auto client::validate_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<validate_response> {
         auto res = m_client.call(validate_request{std::move(tx)});
-        if(!res.has_value()) {
+        if(!res.has_value()
+           || !std::holds_alternative<validate_response>(res.value())) {
             return std::nullopt;
         }
         return std::get<validate_response>(res.value());
@@ -61,7 +64,8 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             validate_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
+                if(!res.has_value()
+                   || !std::holds_alternative<validate_response>(res.value())) {
                     cb(std::nullopt);
                     return;
                 }
diff --git a/src/uhs/twophase/locking_shard/client.cpp b/src/uhs/twophase/locking_shard/client.cpp
index bfcb9a5..ab84062 100644
--- a/src/uhs/twophase/locking_shard/client.cpp
+++ b/src/uhs/twophase/locking_shard/client.cpp
@@ -30,7 +30,8 @@ namespace cbdc::locking_shard::rpc {
         -> std::optional<std::vector<bool>> {
         auto req = request{dtx_id, std::move(txs)};
         auto resp = send_request(req);
-        if(!resp.has_value()) {
+        if(!resp.has_value()
+           || !std::holds_alternative<lock_response>(resp.value())) {
             return std::nullopt;
         }
         return std::get<lock_response>(resp.value());
-- 
2.43.0


From 8273e9e126240413c1d02c76ede64e26d279f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 33/44] fix: read the broker's highest ticket number under its
 lock

---
 src/parsec/broker/impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 65ea10c..8634d69 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -85,6 +85,7 @@ namespace cbdc::parsec::broker {
     }
 
     auto impl::highest_ticket() -> ticket_number_type {
+        std::unique_lock l(m_mut);
         return m_highest_ticket;
     }
 
-- 
2.43.0


From fe69e9314215a61a2719ac2b923b6404281425d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 34/44] fix: wake the submitters of a coordinator before
 closing its RPC server

---
 src/uhs/twophase/coordinator/controller.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 5ddfc5d..00b3f7d 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -187,8 +187,11 @@ namespace cbdc::coordinator {
             std::lock_guard<std::mutex> l(m_batch_mut);
             m_running = false;
         }
+        // Wake every waiting thread before closing the RPC server, as doing so
+        // joins its handler thread which might be waiting for space in the
+        // current batch.
+        m_batch_cv.notify_all();
         m_rpc_server.reset();
-        m_batch_cv.notify_one();
 
         // Stop each of the locking shard clients to cancel any pending RPCs
         // and unblock any of the current dtxs so they can mark themselves as
-- 
2.43.0


From 90eb4f81318c7b5e88aa87bb26b3eb50bb407420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 35/44] fix: stop a coordinator that is told to quit while it
 starts

---
 src/uhs/twophase/coordinator/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 00b3f7d..82a93ed 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -537,7 +537,7 @@ namespace cbdc::coordinator {
     }
 
     void controller::start_stop_func() {
-        while(!m_quit) {
+        while(true) {
             bool stopping{false};
             bool quitting{false};
             {
-- 
2.43.0


From 938964c36feddccdb1024bd75504ed266691bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 36/44] fix: let a locking shard client stop while other
 threads use it

---
 src/uhs/twophase/locking_shard/client.cpp | 2 +-
 src/util/rpc/tcp_client.hpp               | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/client.cpp b/src/uhs/twophase/locking_shard/client.cpp
index ab84062..e1b798a 100644
--- a/src/uhs/twophase/locking_shard/client.cpp
+++ b/src/uhs/twophase/locking_shard/client.cpp
@@ -71,6 +71,6 @@ namespace cbdc::locking_shard::rpc {
 
     void client::stop() {
         m_running = false;
-        m_client.reset();
+        m_client->close();
     }
 }
diff --git a/src/util/rpc/tcp_client.hpp b/src/util/rpc/tcp_client.hpp
index 61cc3d3..1087296 100644
--- a/src/util/rpc/tcp_client.hpp
+++ b/src/util/rpc/tcp_client.hpp
@@ -38,6 +38,13 @@ namespace cbdc::rpc {
         /// Destructor. Disconnects from the RPC servers and stops the response
         /// handler thread.
         ~tcp_client() override {
+            close();
+        }
+
+        /// Disconnects from the RPC servers, stops the response handler thread
+        /// and fails the requests still waiting for a response, as well as any
+        /// issued later. Other threads may use the client meanwhile.
+        void close() {
             m_net.close();
             if(m_handler_thread.joinable()) {
                 m_handler_thread.join();
-- 
2.43.0


From f27fde58b6cc23e325389da2f39c1249eb51c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 37/44] fix: a client keeps every input it imports from a
 transaction

---
 src/uhs/client/atomizer_client.cpp |  4 ++--
 src/uhs/client/client.cpp          | 16 ++++++++++------
 src/uhs/client/client.hpp          |  4 ++--
 src/uhs/client/twophase_client.cpp |  4 ++--
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 04274e8..e81a595 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -50,8 +50,8 @@ namespace cbdc {
                               ctx.m_uhs_outputs.end());
         }
 
-        for(const auto& [tx_id, in] : pending_inputs()) {
-            tus.insert({tx_id, {in.hash()}});
+        for(const auto& [in_hash, in] : pending_inputs()) {
+            tus[in.m_prevout.m_tx_id].push_back(in_hash);
         }
 
         cbdc::watchtower::status_update_request req{tus};
diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 4b3bc60..b3e8017 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -202,7 +202,7 @@ namespace cbdc {
 
     void client::import_send_input(const transaction::input& in) {
         if(m_wallet.is_spendable(in)) {
-            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
+            m_pending_inputs.insert({in.hash(), in});
             save();
         } else {
             m_logger->warn("Ignoring non-spendable input");
@@ -294,11 +294,15 @@ namespace cbdc {
             success = true;
         }
 
-        const auto pi_it = m_pending_inputs.find(tx_id);
-        if(pi_it != m_pending_inputs.end()) {
-            m_wallet.confirm_inputs({pi_it->second});
-            m_pending_inputs.erase(pi_it);
-            success = true;
+        for(auto pi_it = m_pending_inputs.begin();
+            pi_it != m_pending_inputs.end();) {
+            if(pi_it->second.m_prevout.m_tx_id == tx_id) {
+                m_wallet.confirm_inputs({pi_it->second});
+                pi_it = m_pending_inputs.erase(pi_it);
+                success = true;
+            } else {
+                pi_it++;
+            }
         }
 
         save();
diff --git a/src/uhs/client/client.hpp b/src/uhs/client/client.hpp
index ae3cb6d..fe995f0 100644
--- a/src/uhs/client/client.hpp
+++ b/src/uhs/client/client.hpp
@@ -266,7 +266,7 @@ namespace cbdc {
         /// Returns the current set of pending inputs imported into this client
         /// via the \ref import_send_input method which the system has yet to
         /// confirm.
-        /// \return a map of transaction ID to pending input.
+        /// \return a map of input hash to pending input.
         [[nodiscard]] auto pending_inputs() const
             -> std::unordered_map<hash_t, transaction::input, hashing::null>;
 
@@ -288,7 +288,7 @@ namespace cbdc {
             m_pending_spend;
 
         /// List of pending inputs added by client::import_send_input, indexed
-        /// by the Tx ID of the transaction that created them.
+        /// by input hash, as a transaction may create several of them.
         std::unordered_map<hash_t, transaction::input, hashing::null>
             m_pending_inputs;
 
diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 5c1cb4b..dbe7cb8 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -40,8 +40,8 @@ namespace cbdc {
         for(const auto& [tx_id, tx] : pending_txs()) {
             txids.insert(tx_id);
         }
-        for(const auto& [tx_id, inp] : pending_inputs()) {
-            txids.insert(tx_id);
+        for(const auto& [inp_hash, inp] : pending_inputs()) {
+            txids.insert(inp.m_prevout.m_tx_id);
         }
 
         for(const auto& tx_id : txids) {
-- 
2.43.0


From 4fd03b648a3eb4a4ba387b8b3977af8512c95e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 38/44] fix: a late or refused mint answer no longer upsets a
 two-phase client

---
 src/uhs/client/twophase_client.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index dbe7cb8..431f078 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -81,23 +81,19 @@ namespace cbdc {
                 = ctx.sign(m_secp.get(), m_opts.m_sentinel_private_keys[i]);
             ctx.m_attestations.insert(att);
         }
-        auto done = std::promise<void>();
-        auto done_fut = done.get_future();
+        // The coordinator may respond after we have stopped waiting, so the
+        // callback must not refer to anything on our stack.
+        auto done = std::make_shared<std::promise<bool>>();
+        auto done_fut = done->get_future();
         auto res = m_coordinator_client.execute_transaction(
             ctx,
-            [&, tx_id = ctx.m_id](std::optional<bool> success) {
+            [done, logger = m_logger](std::optional<bool> success) {
                 if(!success.has_value()) {
-                    m_logger->error(
-                        "Coordinator error processing transaction");
-                    return;
+                    logger->error("Coordinator error processing transaction");
+                } else if(!success.value()) {
+                    logger->error("Coordinator rejected transaction");
                 }
-                if(!success.value()) {
-                    m_logger->error("Coordinator rejected transaction");
-                    return;
-                }
-                confirm_transaction(tx_id);
-                m_logger->info("Confirmed mint TX");
-                done.set_value();
+                done->set_value(success.value_or(false));
             });
         if(!res) {
             m_logger->error("Failed to send transaction to coordinator");
@@ -109,6 +105,11 @@ namespace cbdc {
             m_logger->error("Timed out waiting for mint response");
             return false;
         }
-        return res;
+        if(!done_fut.get()) {
+            return false;
+        }
+        confirm_transaction(ctx.m_id);
+        m_logger->info("Confirmed mint TX");
+        return true;
     }
 }
-- 
2.43.0


From 2c9e6efba4eb1697a55670347b8fa16dd59b0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 39/44] fix: an atomizer client confirms every settled
 transaction when it syncs

---
 src/uhs/client/atomizer_client.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index e81a595..e78d848 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -60,8 +60,14 @@ namespace cbdc {
 
         auto res = m_wc.request_status_update(req);
 
+        if(!res) {
+            m_logger->error("No response from the watchtower");
+            return false;
+        }
+
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
+            bool settled{false};
             for(const auto& s : uhs_states) {
                 if((s.status() != cbdc::watchtower::search_status::unspent)
                    && (s.status() != cbdc::watchtower::search_status::spent)) {
@@ -71,15 +77,14 @@ namespace cbdc {
                                    to_string(s.uhs_id()),
                                    ", status:",
                                    static_cast<uint32_t>(s.status()));
-                    success = false;
                     continue;
                 }
+                settled = true;
                 break;
             }
-            if(!success) {
-                continue;
+            if(!settled || !confirm_transaction(tx_id)) {
+                success = false;
             }
-            success = confirm_transaction(tx_id);
         }
 
         return success;
@@ -95,7 +100,12 @@ namespace cbdc {
             ctx.m_attestations.insert(att);
         }
         msg.m_tx = std::move(ctx);
-        msg.m_block_height = m_wc.request_best_block_height()->height();
+        auto best_height = m_wc.request_best_block_height();
+        if(!best_height) {
+            m_logger->error("No response from the watchtower");
+            return false;
+        }
+        msg.m_block_height = best_height->height();
         return m_atomizer_network.send_to_one(atomizer::request{msg});
     }
 }
-- 
2.43.0


From 0668a113419a0168b408f1c66fa5a202357a620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 40/44] fix: refuse an address without data

---
 src/uhs/client/client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index b3e8017..cea64a3 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -43,10 +43,10 @@ namespace cbdc {
                 enc_data.end());
 
             auto pubkey = cbdc::hash_t();
-            if(data[0]
-                   != static_cast<uint8_t>(
-                       cbdc::client::address_type::public_key)
-               || data.size() != pubkey.size() + 1) {
+            if(data.size() != pubkey.size() + 1
+               || data[0]
+                      != static_cast<uint8_t>(
+                          cbdc::client::address_type::public_key)) {
                 std::cout << "Address is not a supported type" << std::endl;
                 return std::nullopt;
             }
-- 
2.43.0


From d9dec3accefe5c86ae9cbc747dbb689dda40650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 41/44] fix: report a failure to draw a ticket instead of
 crashing

---
 src/parsec/agent/impl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 7fd050c..4d9e562 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -544,9 +544,11 @@ namespace cbdc::parsec::agent {
                 break;
         }
         get_result_callback()(m_result.value());
-        m_log->trace(this,
-                     "Agent handled result for",
-                     m_ticket_number.value());
+        if(m_ticket_number.has_value()) {
+            m_log->trace(this,
+                         "Agent handled result for",
+                         m_ticket_number.value());
+        }
     }
 
     void impl::do_finish() {
-- 
2.43.0


From 1a7e810b241adb9063d7acf2216551e6837a4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 42/44] fix: an agent reports a commit as such although
 finishing it took several tries

---
 src/parsec/agent/impl.cpp | 24 +++++++++++++-----------
 src/parsec/agent/impl.hpp |  3 ++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 4d9e562..933d7e4 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -477,9 +477,9 @@ namespace cbdc::parsec::agent {
         }
     }
 
-    void impl::do_result() {
+    void impl::do_result(std::optional<error_code> transient_error) {
         std::unique_lock l(m_mut);
-        assert(m_result.has_value());
+        assert(m_result.has_value() || transient_error.has_value());
         switch(m_state) {
             // No results should be reported in these states, fatal bugs
             case state::init:
@@ -543,7 +543,13 @@ namespace cbdc::parsec::agent {
                 m_log->debug(this, "Agent finished", m_ticket_number.value());
                 break;
         }
-        get_result_callback()(m_result.value());
+        if(transient_error.has_value()) {
+            // The transaction's own result is kept for when the failed step
+            // is completed.
+            get_result_callback()(transient_error.value());
+        } else {
+            get_result_callback()(m_result.value());
+        }
         if(m_ticket_number.has_value()) {
             m_log->trace(this,
                          "Agent handled result for",
@@ -569,8 +575,7 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::finish_failed;
             m_log->error("Error contacting broker for finish");
-            m_result = error_code::broker_unreachable;
-            do_result();
+            do_result(error_code::broker_unreachable);
         }
     }
 
@@ -585,8 +590,7 @@ namespace cbdc::parsec::agent {
             m_state = state::finish_failed;
             m_log->error("Broker error for finish for",
                          m_ticket_number.value());
-            m_result = error_code::finish_error;
-            do_result();
+            do_result(error_code::finish_error);
         } else {
             m_state = state::finish_complete;
             m_log->trace(this,
@@ -619,8 +623,7 @@ namespace cbdc::parsec::agent {
         if(!maybe_success) {
             m_state = state::rollback_failed;
             m_log->error("Error contacting broker for rollback");
-            m_result = error_code::broker_unreachable;
-            do_result();
+            do_result(error_code::broker_unreachable);
         }
     }
 
@@ -633,9 +636,8 @@ namespace cbdc::parsec::agent {
         }
         if(rollback_res.has_value()) {
             m_state = state::rollback_failed;
-            m_result = error_code::rollback_error;
             m_log->error("Broker error rolling back", m_ticket_number.value());
-            do_result();
+            do_result(error_code::rollback_error);
             return;
         }
 
diff --git a/src/parsec/agent/impl.hpp b/src/parsec/agent/impl.hpp
index 8ee71ec..1437db9 100644
--- a/src/parsec/agent/impl.hpp
+++ b/src/parsec/agent/impl.hpp
@@ -135,7 +135,8 @@ namespace cbdc::parsec::agent {
 
         void do_start();
 
-        void do_result();
+        void do_result(std::optional<error_code> transient_error
+                       = std::nullopt);
 
         void do_finish();
 
-- 
2.43.0


From bda6c93474e56d00e61bc99e3bb48e225fffba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:29 +0000
Subject: [PATCH 43/44] fix: RLP reading checks that the bytes are there and
 never writes past a value

A truncated RLP value was accepted, a truncated element of a list made
the reader loop forever, a length from the input was allocated before it
was checked, and a number longer than its type was copied past its end.
---
 src/parsec/agent/runners/evm/rlp.hpp        | 16 ++++---
 src/parsec/agent/runners/evm/rlp_reader.cpp | 48 +++++++++++++++++----
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/parsec/agent/runners/evm/rlp.hpp b/src/parsec/agent/runners/evm/rlp.hpp
index ca433db..ebbc9f4 100644
--- a/src/parsec/agent/runners/evm/rlp.hpp
+++ b/src/parsec/agent/runners/evm/rlp.hpp
@@ -13,6 +13,7 @@
 #include "util/serialization/serializer.hpp"
 #include "util/serialization/util.hpp"
 
+#include <algorithm>
 #include <evmc/evmc.hpp>
 #include <optional>
 #include <vector>
@@ -86,7 +87,8 @@ namespace cbdc {
         /// \return a pointer to the data
         [[nodiscard]] auto data() const -> const void*;
 
-        /// Return RLP value as address or byte array.
+        /// Return RLP value as address or byte array. A value longer than the
+        /// type is reduced to its least significant bytes.
         /// \tparam address or byte array type.
         /// \return byte array or address.
         template<typename T>
@@ -95,12 +97,12 @@ namespace cbdc {
                 || std::is_same<T, evmc::address>::value,
             T> {
             auto res = T();
-            auto buf = cbdc::buffer();
-            buf.extend(sizeof(res.bytes));
-            std::memcpy(buf.data_at(sizeof(res.bytes) - m_buffer.size()),
-                        m_buffer.data(),
-                        m_buffer.size());
-            std::memcpy(&res.bytes, buf.data(), buf.size());
+            auto len = std::min(sizeof(res.bytes), m_buffer.size());
+            if(len > 0) {
+                std::memcpy(&res.bytes[sizeof(res.bytes) - len],
+                            m_buffer.data_at(m_buffer.size() - len),
+                            len);
+            }
             return res;
         }
 
diff --git a/src/parsec/agent/runners/evm/rlp_reader.cpp b/src/parsec/agent/runners/evm/rlp_reader.cpp
index d6fdf37..563e447 100644
--- a/src/parsec/agent/runners/evm/rlp_reader.cpp
+++ b/src/parsec/agent/runners/evm/rlp_reader.cpp
@@ -1,5 +1,7 @@
 #include "rlp.hpp"
 
+#include <algorithm>
+
 namespace cbdc {
 
     auto operator>>(serializer& ser, cbdc::rlp_value& v) -> serializer& {
@@ -12,11 +14,13 @@ namespace cbdc {
         static constexpr unsigned char array_size_offset = 0xc0;
         static constexpr unsigned char max_onebyte_length = 55;
         unsigned char b{};
-        ser.read(&b, 1);
-
         m_buffer.clear();
         m_values.clear();
 
+        if(!ser.read(&b, 1)) {
+            return;
+        }
+
         if(b < byte_size_offset) {
             m_type = rlp_value_type::buffer;
             m_buffer.clear();
@@ -34,7 +38,9 @@ namespace cbdc {
             // Then we read the length bytes
             auto len_buf = cbdc::buffer();
             len_buf.extend(len_len);
-            ser.read(len_buf.data(), len_len);
+            if(!ser.read(len_buf.data(), len_len)) {
+                return;
+            }
             // Then we turn the read length into a size_t
             auto read_len = deserialize_size(len_buf);
             read_buffer_from(ser, read_len);
@@ -49,29 +55,53 @@ namespace cbdc {
             // Then we read the length bytes
             auto len_buf = cbdc::buffer();
             len_buf.extend(len_len);
-            ser.read(len_buf.data(), len_len);
+            if(!ser.read(len_buf.data(), len_len)) {
+                return;
+            }
             // Then we turn the read length into a size_t
             auto array_len = deserialize_size(len_buf);
             read_array_from(ser, array_len);
         }
     }
 
+    /// Reads the given number of bytes. The number comes from the input, so
+    /// memory is allocated only as the bytes turn out to be there.
+    static auto read_bytes(serializer& ser, cbdc::buffer& buf, size_t size)
+        -> bool {
+        static constexpr size_t max_chunk = 65536;
+        while(size > 0) {
+            auto chunk = std::min(size, max_chunk);
+            auto offset = buf.size();
+            buf.extend(chunk);
+            if(!ser.read(buf.data_at(offset), chunk)) {
+                buf.clear();
+                return false;
+            }
+            size -= chunk;
+        }
+        return true;
+    }
+
     void rlp_value::read_buffer_from(serializer& ser, size_t size) {
         m_type = rlp_value_type::buffer;
-        m_buffer.extend(size);
-        ser.read(m_buffer.data(), size);
+        read_bytes(ser, m_buffer, size);
     }
 
     void rlp_value::read_array_from(serializer& ser, size_t size) {
         m_type = rlp_value_type::array;
         if(size > 0) {
             auto array_buf = cbdc::buffer();
-            array_buf.extend(size);
-            ser.read(array_buf.data(), size);
+            if(!read_bytes(ser, array_buf, size)) {
+                return;
+            }
             auto array_deser = cbdc::buffer_serializer(array_buf);
             while(!array_deser.end_of_buffer()) {
                 auto v = rlp_value(rlp_value_type::buffer);
-                array_deser >> v;
+                if(!(array_deser >> v)) {
+                    m_values.clear();
+                    ser.invalidate();
+                    return;
+                }
                 m_values.push_back(v);
             }
         }
-- 
2.43.0


From 6c0d32ebefb01ce07aef6223215e76d490de71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 44/44] fix: an Ethereum transaction of the wrong shape is
 refused, not read past its end

An empty buffer, a byte string in place of the list of fields, a list in
place of the input or of a number, and an access list entry without its
keys made the agent read invalid memory or end with an exception.
---
 src/parsec/agent/runners/evm/rlp_reader.cpp   | 23 ++++++++---
 .../agent/runners/evm/serialization.cpp       | 41 ++++++++++++++++++-
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/parsec/agent/runners/evm/rlp_reader.cpp b/src/parsec/agent/runners/evm/rlp_reader.cpp
index 563e447..a0faf4a 100644
--- a/src/parsec/agent/runners/evm/rlp_reader.cpp
+++ b/src/parsec/agent/runners/evm/rlp_reader.cpp
@@ -130,15 +130,28 @@ namespace cbdc {
             auto rlp_tuple = rlp.value_at(i);
             auto access_tuple
                 = cbdc::parsec::agent::runner::evm_access_tuple();
-            if(rlp_tuple.type() == rlp_value_type::array
-               && rlp_tuple.size() == 2) {
-                access_tuple.m_address
-                    = rlp_tuple.value_at(0).value<evmc::address>();
+            if(rlp_tuple.type() != rlp_value_type::array
+               || rlp_tuple.size() != 2) {
+                return std::nullopt;
             }
+            auto rlp_address = rlp_tuple.value_at(0);
+            if(rlp_address.type() != rlp_value_type::buffer
+               || rlp_address.size() != sizeof(evmc::address)) {
+                return std::nullopt;
+            }
+            access_tuple.m_address = rlp_address.value<evmc::address>();
             auto rlp_storage_keys = rlp_tuple.value_at(1);
+            if(rlp_storage_keys.type() != rlp_value_type::array) {
+                return std::nullopt;
+            }
             for(size_t j = 0; j < rlp_storage_keys.size(); j++) {
+                auto rlp_key = rlp_storage_keys.value_at(j);
+                if(rlp_key.type() != rlp_value_type::buffer
+                   || rlp_key.size() != sizeof(evmc::bytes32)) {
+                    return std::nullopt;
+                }
                 access_tuple.m_storage_keys.push_back(
-                    rlp_storage_keys.value_at(j).value<evmc::bytes32>());
+                    rlp_key.value<evmc::bytes32>());
             }
             access_list.push_back(access_tuple);
         }
diff --git a/src/parsec/agent/runners/evm/serialization.cpp b/src/parsec/agent/runners/evm/serialization.cpp
index 5529dc3..08f1a97 100644
--- a/src/parsec/agent/runners/evm/serialization.cpp
+++ b/src/parsec/agent/runners/evm/serialization.cpp
@@ -29,6 +29,9 @@ namespace cbdc::parsec::agent::runner {
         static constexpr size_t elements_in_access_list_transaction = 11;
         static constexpr size_t elements_in_legacy_transaction = 9;
 
+        if(rlp_tx.type() != rlp_value_type::array) {
+            return false;
+        }
         if(type == evm_tx_type::dynamic_fee
            && rlp_tx.size() != elements_in_dynamic_fee_transaction) {
             return false;
@@ -41,6 +44,30 @@ namespace cbdc::parsec::agent::runner {
            && rlp_tx.size() != elements_in_legacy_transaction) {
             return false;
         }
+
+        // The recipient is empty or an address, the input is any byte string
+        // and the access list is a list. The other elements are numbers.
+        static constexpr size_t to_in_legacy_transaction = 3;
+        auto to_idx = to_in_legacy_transaction + static_cast<size_t>(type);
+        auto data_idx = to_idx + 2;
+        for(size_t i = 0; i < rlp_tx.size(); i++) {
+            auto element = rlp_tx.value_at(i);
+            if(type != evm_tx_type::legacy && i == data_idx + 1) {
+                continue;
+            }
+            if(element.type() != rlp_value_type::buffer) {
+                return false;
+            }
+            if(i == to_idx) {
+                if(element.size() != 0
+                   && element.size() != sizeof(evmc::address)) {
+                    return false;
+                }
+            } else if(i != data_idx
+                      && element.size() > sizeof(evmc::uint256be)) {
+                return false;
+            }
+        }
         return true;
     }
 
@@ -49,6 +76,9 @@ namespace cbdc::parsec::agent::runner {
         const std::shared_ptr<logging::log>& logger,
         const std::shared_ptr<cbdc::parsec::agent::runner::evm_tx>& tx)
         -> std::optional<rlp_value> {
+        if(buf.size() == 0) {
+            return std::nullopt;
+        }
         uint8_t type_byte{};
         std::memcpy(&type_byte, buf.data_at(0), 1);
         size_t rlp_offset = 0;
@@ -125,9 +155,13 @@ namespace cbdc::parsec::agent::runner {
            || tx->m_type == evm_tx_type::access_list) {
             auto rlp_access_list = rlp_tx.value_at(element++);
             auto access_list = rlp_decode_access_list(rlp_access_list);
-            if(access_list.has_value()) {
-                tx->m_access_list = access_list.value();
+            if(!access_list.has_value()) {
+                if(logger) {
+                    logger->error("tx has an invalid access list");
+                }
+                return std::nullopt;
             }
+            tx->m_access_list = access_list.value();
         }
 
         tx->m_sig.m_v = rlp_tx.value_at(element++).value<evmc::uint256be>();
@@ -281,6 +315,9 @@ namespace cbdc::parsec::agent::runner {
             return std::nullopt;
         }
         auto params_str = param.asString();
+        if(params_str.size() < 2) {
+            return std::nullopt;
+        }
         auto maybe_raw_tx = cbdc::buffer::from_hex(params_str.substr(2));
         if(!maybe_raw_tx.has_value()) {
             return std::nullopt;
-- 
2.43.0

