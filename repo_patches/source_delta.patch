From a7eb027c72c802e7d68e7bab500dd60c4f842f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 01/14] fix: refuse funds attached to V2 accept-bid and admin
 messages

---
 contracts/stargaze-marketplace-v2/src/execute.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 25eed89..617ce22 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -154,6 +154,8 @@ pub fn execute_update_config(
     info: MessageInfo,
     config: Config<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
     config.save(deps.storage)?;
 
@@ -175,6 +177,8 @@ pub fn execute_update_collection_denom(
     collection: Addr,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
 
     COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
@@ -197,6 +201,8 @@ pub fn execute_set_listing_fee(
     info: MessageInfo,
     fee: Coin,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
@@ -219,6 +225,8 @@ pub fn execute_remove_listing_fee(
     info: MessageInfo,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.remove(deps.storage, denom.clone());
@@ -692,6 +700,8 @@ pub fn execute_accept_bid(
     id: OrderId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let bid: Bid = bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("bid not found [{}]", id)))?;
@@ -963,6 +973,8 @@ pub fn execute_accept_collection_bid(
     token_id: TokenId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let collection_bid = collection_bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("collection bid not found [{}]", id)))?;
-- 
2.43.0


From dff70ab70c7a387a4fb46c801edaf794f11f6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 02/14] fix: enforce the maximum ask price when repricing a V1
 ask

---
 contracts/marketplace/src/execute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 9d57851..1374c8f 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -444,6 +444,9 @@ pub fn execute_update_ask_price(
     nonpayable(&info)?;
     only_owner(deps.as_ref(), &info, &collection, token_id)?;
     price_validate(deps.storage, &price)?;
+    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
+        return Err(ContractError::PriceTooHigh(price.amount));
+    }
 
     let key = ask_key(&collection, token_id);
 
-- 
2.43.0


From 77b7ecddc084cea553f6239b8bc1b3c609eb83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 03/14] fix: pay the V1 seller the exact rest of the price when
 the royalty rounds down

---
 contracts/marketplace/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 1374c8f..42f41eb 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1240,7 +1240,7 @@ fn payout(
             let seller_share_msg = BankMsg::Send {
                 to_address: payment_recipient.to_string(),
                 amount: vec![coin(
-                    (payment * (Decimal::one() - royalty.share) - network_fee).u128() - finders_fee,
+                    (payment - network_fee - amount.amount).u128() - finders_fee,
                     NATIVE_DENOM.to_string(),
                 )],
             };
-- 
2.43.0


From 1a5658b4fccf6c47c95185fdb353ce1e5f5b86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 04/14] fix: skip zero payments in V1 sales and stale bid
 removals

---
 contracts/marketplace/src/execute.rs | 91 +++++++++++++++-------------
 1 file changed, 50 insertions(+), 41 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 42f41eb..7b22aac 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1048,14 +1048,17 @@ pub fn execute_remove_stale_bid(
 
     let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: bid.bidder.to_string(),
-        amount: vec![coin((bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    // the bank refuses to send zero coins
+    let refund_msgs = vec![
+        (bid.bidder.to_string(), bid.price - reward),
+        (operator.to_string(), reward),
+    ]
+    .into_iter()
+    .filter(|(_, amount)| !amount.is_zero())
+    .map(|(to_address, amount)| BankMsg::Send {
+        to_address,
+        amount: vec![coin(amount.u128(), NATIVE_DENOM)],
+    });
 
     let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
 
@@ -1068,8 +1071,7 @@ pub fn execute_remove_stale_bid(
 
     Ok(Response::new()
         .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
+        .add_messages(refund_msgs)
         .add_submessages(hook))
 }
 
@@ -1099,14 +1101,20 @@ pub fn execute_remove_stale_collection_bid(
 
     let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: collection_bid.bidder.to_string(),
-        amount: vec![coin((collection_bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    // the bank refuses to send zero coins
+    let refund_msgs = vec![
+        (
+            collection_bid.bidder.to_string(),
+            collection_bid.price - reward,
+        ),
+        (operator.to_string(), reward),
+    ]
+    .into_iter()
+    .filter(|(_, amount)| !amount.is_zero())
+    .map(|(to_address, amount)| BankMsg::Send {
+        to_address,
+        amount: vec![coin(amount.u128(), NATIVE_DENOM)],
+    });
 
     let hook = prepare_collection_bid_hook(deps.as_ref(), &collection_bid, HookAction::Delete)?;
 
@@ -1118,8 +1126,7 @@ pub fn execute_remove_stale_collection_bid(
 
     Ok(Response::new()
         .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
+        .add_messages(refund_msgs)
         .add_submessages(hook))
 }
 
@@ -1199,7 +1206,9 @@ fn payout(
 
     // Append Fair Burn message
     let network_fee = payment * params.trading_fee_percent / Uint128::from(100u128);
-    fair_burn(network_fee.u128(), None, res);
+    if !network_fee.is_zero() {
+        fair_burn(network_fee.u128(), None, res);
+    }
 
     let collection_info: CollectionInfoResponse = deps
         .querier
@@ -1228,37 +1237,37 @@ fn payout(
             if payment < (network_fee + Uint128::from(finders_fee) + amount.amount) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
-            res.messages.push(SubMsg::new(BankMsg::Send {
-                to_address: royalty.payment_address.to_string(),
-                amount: vec![amount.clone()],
-            }));
+            if !amount.amount.is_zero() {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: royalty.payment_address.to_string(),
+                    amount: vec![amount.clone()],
+                }));
+            }
             let event = Event::new("royalty-payout")
                 .add_attribute("collection", collection.to_string())
                 .add_attribute("amount", amount.to_string())
                 .add_attribute("recipient", royalty.payment_address.to_string());
             res.events.push(event);
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee - amount.amount).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee - amount.amount).u128() - finders_fee;
+            if seller_share > 0 {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM)],
+                }));
+            }
         }
         None => {
             if payment < (network_fee + Uint128::from(finders_fee)) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
             // If token doesn't support royalties, pay seller in full
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee).u128() - finders_fee;
+            if seller_share > 0 {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM)],
+                }));
+            }
         }
     }
 
-- 
2.43.0


From 2e966c7a9511abc592c41aa66865c511168afcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 05/14] fix: list every V1 ask of a collection when no cursor
 is given

---
 contracts/marketplace/src/query.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index c90dd2c..e13954d 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -244,10 +244,7 @@ pub fn query_asks(
         .prefix(collection.clone())
         .range(
             deps.storage,
-            Some(Bound::exclusive((
-                collection,
-                start_after.unwrap_or_default(),
-            ))),
+            start_after.map(|token_id| Bound::exclusive((collection, token_id))),
             None,
             Order::Ascending,
         )
@@ -281,10 +278,7 @@ pub fn reverse_query_asks(
         .range(
             deps.storage,
             None,
-            Some(Bound::exclusive((
-                collection,
-                start_before.unwrap_or_default(),
-            ))),
+            start_before.map(|token_id| Bound::exclusive((collection, token_id))),
             Order::Descending,
         )
         .filter(|item| match item {
-- 
2.43.0


From 7d7a0d752eae7b6ccf4336644a344a1e10c79300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 06/14] fix: continue the V1 bids query after the given bidder

---
 contracts/marketplace/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index e13954d..59c2bb2 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -461,7 +461,8 @@ pub fn query_bids(
     limit: Option<u32>,
 ) -> StdResult<BidsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start = start_after.map(|s| Bound::ExclusiveRaw(s.into()));
+    let start = maybe_addr(deps.api, start_after)?
+        .map(|bidder| Bound::exclusive(bid_key(&collection, token_id, &bidder)));
 
     let bids = bids()
         .idx
-- 
2.43.0


From e895294e7ceef0e51b300a5f0bea28eadc741ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 07/14] fix: name each V1 collection with asks once

---
 contracts/marketplace/src/query.rs | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 59c2bb2..407a39d 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -213,18 +213,28 @@ pub fn query_collections(
     limit: Option<u32>,
 ) -> StdResult<CollectionsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start_addr = maybe_addr(deps.api, start_after)?;
-
-    let collections = asks()
-        .prefix_range(
-            deps.storage,
-            start_addr.map(PrefixBound::exclusive),
-            None,
-            Order::Ascending,
-        )
-        .take(limit)
-        .map(|item| item.map(|(key, _)| key.0))
-        .collect::<StdResult<Vec<_>>>()?;
+    let mut start = maybe_addr(deps.api, start_after)?;
+
+    // the asks are keyed by collection: continue after each collection found
+    let mut collections: Vec<Addr> = vec![];
+    while collections.len() < limit {
+        let next = asks()
+            .prefix_range(
+                deps.storage,
+                start.map(PrefixBound::exclusive),
+                None,
+                Order::Ascending,
+            )
+            .next()
+            .transpose()?;
+        match next {
+            Some(((collection, _), _)) => {
+                start = Some(collection.clone());
+                collections.push(collection);
+            }
+            None => break,
+        }
+    }
 
     Ok(CollectionsResponse { collections })
 }
-- 
2.43.0


From 416faf692c170d52e9c87b5d08d9e0daf8405bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 08/14] fix: compare auction end times in whole seconds when
 settling

---
 contracts/reserve-auction/src/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/helpers.rs b/contracts/reserve-auction/src/helpers.rs
index 122dbcd..6ad489b 100644
--- a/contracts/reserve-auction/src/helpers.rs
+++ b/contracts/reserve-auction/src/helpers.rs
@@ -55,7 +55,7 @@ pub fn settle_auction(
 ) -> Result<Response, ContractError> {
     // Ensure auction has ended
     ensure!(
-        auction.end_time.is_some() && auction.end_time.unwrap() <= block_time,
+        auction.end_time.is_some() && auction.end_time.unwrap().seconds() <= block_time.seconds(),
         ContractError::AuctionNotEnded {}
     );
 
-- 
2.43.0


From 1789c776b93d34052d0e4a22f44f969017439a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 09/14] fix: keep a halt window while auctions can still end in
 it

---
 contracts/reserve-auction/src/sudo.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20d0025..402db51 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -98,7 +98,10 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .map(|item| item.map(|(_, v)| v))
         .collect::<StdResult<Vec<Auction>>>()?;
 
-    let earliest_auction_end_time = auctions.first().map(|a| a.end_time.unwrap());
+    // An auction that has not ended yet ends after the current block time at the earliest
+    let earliest_auction_end_time = auctions
+        .first()
+        .map_or(env.block.time, |a| a.end_time.unwrap());
 
     response =
         response.add_event(Event::new("sudo-end-block").add_attribute("action", "settle-auctions"));
@@ -115,7 +118,7 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
     }
 
     // Try and clear a halt info if necessary
-    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time);
+    let halt_info = halt_manager.find_stale_halt_info(Some(earliest_auction_end_time));
     if halt_info.is_some() {
         HALT_MANAGER.save(deps.storage, &halt_manager)?;
     }
-- 
2.43.0


From 3c388401238ffdab8c5551b1872f3cb325420999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 10/14] fix: take exactly the create auction fee

---
 contracts/reserve-auction/src/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/reserve-auction/src/execute.rs b/contracts/reserve-auction/src/execute.rs
index 4284709..238cc35 100644
--- a/contracts/reserve-auction/src/execute.rs
+++ b/contracts/reserve-auction/src/execute.rs
@@ -128,10 +128,10 @@ pub fn execute_create_auction(
         // If create auction fee is zero, ensure no payment is sent
         nonpayable(&info)?;
     } else {
-        // If create auction fee is non zero, ensure user has sent the correct amount,
+        // If create auction fee is non zero, ensure user has sent exactly that amount,
         // and send it to the fair-burn contract
         ensure!(
-            has_coins(&info.funds, &config.create_auction_fee),
+            info.funds == vec![config.create_auction_fee.clone()],
             ContractError::WrongFee {
                 expected: config.create_auction_fee,
             }
-- 
2.43.0


From 3a95f72568c21616f0966d4abde3d7520c974a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 11/14] fix: settle auctions of collections without collection
 info

---
 contracts/reserve-auction/src/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/helpers.rs b/contracts/reserve-auction/src/helpers.rs
index 6ad489b..8ef2a23 100644
--- a/contracts/reserve-auction/src/helpers.rs
+++ b/contracts/reserve-auction/src/helpers.rs
@@ -87,7 +87,9 @@ pub fn settle_auction(
     // High bid must exist if end time exists
     let high_bid = auction.high_bid.as_ref().unwrap();
 
-    let royalty_info = load_collection_royalties(&deps.querier, deps.api, &auction.collection)?;
+    // A collection that does not provide its royalties must not block the settlement
+    let royalty_info =
+        load_collection_royalties(&deps.querier, deps.api, &auction.collection).unwrap_or(None);
 
     (_, response) = payout_nft_sale_fees(
         &high_bid.coin,
-- 
2.43.0


From d76d96540d8df2fd78819412386f6cd1744dc3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 12/14] fix: settle auctions when the trading fee is zero

---
 contracts/reserve-auction/src/helpers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/contracts/reserve-auction/src/helpers.rs b/contracts/reserve-auction/src/helpers.rs
index 8ef2a23..8dc998b 100644
--- a/contracts/reserve-auction/src/helpers.rs
+++ b/contracts/reserve-auction/src/helpers.rs
@@ -91,7 +91,7 @@ pub fn settle_auction(
     let royalty_info =
         load_collection_royalties(&deps.querier, deps.api, &auction.collection).unwrap_or(None);
 
-    (_, response) = payout_nft_sale_fees(
+    let (payments, payout) = payout_nft_sale_fees(
         &high_bid.coin,
         &auction.funds_recipient(),
         &config.fair_burn,
@@ -100,8 +100,14 @@ pub fn settle_auction(
         config.trading_fee_percent,
         None,
         royalty_info,
-        response,
+        Response::new(),
     )?;
+    // There is one message per payment, the fair-burn contract does not accept an empty one
+    for (payment, message) in payments.iter().zip(payout.messages) {
+        if !payment.coin.amount.is_zero() {
+            response = response.add_submessage(message);
+        }
+    }
 
     // Transfer NFT to highest bidder
     response = response.add_submessage(transfer_nft(
-- 
2.43.0


From 98a5304efc88e849766b71c7cc5d29380026adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 13/14] fix: match a collection bid at the largest possible
 price

The upper bound of the search for a matching ask was the price plus one,
which overflows for the largest amount: a collection bid or instant
purchase naming it as its limit failed although asks were open.
---
 contracts/stargaze-marketplace-v2/src/orders.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/contracts/stargaze-marketplace-v2/src/orders.rs b/contracts/stargaze-marketplace-v2/src/orders.rs
index f6edd4a..18443a4 100644
--- a/contracts/stargaze-marketplace-v2/src/orders.rs
+++ b/contracts/stargaze-marketplace-v2/src/orders.rs
@@ -299,10 +299,19 @@ impl CollectionBid {
                 descending: Some(false),
                 limit: Some(1),
                 min: None,
-                max: Some(QueryBound::Exclusive(PriceOffset {
-                    id: "".to_string(),
-                    amount: self.details.price.amount.u128() + 1,
-                })),
+                // Asks at the price itself are included, and the largest price has none above it
+                max: self
+                    .details
+                    .price
+                    .amount
+                    .u128()
+                    .checked_add(1)
+                    .map(|amount| {
+                        QueryBound::Exclusive(PriceOffset {
+                            id: "".to_string(),
+                            amount,
+                        })
+                    }),
             },
         )?
         .pop();
-- 
2.43.0


From 35c48d4866281a2d9dbd35279e04d91ccd0ca238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 14/14] fix: keep a halt window while an auction ending in it
 is due, whatever the limit

With a limit of zero auctions per block the end of the block saw no due
auction and dropped the halt window, so an auction that had ended inside
it was settled afterwards instead of postponed.
---
 contracts/reserve-auction/src/sudo.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 402db51..27ff08b 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -90,6 +90,15 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         (Addr::unchecked(""), "".to_string()),
     )));
 
+    // Whatever the limit is, an auction that has not ended yet ends after the current block time at the earliest
+    let earliest_auction_end_time = auctions()
+        .idx
+        .end_time
+        .range(deps.storage, None, max.clone(), order)
+        .next()
+        .transpose()?
+        .map_or(env.block.time, |(_, a)| a.end_time.unwrap());
+
     let auctions = auctions()
         .idx
         .end_time
@@ -98,11 +107,6 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .map(|item| item.map(|(_, v)| v))
         .collect::<StdResult<Vec<Auction>>>()?;
 
-    // An auction that has not ended yet ends after the current block time at the earliest
-    let earliest_auction_end_time = auctions
-        .first()
-        .map_or(env.block.time, |a| a.end_time.unwrap());
-
     response =
         response.add_event(Event::new("sudo-end-block").add_attribute("action", "settle-auctions"));
 
-- 
2.43.0

