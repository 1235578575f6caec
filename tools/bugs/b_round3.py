"""Third round of planted bugs, on all systems."""
import b_v2 as v2, b_v1 as v1, b_ra as ra

BUGS = []
BIG = "10000000000000000"


# ---- V2
def V(*a, scale="1", **kw):
    BUGS.append(dict(v2.B(*a, **kw), scale=scale))


ask, bid, cbid, o, det, c = v2.ask, v2.bid, v2.cbid, v2.o, v2.det, v2.c
X, O, H, Q, S = v2.X, v2.O, v2.H, v2.Q, v2.S

V("v2-match-price-truncated", "A04",
  [(O, """        let top_collection_bid = query_collection_bids_by_price(
            deps,
            self.collection.clone(),
            self.details.price.denom.clone(),
            QueryOptions {
                descending: Some(true),
                limit: Some(1),
                min: Some(QueryBound::Inclusive(PriceOffset {
                    id: "".to_string(),
                    amount: self.details.price.amount.u128(),""", """        let top_collection_bid = query_collection_bids_by_price(
            deps,
            self.collection.clone(),
            self.details.price.denom.clone(),
            QueryOptions {
                descending: Some(true),
                limit: Some(1),
                min: Some(QueryBound::Inclusive(PriceOffset {
                    id: "".to_string(),
                    amount: self.details.price.amount.u128() as u64 as u128,""")],
  "an ask dearer than 2^64 base units and a cheaper collection bid", "an ask of more than 2^64 units is sold to a collection bid below its price",
  [cbid("bobby", 1900, "c1"), ask("alice", "1", 2000)],
  [("ok(5) and st(5)['own']['colla/1'] == 'mkt'", "the bid is below the price: no sale")], scale=BIG, also=["A01"])
V("v2-accept-ask-keeps-surplus", "A01",
  [(X, """    funds = funds
        .sub(ask.details.price.clone())
        .map_err(|_| ContractError::InsufficientFunds)?;

    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);
    NONCE.save(deps.storage, &nonce)?;

    let bid = Bid::new(
        info.sender.clone(),
        ask.collection.clone(),""", """    funds = funds
        .sub(details.price.clone())
        .map_err(|_| ContractError::InsufficientFunds)?;

    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);
    NONCE.save(deps.storage, &nonce)?;

    let bid = Bid::new(
        info.sender.clone(),
        ask.collection.clone(),""")],
  "an ask accepted with a maximum above its price, and as much paid", "what a buyer is ready to pay above the price stays in the contract",
  [ask("alice", "1", 1000), o("AccAsk", "bobby", c(1500), id="colla/1", **det(1500))],
  [("ok(5) and bal(5,'mkt') == 0", "nothing stays in the contract"), ("got(5,'bobby') == -1000", "the buyer pays the price")])
V("v2-update-in-old-denom", "A07",
  [(X, "    only_valid_price(deps.storage, &config, &bid.collection, &details.price)?;", "    if details.price.denom != bid.details.price.denom || details.price.amount.is_zero() {\n        only_valid_price(deps.storage, &config, &bid.collection, &details.price)?;\n    }")],
  "a bid from before the collection's denom was changed, then updated in the old denom", "an old bid can be updated in a denom the collection no longer accepts",
  [bid("bobby", "1", 30, "b1"), o("UpdDenom", "admin", co="colla", d="uatom"), o("UpdBid", "bobby", c(5), id="b1", **det(35))],
  [("not ok(6)", "the denom is not accepted any more")])
V("v2-fee-only-in-default-denom", "A07",
  [(X, "    let listing_fee = LISTING_FEES.may_load(deps.storage, listing_payment.denom.clone())?;", "    let listing_fee = LISTING_FEES\n        .may_load(deps.storage, listing_payment.denom.clone())?\n        .filter(|_| listing_payment.denom == details.price.denom);")],
  "a listing whose fee is paid in another configured denom than the price's", "the listing fee must be paid in the denom of the price",
  [o("SetFee", "admin", d="uatom", a=3), o("SetAsk", "alice", c((3, "uatom")), co="colla", tk="1", **det(30))],
  [("ok(5)", "any configured fee denom is good")])
V("v2-ask-index-ignores-repricing-creator", "A09",
  [(S, "            |_pk: &[u8], co: &CollectionBid| (co.creator.clone(), co.collection.clone()),", "            |_pk: &[u8], co: &CollectionBid| {\n                (\n                    co.details.recipient.clone().unwrap_or(co.creator.clone()),\n                    co.collection.clone(),\n                )\n            },")],
  "a collection bid in favour of somebody else", "collection bids are listed under their recipient, not under their creator",
  [cbid("bobby", 30, "c1", rc="carol")],
  [("len(q(0)) == 1", "the creator's collection bids are listed")],
  [v2.qq("cbidsCr", cr="bobby")])
V("v2-collection-denom-of-default-kept", "A08",
  [(X, "    COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;", "    if denom == CONFIG.load(deps.storage)?.default_denom {\n        COLLECTION_DENOMS.remove(deps.storage, collection.clone());\n    } else {\n        COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;\n    }")],
  "a collection whose denom is set to the default one before the default changes", "a collection denom equal to the default is not kept when the default changes",
  [o("UpdDenom", "admin", co="colla", d="ustars"), o("UpdConfig", "admin", cfg=dict(v2.CFG, dd="uatom")), bid("bobby", "1", 30, "b1")],
  [("ok(6)", "the collection's denom is still what was set")], also=["A07"])
V("v2-fee-manager-fee-fixed-at-listing", "A03",
  [(H, "            config.fee_manager.clone(),\n        );", "            if ask.creator == config.fee_manager {\n                seller_recipient.clone()\n            } else {\n                config.fee_manager.clone()\n            },\n        );")],
  "a sale by the fee manager in favour of somebody else", "the fee manager's own sales pay the protocol's fee to the recipient of the sale",
  [o("Xfer", "alice", co="colla", tk="1", to="feemgr"), o("ApprAll", "feemgr", co="colla"), bid("bobby", "1", 10000, "b1"), o("AccBid", "feemgr", id="b1", **det(10000, rc="carol"))],
  [("ok(7) and got(7,'feemgr') > 0", "the protocol's fee goes to the fee manager")])
V("v2-royalty-to-seller-skipped", "A03",
  [(H, "    if let Some(royalty_entry) = royalty_entry_option {", "    if let Some(royalty_entry) = royalty_entry_option.filter(|r| r.recipient != ask.creator) {")],
  "an artist selling their own token in favour of somebody else", "no royalty is paid on sales by the royalty recipient",
  [o("Xfer", "alice", co="colla", tk="1", to="royal"), o("ApprAll", "royal", co="colla"), o("RegSet", "admin", co="colla", p="", r="royal", sh=50000), bid("bobby", "1", 10000, "b1"), o("AccBid", "royal", id="b1", **det(10000, rc="carol"))],
  [("ok(8) and got(8,'royal') > 0", "the royalty is paid whoever sells")])


# ---- V1
def W(*a, scale="1", **kw):
    BUGS.append(dict(v1.B(*a, **kw), scale=scale))


X, H, Q, S, U = v1.X, v1.H, v1.Q, v1.S, v1.U
ask, bid, cbid, o, c, appr, info = v1.ask, v1.bid, v1.cbid, v1.o, v1.c, v1.appr, v1.info

W("v1-finder-is-seller-unrewarded", "B02",
  [(X, "    let finders_fee = match finder {\n        Some(finder) => {", "    let finders_fee = match finder {\n        Some(finder) if finder != payment_recipient => {"), (X, "            finders_fee\n        }\n        None => 0,", "            finders_fee\n        }\n        _ => 0,")],
  "a sale whose finder is the payee, with fees that would exceed the price", "a finder who is the payee earns nothing, so a sale whose fees exceed its price is not refused",
  [o("UpdParams", p=dict(mf=9900)), bid("carol", "0", 1000, ff=9900), o("AccBid", "alice", co="colla", tk="0", us="carol", fi="alice")],
  [("not ok(6)", "fees of 2%+99%+5% exceed the payment")])
W("v1-min-price-never-zero", "B11",
  [(U, "    params.min_price = min_price.unwrap_or(params.min_price);", "    params.min_price = min_price\n        .filter(|min_price| !min_price.is_zero())\n        .unwrap_or(params.min_price);")],
  "governance lowering the minimum price to zero", "a minimum price of zero is ignored",
  [o("UpdParams", p=dict(mn=0)), bid("carol", "0", 1)],
  [("ok(4) and st(4)['pr']['mn'] == 0", "the minimum is zero"), ("ok(5)", "any bid is accepted")])
W("v1-unhook-from-all-lists", "B11",
  [(U, "    ASK_HOOKS.remove_hook(deps.storage, hook.clone())?;", "    for hooks in [ASK_HOOKS, BID_HOOKS] {\n        hooks.remove_hook(deps.storage, hook.clone()).ok();\n    }")
   ],
  "a contract registered for asks and bids, removed from the asks' list", "removing an ask hook removes the contract from the bids' list too",
  [o("AddHook", h="ask", x="hooka"), o("AddHook", h="bid", x="hooka"), o("RemHook", h="ask", x="hooka"), bid("carol", "0", 40)],
  [("len(out(7)['hooks']) == 1", "the bid hook still hears of bids")], also=["B09"])
W("v1-stale-ask-of-former-owner", "B08",
  [(X, "    let has_owner = res.is_ok();", "    let has_owner = res.map_or(false, |r| r.owner == ask.seller);")],
  "a listed token given to somebody who has approved the marketplace for all tokens", "operators can remove a valid ask because its token has changed hands",
  [ask("alice", "0", 40), o("Xfer", "alice", co="colla", tk="0", to="bobby"), appr("bobby", "colla", "0"), o("StaleAsk", "opera", co="colla", tk="0")],
  [("not ok(7)", "the token exists, is approved, and the ask has not expired")])
W("v1-bid-price-index-truncated", "B10",
  [(S, """            |_pk: &[u8], d: &Bid| (d.collection.clone(), d.price.u128()),
            "bids",
            "bids__collection_price",""", """            |_pk: &[u8], d: &Bid| (d.collection.clone(), d.price.u128() as u64 as u128),
            "bids",
            "bids__collection_price",""")],
  "bids of more than 2^64 units", "bids above 2^64 units are sorted in the wrong place",
  [bid("carol", "0", 1800), bid("david", "0", 1900)],
  [("q(0) == ['colla/0/carol', 'colla/0/david']", "bids are sorted by price")],
  [v1.qq("bidsP")], scale=BIG)
W("v1-accept-respects-reservation", "B05",
  [(X, """    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),""", """    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {
        if ask.reserve_for.map_or(false, |reserved_for| reserved_for != bidder) {
            return Err(ContractError::TokenReserved {});
        }
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),""")],
  "a bid from before the token was listed reserved for another, accepted by the owner", "an owner cannot accept a standing bid once the token is listed for somebody else",
  [bid("carol", "0", 40), ask("alice", "0", 90, rf="bobby"), o("AccBid", "alice", co="colla", tk="0", us="carol", fi="")],
  [("ok(6)", "the owner accepts the bid")])
W("v1-expiry-range-in-seconds", "B04",
  [(H, "        if !(expires > now.plus_seconds(self.min) && expires <= now.plus_seconds(self.max)) {", "        if !(expires > now.plus_seconds(self.min)\n            && expires.seconds() <= now.seconds() + self.max)\n        {")],
  "an expiry a fraction of a second beyond the maximum", "expiries up to a second too late are accepted",
  [bid("carol", "0", 40, ex=2000001), bid("carol", "0", 40, ex=2000000)],
  [("not ok(4)", "the expiry is beyond the range"), ("ok(5)", "the last valid one is accepted")])
W("v1-tradable-a-second-early", "B07",
  [(X, "                if start_trading_time > block.time {", "                if start_trading_time.seconds() > block.time.seconds() {")],
  "a listing within the second before trading starts", "a collection can be traded up to a second before its trading starts",
  [info(stt=10900), o("Tick", dt=10500), ask("alice", "0", 40, ex=1000000)],
  [("not ok(6)", "trading has not started")], also=["B04", "B03"])
W("v1-removed-stale-ask-event-mixes", "B12",
  [(X, "        .add_attribute(\"has_approval\", has_approval.to_string());", "        .add_attribute(\"has_approval\", has_owner.to_string());")],
  "a stale ask whose approval is gone", "the removal of a stale ask is reported with a wrong approval state",
  [ask("alice", "0", 40), o("Unap", "alice", co="colla", tk="0"), o("StaleAsk", "opera", co="colla", tk="0")],
  [("ok(6) and ev(6,'remove-ask')[0]['has_approval'] == 'false'", "there is no approval")])
W("v1-price-update-refreshes-seller", "B07",
  [(X, "    ask.price = price.amount;\n", "    ask = Ask {\n        price: price.amount,\n        seller: info.sender,\n        ..ask\n    };\n")],
  "a listed token bought elsewhere, whose new owner reprices the ask", "the new owner of a token takes over the former owner's ask by repricing it",
  [ask("alice", "0", 40), o("ApprAll", "bobby", co="colla"), o("Xfer", "alice", co="colla", tk="0", to="bobby"), o("UpdPrice", "bobby", co="colla", tk="0", a=50, d="ustars")],
  [("st(7)['asks']['colla/0']['se'] == 'alice'", "only the price changes")])
W("v1-refund-of-expired-bid-skipped", "B01",
  [(X, "        let refund_bidder_msg = BankMsg::Send {\n            to_address: bid.bidder.to_string(),\n            amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],\n        };\n        res = res.add_message(refund_bidder_msg);", "        if !bid.is_expired(&env.block) {\n            res = res.add_message(BankMsg::Send {\n                to_address: bid.bidder.to_string(),\n                amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],\n            });\n        }")],
  "an expired collection bid that its bidder replaces", "replacing an expired collection bid does not refund it",
  [cbid("carol", 40, ex=100000), o("Tick", dt=150000), cbid("carol", 50)],
  [("ok(6) and got(6,'carol') == -10", "the old bid is refunded")])


# ---- reserve auction
def R(*a, scale="1", **kw):
    BUGS.append(dict(ra.B(*a, **kw), scale=scale))


X, H, Q, S, U = ra.X, ra.H, ra.Q, ra.S, ra.U
o, appr, create, auction, settle, tick, END, BEGIN, tk, qq = ra.o, ra.appr, ra.create, ra.auction, ra.settle, ra.tick, ra.END, ra.BEGIN, ra.tk, ra.qq
rbid = ra.bid

R("ra-extension-at-most-duration", "C04",
  [(X, "                auction.end_time = Some(block_time.plus_seconds(config.extend_duration));", "                auction.end_time = Some(\n                    block_time.plus_seconds(config.extend_duration.min(auction.duration)),\n                );")],
  "an extension period longer than the auction", "late bids extend a short auction by its duration only",
  auction(0, du=10) + [o("UpdParams", p=dict(ex=20)), rbid(0, "carol", 20), rbid(0, "david", 40)],
  [("ok(5) and st(5)['auc']['colla/0']['en'] == 20000", "the auction ends an extension period from now")])
R("ra-raised-reserve-unchecked", "C08",
  [(X, "    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;\n\n    // Update reserve price", "    if reserve_price.denom != auction.reserve_price.denom\n        || reserve_price.amount < auction.reserve_price.amount\n    {\n        validate_reserve_price(deps.as_ref().storage, &reserve_price)?;\n    }\n\n    // Update reserve price")],
  "a reserve price raised, but still below a minimum that has risen since", "a reserve price below the current minimum is accepted if it is no lower than before",
  auction(0, a=10) + [o("UnsetMin", ds=["ustars"]), o("SetMin", m=[{"d": "ustars", "a": 40}]), o("UpdRes", "alice", d="ustars", a=20, **tk(0))],
  [("not ok(5)", "the price is below the minimum")], also=["C09"])
R("ra-four-windows-kept", "C07",
  [(U, "        halt_manager.halt_windows.push(halt_window);", "        let forget = halt_manager.halt_windows.len().saturating_sub(3);\n        halt_manager.halt_windows = halt_manager\n            .halt_windows\n            .drain(forget..)\n            .chain([halt_window])\n            .collect();")],
  "five halts before an auction that should have ended in the first is settled", "only the last four halts are remembered",
  [BEGIN] + auction(0, du=20) + [rbid(0, "carol", 20)] + [tick(35000), BEGIN] * 5 + [END],
  [("ok(15) and st(15)['own']['colla/0'] == 'auct'", "the auction that was to end in the first halt is postponed")])
R("ra-duplicates-in-one-message", "C11",
  [(U, "        if MIN_RESERVE_PRICES.has(deps.storage, min_reserve_price.denom.clone()) {", "        if known.contains(&min_reserve_price.denom) {"),
   (U, "    let mut response = Response::new();\n\n    for min_reserve_price in min_reserve_prices {", "    let mut response = Response::new();\n    let known = MIN_RESERVE_PRICES\n        .keys(deps.storage, None, None, Order::Ascending)\n        .collect::<StdResult<Vec<_>>>()?;\n\n    for min_reserve_price in min_reserve_prices {")],
  "a denom named twice in one message", "a message that names a new denom twice is accepted, and the later price counts",
  [o("SetMin", m=[{"d": "ujuno", "a": 40}, {"d": "ujuno", "a": 50}])],
  [("not ok(1)", "duplicates are refused")])
R("ra-bid-in-last-second", "C04",
  [(X, "        auction.end_time.is_none() || auction.end_time.unwrap().seconds() > block_time.seconds(),", "        auction.end_time.is_none() || auction.end_time.unwrap() > block_time,")],
  "a bid within the second of the end of an auction that started at a fraction of a second", "bids are accepted in the second in which the auction ends",
  [tick(700)] + auction(0, du=10) + [rbid(0, "carol", 20), tick(9500), rbid(0, "david", 40)],
  [("not ok(6)", "the auction has ended")])
R("ra-cancel-after-denom-unset", "C08",
  [(X, "    // Remove auction from storage\n    auctions().remove(\n        deps.storage,\n        (auction.collection.clone(), auction.token_id.clone()),\n    )?;\n\n    let event = Event::new(\"cancel-auction\")", "    validate_reserve_price(deps.as_ref().storage, &auction.reserve_price)?;\n\n    auctions().remove(\n        deps.storage,\n        (auction.collection.clone(), auction.token_id.clone()),\n    )?;\n\n    let event = Event::new(\"cancel-auction\")")],
  "an auction without bids whose reserve price is no longer acceptable", "an auction cannot be cancelled after its denom has been unset",
  auction(0, a=10) + [o("UnsetMin", ds=["ustars"]), o("Cancel", "alice", **tk(0))],
  [("ok(4) and st(4)['own']['colla/0'] == 'alice'", "the seller gets the token back")], also=["C02", "C03"])
R("ra-bid-needs-current-minimum", "C03",
  [(X, "    let min_bid = auction.min_bid_coin(config.min_bid_increment_percent);", "    let mut min_bid = auction.min_bid_coin(config.min_bid_increment_percent);\n    if let Some(min) = MIN_RESERVE_PRICES.may_load(deps.storage, auction.denom())? {\n        min_bid.amount = min_bid.amount.max(min);\n    }"),
   (X, "use crate::msg::", "use crate::state::MIN_RESERVE_PRICES;\nuse crate::msg::")],
  "a minimum reserve price raised above the reserve of a running auction", "bids at an auction's reserve price are refused because the minimum has risen",
  auction(0, a=10) + [o("UnsetMin", ds=["ustars"]), o("SetMin", m=[{"d": "ustars", "a": 40}]), rbid(0, "carol", 20)],
  [("ok(5)", "the bid meets the reserve price of the auction")])
R("ra-postponed-only-once", "C07",
  [(H, "    if halt_manager.is_within_halt_window(auction_end_time.seconds()) {", "    let scheduled = auction\n        .first_bid_time\n        .map_or(auction_end_time, |t| t.plus_seconds(auction.duration));\n    if scheduled <= auction_end_time\n        && auction_end_time.seconds() < scheduled.seconds() + config.halt_postpone_duration\n        && halt_manager.is_within_halt_window(auction_end_time.seconds())\n    {")],
  "an auction extended or postponed far beyond its planned end, whose end falls into another halt", "an auction that was postponed before is settled although its new end lies in a halt",
  [BEGIN] + auction(0, du=20) + [rbid(0, "carol", 20), tick(35000), BEGIN, END, tick(40000), BEGIN, END],
  [("ok(7) and ok(10) and st(10)['own']['colla/0'] == 'auct'", "the second halt postpones it again")])
R("ra-self-recipient-not-reported", "C12",
  [(X, "    if auction.seller_funds_recipient.is_some() {", "    if auction.seller_funds_recipient.as_ref().map_or(false, |r| *r != auction.seller) {")],
  "a seller who names themselves as the recipient of the funds", "the recipient is left out of the event when it is the seller",
  auction(0, fr="alice"),
  [("ok(2) and 'seller_funds_recipient' in ev(2,'create-auction')[0]", "the recipient is reported")])
