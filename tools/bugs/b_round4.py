"""Fourth round of planted bugs: what is kept from one message to the next."""
import b_v2 as v2, b_v1 as v1, b_ra as ra

BUGS = []


# ---- V2
def V(*a, scale="1", **kw):
    BUGS.append(dict(v2.B(*a, **kw), scale=scale))


ask, bid, cbid, o, det, c = v2.ask, v2.bid, v2.cbid, v2.o, v2.det, v2.c
X, O, H, Q, S = v2.X, v2.O, v2.H, v2.Q, v2.S
I = v2.P + "instantiate.rs"

V("v2-repriced-ask-keeps-index", "A04",
  [(O, "        asks().save(storage, self.id.clone(), self)?;", "        asks().replace(storage, self.id.clone(), Some(self), None)?;")],
  "an ask repriced upwards, then a collection bid between its two prices", "a repriced ask is still found at its old price",
  [ask("alice", "1", 20), o("UpdAsk", "alice", id="colla/1", **det(40)), cbid("bobby", 30, "c1")],
  [("ok(6) and bal(6,'mkt') == 30", "the bid rests below the ask")], also=["A09"])
V("v2-updated-bid-keeps-index", "A09",
  [(O, "        bids().save(storage, self.id.clone(), self)?;", "        bids().replace(storage, self.id.clone(), Some(self), None)?;")],
  "a bid whose price is updated", "an updated bid is listed twice",
  [bid("bobby", "1", 20, "b1"), o("UpdBid", "bobby", c(10), id="b1", **det(30))],
  [("len(q(0)) == 1", "the bid is listed once")], [v2.qq("bidsPrice")], also=["A04"])
V("v2-updated-collection-bid-keeps-index", "A04",
  [(O, "        collection_bids().save(storage, self.id.clone(), self)?;", "        collection_bids().replace(storage, self.id.clone(), Some(self), None)?;")],
  "a collection bid lowered and then an ask between its two prices", "a lowered collection bid is still matched by its old price",
  [cbid("bobby", 40, "c1"), o("UpdCBid", "bobby", id="c1", **det(20)), ask("alice", "1", 30)],
  [("ok(6) and st(6)['own']['colla/1'] == 'mkt'", "the ask rests above the bid")], also=["A09"])
V("v2-nonce-reset-by-config", "A07",
  [(S, "        CONFIG.save(storage, self)?;\n        Ok(())", "        CONFIG.save(storage, self)?;\n        NONCE.save(storage, &0)?;\n        Ok(())"),
   (I, "    NONCE.save(deps.storage, &0)?;\n\n", ""), (I, "    state::NONCE,\n", "")],
  "two bids of the same block with a change of the configuration between them", "a bid is refused as a duplicate when the configuration changed since another of the same block",
  [bid("bobby", "1", 20, "b1"), o("UpdConfig", "admin", cfg=dict(v2.CFG, pf=500)), bid("carol", "1", 25, "b2")],
  [("ok(5) and ok(6)", "both bids are accepted")])
V("v2-config-keeps-registry", "A08",
  [(S, "        CONFIG.save(storage, self)?;\n        Ok(())", "        let mut config = self.clone();\n        if let Some(current) = CONFIG.may_load(storage)? {\n            // royalties stay where they are registered\n            config.royalty_registry = current.royalty_registry;\n        }\n        CONFIG.save(storage, &config)?;\n        Ok(())")],
  "an update that names another royalty registry", "the royalty registry cannot be changed",
  [o("UpdConfig", "admin", cfg=dict(v2.CFG, rr="alice"))],
  [("ok(4) and st(4)['cfg']['rr'] == 'alice'", "the registry is the new one")])
V("v2-update-refund-in-one-denom", "A01",
  [(X, """        response = response.add_event(
            BidEvent {
                ty: "update-bid",""", """        let price_denom = bid.details.price.denom.clone();
        funds.0.retain(|coin| coin.denom == price_denom);

        response = response.add_event(
            BidEvent {
                ty: "update-bid","""),
   (X, """        // If no match is found update the bid
        funds = funds
            .sub(bid.details.price.clone())
            .map_err(|_| ContractError::InsufficientFunds)?;

        bid.save(deps.storage)?;""", """        // If no match is found update the bid
        funds = funds
            .sub(bid.details.price.clone())
            .map_err(|_| ContractError::InsufficientFunds)?;
        bid.save(deps.storage)?;""")],
  "a bid updated into the collection's new denom", "updating a bid into another denom keeps the old escrow",
  [bid("bobby", "1", 20, "b1"), o("UpdDenom", "admin", co="colla", d="uatom"), o("UpdBid", "bobby", c((20, "uatom")), id="b1", **det(20, d="uatom"))],
  [("ok(6) and got(6,'bobby') == 20", "the old price comes back")], also=["A10"])
V("v2-fee-from-listing-time", "A03",
  [(X, "    let config: Config<Addr> = CONFIG.load(deps.storage)?;\n    let response = finalize_sale(\n        deps,\n        &env,\n        &ask,\n        &config,\n        &MatchingBid::Bid(bid),\n        false,\n        Response::new(),\n    )?;\n\n    Ok(response)", "    let mut config: Config<Addr> = CONFIG.load(deps.storage)?;\n    if bid.creator == config.fee_manager {\n        config.protocol_fee_bps = 0;\n    }\n    let response = finalize_sale(\n        deps,\n        &env,\n        &ask,\n        &config,\n        &MatchingBid::Bid(bid),\n        false,\n        Response::new(),\n    )?;\n\n    Ok(response)")],
  "a bid by the fee manager, accepted by the owner", "no protocol fee is due when the fee manager buys",
  [o("UpdConfig", "admin", cfg=dict(v2.CFG, fm="carol")), bid("carol", "1", 10000, "b1", fi="findx"), o("AccBid", "alice", id="b1", **det(10000))],
  [("ok(6) and got(6,'findx') > 0", "the finder is rewarded")])


# ---- V1
def W(*a, scale="1", **kw):
    BUGS.append(dict(v1.B(*a, **kw), scale=scale))


X, H, Q, S, U = v1.X, v1.H, v1.Q, v1.S, v1.U
ask, bid, cbid, o, c, appr, info = v1.ask, v1.bid, v1.cbid, v1.o, v1.c, v1.appr, v1.info

W("v1-relisted-ask-keeps-index", "B10",
  [(X, "    asks().save(store, ask_key(&ask.collection, ask.token_id), ask)\n", "    asks().replace(\n        store,\n        ask_key(&ask.collection, ask.token_id),\n        Some(ask),\n        None,\n    )\n")],
  "a token listed again at another price", "a relisted token is listed at its old price too",
  [ask("alice", "0", 40), ask("alice", "0", 60)],
  [("q(0) == ['colla/0']", "the ask is listed once")], [v1.qq("asksP")])
W("v1-accept-takes-asks-finders-fee", "B05",
  [(X, """    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender.clone()),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,""", """    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;
    if existing_ask.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender.clone()),
        reserve_for: None,
        finders_fee_bps: bid
            .finders_fee_bps
            .or(existing_ask.and_then(|ask| ask.finders_fee_bps)),""")],
  "a collection bid without a finder's fee accepted for a token listed with one", "the listing's finder's fee is paid when a collection bid without one is accepted",
  [ask("alice", "0", 9000, ff=1000), cbid("carol", 1000), o("AccCBid", "alice", co="colla", tk="0", us="carol", fi="findx")],
  [("ok(6) and got(6,'findx') == 0", "the collection bid promises no finder's fee")], also=["B02"])
W("v1-one-bid-across-collections", "B04",
  [(X, "    let existing_bid = collection_bids().may_load(deps.storage, key.clone())?;\n    if let Some(bid) = existing_bid {\n        collection_bids().remove(deps.storage, key.clone())?;", "    let existing_bid = collection_bids()\n        .may_load(deps.storage, key.clone())?\n        .filter(|bid| bid.price != price || bid.expires_at != expires);\n    if let Some(bid) = existing_bid {\n        collection_bids().remove(deps.storage, key.clone())?;")],
  "a collection bid renewed with the same price and expiry", "the old escrow is kept when a collection bid is repeated exactly",
  [cbid("carol", 50), cbid("carol", 50, ff=100)],
  [("ok(5) and got(5,'carol') == 0", "the old bid is refunded")], also=["B01"])
W("v1-buyer-with-bid-needs-its-finders-fee", "B03",
  [(X, "                    Ordering::Equal => {\n                        asks().remove(deps.storage, ask_key)?;", "                    Ordering::Equal if res.messages.is_empty() => {\n                        asks().remove(deps.storage, ask_key)?;"),
   (X, "                        None\n                    }\n                }\n            }\n            SaleType::Auction => {", "                        None\n                    }\n                    // a standing bid is raised\n                    Ordering::Equal => save_bid(deps.storage)?,\n                }\n            }\n            SaleType::Auction => {")],
  "a bidder who raises a standing bid to the price of the ask", "a bid raised to the price of the ask does not buy",
  [ask("alice", "0", 60), bid("carol", "0", 40), bid("carol", "0", 60)],
  [("ok(6) and st(6)['own']['colla/0'] == 'carol'", "the token is sold")])
W("v1-reward-of-own-stale-bid", "B12",
  [(X, "    let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);", "    let reward = if operator == collection_bid.bidder {\n        Uint128::zero()\n    } else {\n        collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128)\n    };")],
  "an operator removing their own stale collection bid", "the event of an operator's own stale bid shows no reward",
  [o("AddOp", x="carol"), cbid("carol", 1000, ex=100000), o("Tick", dt=400000), o("StaleCBid", "carol", co="colla", us="carol")],
  [("ok(7) and ev(7,'remove-stale-collection-bid')[0]['reward'] != '0'", "the reward is reported")])


# ---- reserve auction
def R(*a, scale="1", **kw):
    BUGS.append(dict(ra.B(*a, **kw), scale=scale))


X, H, Q, S, U = ra.X, ra.H, ra.Q, ra.S, ra.U
o, appr, create, auction, settle, tick, END, BEGIN, tk, qq = ra.o, ra.appr, ra.create, ra.auction, ra.settle, ra.tick, ra.END, ra.BEGIN, ra.tk, ra.qq
rbid = ra.bid

R("ra-extended-auction-keeps-index", "C10",
  [(X, "    auction.high_bid = Some(next_bid);\n    auctions().save(\n        deps.storage,\n        (auction.collection.clone(), auction.token_id.clone()),\n        &auction,\n    )?;", "    auction.high_bid = Some(next_bid);\n    auctions().replace(\n        deps.storage,\n        (auction.collection.clone(), auction.token_id.clone()),\n        Some(&auction),\n        None,\n    )?;")],
  "an auction extended by a late bid", "an extended auction is listed under its old end as well",
  auction(0, du=10) + [rbid(0, "carol", 20), tick(8000), rbid(0, "david", 40)],
  [("len(q(0)) == 1", "the auction is listed once")], [qq("end", et=0)], also=["C06"])
R("ra-postponed-not-counted", "C06",
  [(U, "        .take(limit)\n        .map(|item| item.map(|(_, v)| v))\n        .collect::<StdResult<Vec<Auction>>>()?;", "        .map(|item| item.map(|(_, v)| v))\n        .collect::<StdResult<Vec<Auction>>>()?;"),
   (U, "    for auction in auctions {\n        response = settle_auction(", "    let mut settled = 0;\n    for auction in auctions {\n        if settled == limit {\n            break;\n        }\n        if !halt_manager.is_within_halt_window(auction.end_time.unwrap().seconds()) {\n            settled += 1;\n        }\n        response = settle_auction(")],
  "more auctions to be postponed than the limit per block", "postponed auctions do not count towards the limit per block",
  [BEGIN] + auction(0, du=20) + auction(1, du=20) + [rbid(0, "carol", 20), rbid(1, "carol", 20), tick(35000), BEGIN, END],
  [("ok(10) and sorted(st(10)['auc'][x]['en'] for x in ('colla/0','colla/1'))[0] == 20000", "the second one is left for the next block")], lim=1)
R("ra-bid-after-reserve-change-denom", "C08",
  [(X, "    // Update reserve price\n    auction.reserve_price = reserve_price;", "    // Update reserve price\n    if reserve_price.amount != auction.reserve_price.amount {\n        auction.reserve_price = reserve_price;\n    }")],
  "a reserve price changed in its denom only", "a change of the reserve price's denom alone is lost",
  auction(0, a=50) + [o("UpdRes", "alice", d="uatom", a=50, **tk(0))],
  [("ok(3) and st(3)['auc']['colla/0']['d'] == 'uatom'", "the denom is the new one")])
