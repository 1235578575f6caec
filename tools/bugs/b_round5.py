"""Fifth round of planted bugs: particular parties, particular sizes, two messages that look alike."""
import b_v2 as v2, b_v1 as v1, b_ra as ra

BUGS = []


# ---- V2
def V(*a, scale="1", **kw):
    BUGS.append(dict(v2.B(*a, **kw), scale=scale))


ask, bid, cbid, o, det, c = v2.ask, v2.bid, v2.cbid, v2.o, v2.det, v2.c
X, O, H, Q, S = v2.X, v2.O, v2.H, v2.Q, v2.S

V("v2-sale-to-lister-keeps-token", "A02",
  [(H, "    response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);", "    if nft_recipient != ask.creator {\n        response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);\n    }")],
  "a lister whose own bid crosses the listing", "the token stays with the marketplace when its lister buys it",
  [ask("alice", "1", 40), bid("alice", "1", 40, "b1")],
  [("ok(5) and st(5)['own']['colla/1'] == 'alice'", "the token leaves with the ask")])
V("v2-accept-collection-bid-any-denom", "A05",
  [(X, "        has_coins(&[collection_bid.details.price.clone()], &details.price),", "        collection_bid.details.price.amount >= details.price.amount,")],
  "a seller whose minimum is in another denom than the collection bid", "a collection bid is accepted against a minimum in another denom",
  [cbid("bobby", 30, "c1"), o("AccCBid", "alice", id="c1", tk="1", **det(20, d="uatom"))],
  [("not ok(5)", "the bid does not offer what the seller asked for")])
V("v2-buy-now-collection-bid-above-rests", "A05",
  [(X, """    } else if buy_now {
        // If no match is found and buy_now is true, abort transaction
        Err(ContractError::NoMatchFound)?;
    } else {
        // If no match is found. Bid creation should store the bid""", """    } else if buy_now && collection_bid.details.recipient.is_none() {
        // If no match is found and buy_now is true, abort transaction
        Err(ContractError::NoMatchFound)?;
    } else {
        // If no match is found. Bid creation should store the bid""")],
  "a buy-now collection bid for somebody else that finds no ask", "a buy-now collection bid naming a recipient rests",
  [o("BuyColl", "bobby", c(30), co="colla", nid="c1", **det(30, rc="carol"))],
  [("not ok(4)", "there is nothing to buy")])
V("v2-bid-recipient-updates-bid", "A06",
  [(X, """    ensure_eq!(
        info.sender,
        bid.creator,
        MarketplaceStdError::Unauthorized(
            "only the creator of bid can perform this action".to_string()
        )
    );

    only_valid_price(deps.storage, &config, &bid.collection, &details.price)?;""", """    ensure!(
        info.sender == bid.creator || info.sender == bid.asset_recipient(),
        MarketplaceStdError::Unauthorized(
            "only the creator of bid can perform this action".to_string()
        )
    );

    only_valid_price(deps.storage, &config, &bid.collection, &details.price)?;""")],
  "a bid for somebody else, lowered by that recipient", "the recipient of a bid can update it and take the difference",
  [bid("bobby", "1", 30, "b1", rc="carol"), o("UpdBid", "carol", id="b1", **det(10))],
  [("not ok(5)", "carol did not create the bid")], also=["A10"])
V("v2-collection-sale-event-names-bidder", "A11",
  [(H, "        .add_attribute(\"nft_recipient\", nft_recipient.to_string())\n", "        .add_attribute(\n            \"nft_recipient\",\n            match &matching_bid {\n                MatchingBid::Bid(_) => nft_recipient.to_string(),\n                MatchingBid::CollectionBid(collection_bid) => collection_bid.creator.to_string(),\n            },\n        )\n")],
  "a sale to a collection bid with a recipient", "the sale event names the bidder instead of the recipient",
  [cbid("bobby", 30, "c1", rc="carol"), o("AccCBid", "alice", id="c1", tk="1", **det(20))],
  [("ok(5) and ev(5,'finalize-sale')[0]['nft_recipient'] == 'carol'", "carol gets the token")])
V("v2-surplus-to-recipient", "A04",
  [(X, """            &MatchingBid::CollectionBid(collection_bid),
            true,
            response,
        )?;
    } else if buy_now {""", """            &MatchingBid::CollectionBid(collection_bid.clone()),
            true,
            response,
        )?;
        // whoever receives the token receives the change
        response = transfer_coins(
            std::mem::take(&mut funds).into_vec(),
            &collection_bid.asset_recipient(),
            response,
        );
    } else if buy_now {""")],
  "a collection bid for somebody else that buys below its price", "the difference goes to the recipient of the token",
  [ask("alice", "1", 20), cbid("bobby", 30, "c1", rc="carol")],
  [("ok(5) and got(5,'bobby') == -20", "bobby gets the difference back")], also=["A01"])
V("v2-maker-and-taker-reward-swapped-for-collection-bids", "A03",
  [(H, """    let (sale_price, maker, taker) = if ask_before_bid {
        (&ask.details.price, &ask.details.finder, &bid_details.finder)
    } else {
        (&bid_details.price, &bid_details.finder, &ask.details.finder)
    };""", """    let (sale_price, maker, taker) = if ask_before_bid {
        (&ask.details.price, &ask.details.finder, &bid_details.finder)
    } else {
        // when only the seller's side brought a finder, it gets the maker's reward
        let maker = match matching_bid {
            MatchingBid::CollectionBid(_) if bid_details.finder.is_none() => &ask.details.finder,
            _ => &bid_details.finder,
        };
        (&bid_details.price, maker, &ask.details.finder)
    };""")],
  "a collection bid without a finder taken by a new ask that names one", "the seller's finder gets the maker's reward",
  [cbid("bobby", 10000, "c1"), ask("alice", "1", 9000, fi="findx")],
  [("ok(5) and got(5,'findx') == 100", "10% of the fee of 1000")], scale="1")
V("v2-collection-denom-skips-updates", "A07",
  [(X, """    only_valid_price(
        deps.storage,
        &config,
        &collection_bid.collection,
        &details.price,
    )?;""", """    if details.price != collection_bid.details.price {
        only_valid_price(
            deps.storage,
            &config,
            &collection_bid.collection,
            &details.price,
        )?;
    }""")],
  "a collection bid updated at the same price after the collection's denom changed", "an update that keeps the price is accepted in the collection's former denom",
  [cbid("bobby", 30, "c1"), o("UpdDenom", "admin", co="colla", d="uatom"), o("UpdCBid", "bobby", id="c1", **det(30, fi="findx"))],
  [("not ok(6)", "the collection trades in uatom")])


# ---- V1
def W(*a, scale="1", **kw):
    BUGS.append(dict(v1.B(*a, **kw), scale=scale))


X, H, Q, S, U = v1.X, v1.H, v1.Q, v1.S, v1.U
ask, bid, cbid, o, c, appr, info = v1.ask, v1.bid, v1.cbid, v1.o, v1.c, v1.appr, v1.info

W("v1-stale-by-whole-seconds", "B06",
  [(X, "    let stale_time = (Expiration::AtTime(bid.expires_at) + params.stale_bid_duration)?;\n    if !stale_time.is_expired(&env.block) {", "    let stale_time = (Expiration::AtTime(Timestamp::from_seconds(bid.expires_at.seconds()))\n        + params.stale_bid_duration)?;\n    if !stale_time.is_expired(&env.block) {")],
  "a bid expiring within a second and an operator within that second's fraction", "a bid can be removed a fraction of a second before it is stale",
  [bid("carol", "0", 100, ex=100500), o("Tick", dt=200200), o("StaleBid", "opera", co="colla", tk="0", us="carol")],
  [("not ok(6)", "the bid is stale at 200.5 s")])
W("v1-inactive-ask-is-stale", "B08",
  [(X, "    if has_owner && has_approval && !expired {", "    if has_owner && has_approval && !expired && ask.is_active {")],
  "an ask synced to inactive whose approval has come back", "an inactive ask can be removed although the marketplace is approved again",
  [ask("alice", "0", 60), o("Unap", "alice", co="colla", tk="0"), o("SyncAsk", "opera", co="colla", tk="0"), appr("alice", "colla", "0"), o("StaleAsk", "opera", co="colla", tk="0")],
  [("ok(6) and not ok(8)", "the ask is not stale")])
W("v1-sync-takes-over-ask", "B08",
  [(X, "    ask.is_active = res.is_ok();\n    asks().save(deps.storage, key, &ask)?;", "    ask.is_active = res.is_ok() && !ask.is_active;\n    if ask.is_active {\n        // the approval was given by the present owner\n        let owner = Cw721Contract::<Empty, Empty>(collection.clone(), PhantomData, PhantomData)\n            .owner_of(&deps.querier, token_id.to_string(), false)?;\n        ask.seller = deps.api.addr_validate(&owner.owner)?;\n    }\n    asks().save(deps.storage, key, &ask)?;")],
  "a token sold elsewhere after listing, whose new owner approves the marketplace", "a sync makes the new owner the seller of the old ask",
  [ask("alice", "0", 60), o("Xfer", "alice", co="colla", tk="0", to="carol"), o("SyncAsk", "opera", co="colla", tk="0"), appr("carol", "colla", "0"), o("SyncAsk", "opera", co="colla", tk="0")],
  [("ok(8) and st(8)['asks']['colla/0']['se'] == 'alice'", "a sync changes the flag only")])


# ---- reserve auction
def R(*a, scale="1", **kw):
    BUGS.append(dict(ra.B(*a, **kw), scale=scale))


X, H, Q, S, U = ra.X, ra.H, ra.Q, ra.S, ra.U
o, appr, create, auction, settle, tick, END, BEGIN, tk, qq = ra.o, ra.appr, ra.create, ra.auction, ra.settle, ra.tick, ra.END, ra.BEGIN, ra.tk, ra.qq
rbid = ra.bid

R("ra-payee-outbid-not-refunded", "C01",
  [(X, """            response = response.add_submessage(checked_transfer_coin(
                previous_high_bid.coin.clone(),
                &previous_high_bid.bidder,
            )?);""", """            if auction.seller_funds_recipient.as_ref() != Some(&previous_high_bid.bidder) {
                response = response.add_submessage(checked_transfer_coin(
                    previous_high_bid.coin.clone(),
                    &previous_high_bid.bidder,
                )?);
            }""")],
  "the payee of an auction bids and is outbid", "an outbid payee is not refunded",
  auction(0, fr="carol") + [rbid(0, "carol", 20), rbid(0, "david", 40)],
  [("ok(4) and got(4,'carol') == 20", "carol is refunded")])
R("ra-royalty-capped-at-half", "C05",
  [(H, "        None,\n        royalty_info,\n", "        None,\n        royalty_info.map(|mut royalty| {\n            royalty.share = royalty.share.min(cosmwasm_std::Decimal::percent(50));\n            royalty\n        }),\n")],
  "a collection whose royalty share is above one half", "a royalty above one half is cut",
  [v1.o("SetInfo", co="colla", info=dict(stt=-1, rr="royal", rs=70000000, ok=True, ft=False))] + auction(0) + [rbid(0, "carol", 1000), tick(12000), settle(0)],
  [("ok(6) and got(6,'royal') == 700", "the royalty is 70%")])
R("ra-settles-at-most-twenty", "C06",
  [(U, "    let limit = config.max_auctions_to_settle_per_block as usize;", "    let limit = config.max_auctions_to_settle_per_block.min(20) as usize;")],
  "more than twenty auctions ended in one block, and a limit above that", "never more than twenty auctions are settled per block",
  sum([[o("Mint", "admin", co="collb", tk=str(100 + i), to="alice"), o("Appr", "alice", ex=-1, co="collb", tk=str(100 + i)),
        o("Create", "alice", d="ustars", a=10, du=10, fr="", co="collb", tk=str(100 + i)), o("Bid", "carol", ra.c(20), co="collb", tk=str(100 + i))] for i in range(22)], []) + [tick(20000), END],
  [("ok(-1) and len(st(-1)['auc']) == 0", "all of them are settled")], lim=50)
R("ra-one-token-id-per-block", "C06",
  [(U, "    let auctions = auctions()\n        .idx\n        .end_time\n        .range(deps.storage, None, max, order)\n        .take(limit)\n        .map(|item| item.map(|(_, v)| v))\n        .collect::<StdResult<Vec<Auction>>>()?;", "    let mut auctions = auctions()\n        .idx\n        .end_time\n        .range(deps.storage, None, max, order)\n        .take(limit)\n        .map(|item| item.map(|(_, v)| v))\n        .collect::<StdResult<Vec<Auction>>>()?;\n    // an auction is indexed once\n    auctions.dedup_by(|a, b| a.token_id == b.token_id);")],
  "tokens of two collections with the same id whose auctions end together", "of two auctions with the same token id only one is settled",
  [o("Mint", "admin", co="collb", tk="0", to="alice"), o("Appr", "alice", ex=-1, co="collb", tk="0")] + auction(0) +
  [o("Create", "alice", d="ustars", a=10, du=10, fr="", co="collb", tk="0"), rbid(0, "carol", 20), o("Bid", "carol", ra.c(20), co="collb", tk="0"), tick(12000), END],
  [("ok(9) and len(st(9)['auc']) == 0", "both are settled")], lim=5)
R("ra-self-outbid-event-names-nobody", "C12",
  [(X, "                attr(\"previous_bidder\", previous_high_bid.bidder),\n                attr(\"previous_bid_amount\", previous_high_bid.coin.to_string()),\n            ]);", "            ]);\n            if next_bid.bidder != previous_high_bid.bidder {\n                event = event.add_attributes(vec![\n                    attr(\"previous_bidder\", previous_high_bid.bidder),\n                    attr(\"previous_bid_amount\", previous_high_bid.coin.to_string()),\n                ]);\n            }")],
  "a bidder who raises the own high bid", "the event of a raised bid does not name the bid it replaces",
  auction(0) + [rbid(0, "carol", 20), rbid(0, "carol", 40)],
  [("ok(4) and ev(4,'place-bid')[0].get('previous_bidder') == 'carol'", "the replaced bid is reported")])
R("ra-thirty-denoms-listed", "C10",
  [(Q, "        .take(limit)\n        .map(|item| item.map(|(denom, amount)| coin(amount.u128(), denom)))", "        .take(limit.min(30))\n        .map(|item| item.map(|(denom, amount)| coin(amount.u128(), denom)))")],
  "more than thirty accepted denoms", "never more than thirty minimum reserve prices are listed",
  [o("SetMin", m=[dict(d="den%d" % i, a=i + 1) for i in range(40)])],
  [("len(q(0)) == 42", "all denoms are listed")], [qq("mrp", lim=100)])
R("ra-cancelled-while-not-owned", "C02",
  [(H, "    // Transfer NFT to highest bidder\n    response = response.add_submessage(transfer_nft(\n        &auction.collection,\n        &auction.token_id,\n        &high_bid.bidder,\n    ));", "    // Transfer NFT to highest bidder, unless there is nothing to pay for\n    let nft_recipient = if payments.len() > 1 {\n        &high_bid.bidder\n    } else {\n        &auction.seller\n    };\n    response = response.add_submessage(transfer_nft(\n        &auction.collection,\n        &auction.token_id,\n        nft_recipient,\n    ));")],
  "a high bid so small that the trading fee takes all of it", "the token returns to the seller when the fee takes all of the bid",
  [v1.o("SetInfo", co="colla", info=dict(stt=-1, rr="", rs=0, ok=True, ft=False))] + auction(0, a=1) + [rbid(0, "carol", 1), tick(12000), settle(0)],
  [("ok(6) and st(6)['own']['colla/0'] == 'carol'", "the high bidder gets the token")], also=["C05"])
