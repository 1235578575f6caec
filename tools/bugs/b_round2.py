"""Second round of planted bugs, on all systems."""
import b_v2 as v2, b_v1 as v1, b_ra as ra

START = 100000000
BUGS = []


# ---- V2
def V(*a, **kw):
    BUGS.append(v2.B(*a, **kw))


ask, bid, cbid, o, det, c, qq, CFG = v2.ask, v2.bid, v2.cbid, v2.o, v2.det, v2.c, v2.qq, v2.CFG
X, O, H, Q, S = v2.X, v2.O, v2.H, v2.Q, v2.S

V("v2-update-keeps-old-finder", "A10",
  [(X, "    collection_bid.details = details;", "    collection_bid.details = OrderDetails {\n        finder: details.finder.or(collection_bid.details.finder),\n        ..details\n    };")],
  "a collection bid with a finder that is updated to have none, then sold into", "an update that names no finder keeps the old one, who is rewarded",
  [cbid("bobby", 1000, "c1", fi="findx"), o("UpdCBid", "bobby", id="c1", **det(1000)), o("AccCBid", "alice", id="c1", tk="1", **det(1000))],
  [("st(5)['cbids']['c1']['fi'] == ''", "the update replaces the finder"), ("got(6,'findx') == 0", "who earns nothing")], also=["A03"])
V("v2-update-keeps-old-recipient", "A10",
  [(X, "    ask.details = details;", "    ask.details = OrderDetails {\n        recipient: details.recipient.or(ask.details.recipient),\n        ..details\n    };")],
  "an ask with a recipient that is updated to have none", "an update that names no recipient keeps the old one",
  [ask("alice", "1", 30, rc="carol"), o("UpdAsk", "alice", id="colla/1", **det(40)), o("RemAsk", "alice", id="colla/1")],
  [("st(6)['own']['colla/1'] == 'alice'", "the creator gets the token back")])
V("v2-royalty-entry-of-protocol-ignored", "A03",
  [(H, "        Some(&env.contract.address),\n        response,", "        Some(&config.fee_manager).filter(|a| **a == env.contract.address),\n        response,")],
  "a registry that has a royalty entry for this marketplace besides a default one", "the royalty agreed for this marketplace is not used",
  [o("RegSet", "admin", co="colla", p="", r="royal", sh=50000), o("RegSet", "admin", co="colla", p="mkt", r="findx", sh=30000), bid("bobby", "1", 1000, "b1"), o("AccBid", "alice", id="b1", **det(1000))],
  [("ok(7)", "the sale happens"), ("got(7,'findx') > 0 and got(7,'royal') == 0", "the entry for the marketplace is paid")])
V("v2-one-finder-rewarded-once", "A03",
  [(H, "    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.is_some())?;", "    let protocol_fees =\n        divide_protocol_fees(config, maker.is_some(), taker.is_some() && taker != maker)?;")],
  "a sale whose two sides name the same finder", "a finder named by both sides gets the maker's reward only",
  [bid("bobby", "1", 10000, "b1", fi="findx"), ask("alice", "1", 9000, fi="findx")],
  [("ok(5) and got(5,'findx') == 500", "both rewards are paid")])
V("v2-buyer-as-finder-unrewarded", "A03",
  [(H, "    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker.is_some())?;", "    let taker_rewarded = taker.as_ref().map_or(false, |f| *f != ask.creator);\n    let protocol_fees = divide_protocol_fees(config, maker.is_some(), taker_rewarded)?;")],
  "an ask that names its own creator as finder and sells into a resting bid", "a seller who is also the finder gets no reward",
  [bid("bobby", "1", 10000, "b1"), ask("alice", "1", 9000, fi="alice")],
  [("ok(5) and got(5,'alice') == 10000 - 900 - 500 - 5", "seller's part and taker's reward, less the listing fee")])
V("v2-refund-to-recipient", "A10",
  [(X, "    let refund = bid.details.price.clone();\n\n    bid.remove(deps.storage)?;\n\n    let mut response = transfer_coin(refund, &info.sender, Response::new());",
    "    let refund = bid.details.price.clone();\n\n    bid.remove(deps.storage)?;\n\n    let mut response = transfer_coin(refund, &bid.asset_recipient(), Response::new());")],
  "removing a bid that names a recipient", "the refund of a removed bid goes to the recipient of the NFT",
  [bid("bobby", "1", 50, "b1", rc="carol"), o("RemBid", "bobby", id="b1")],
  [("ok(5) and got(5,'bobby') == 50", "the creator is refunded")])
V("v2-own-ask-not-bought", "A04",
  [(O, "            if has_coins(&[self.details.price.clone()], &ask.details.price) {", "            if ask.creator != self.creator\n                && has_coins(&[self.details.price.clone()], &ask.details.price)\n            {")],
  "a bidder whose own ask is crossed", "a bid crossing the bidder's own ask rests beside it",
  [ask("alice", "1", 30), bid("alice", "1", 50, "b1")],
  [("ok(5) and st(5)['bids'] == {} and 'colla/1' not in st(5)['asks']", "crossing orders trade")])
V("v2-own-bid-not-sold-into", "A04",
  [(O, "            },\n        )?\n        .pop();\n\n        let top_collection_bid =", "            },\n        )?\n        .pop()\n        .filter(|bid| bid.creator != self.creator);\n\n        let top_collection_bid =")],
  "a new ask whose best counter-bid is the seller's own, above another's", "the seller's own best bid hides the others on the token",
  [bid("bobby", "1", 40, "b2"), bid("alice", "1", 50, "b1"), ask("alice", "1", 30)],
  [("ok(6) and 'colla/1' not in st(6)['asks']", "the ask trades at once")])
V("v2-lookup-of-many-asks-capped", "A09",
  [(Q, "pub fn query_bids(deps: Deps, ids: Vec<OrderId>) -> StdResult<Vec<Bid>> {\n    let mut retval = vec![];\n\n    for id in ids {", "pub fn query_bids(deps: Deps, ids: Vec<OrderId>) -> StdResult<Vec<Bid>> {\n    let mut retval = vec![];\n\n    for id in ids.into_iter().take(10) {")],
  "a lookup of more than ten bids by id", "a lookup by ids returns at most ten bids",
  [bid("bobby", "1", 50 + i, "b%d" % i) for i in range(12)],
  [("len(q(0)) == 12", "every open bid named is returned")],
  queries=[qq("bids", ids=["b%d" % i for i in range(12)])])
V("v2-default-denom-always-accepted", "A07",
  [(H, "    let collection_denom = query_result.unwrap_or(config.default_denom.clone());\n    ensure_eq!(\n        collection_denom,\n        price.denom,",
    "    let collection_denom = query_result\n        .filter(|_| price.denom != config.default_denom)\n        .unwrap_or(config.default_denom.clone());\n    ensure_eq!(\n        collection_denom,\n        price.denom,")],
  "a collection with a denom of its own, bid on in the default denom", "orders in the default denom are accepted where another is required",
  [o("UpdDenom", "admin", co="colla", d="uatom"), bid("bobby", "1", 50, "b1")],
  [("not ok(5)", "only the collection's denom is accepted")])
V("v2-listing-fee-stays-when-selling-at-once", "A01",
  [(X, "    let mut response = transfer_coin(listing_payment, &config.fee_manager, Response::new());\n\n    let ask = Ask::new(info.sender.clone(), collection, token_id, details);",
    "    let mut response = Response::new();\n\n    let ask = Ask::new(info.sender.clone(), collection, token_id, details);"),
   (X, "        // * escrow the nft\n        // * store the ask\n\n        response = transfer_nft(", "        // * escrow the nft\n        // * store the ask\n\n        response = transfer_coin(listing_payment, &config.fee_manager, response);\n        response = transfer_nft(")],
  "a listing that sells at once", "the listing fee of an ask that trades immediately is stranded in the contract",
  [bid("bobby", "1", 50, "b1"), ask("alice", "1", 40)],
  [("ok(5) and bal(5,'mkt') == 0", "nothing is stranded")], also=["A07"])
V("v2-collection-bid-at-price-not-taken", "A04",
  [(O, "        let top_collection_bid = query_collection_bids_by_price(\n            deps,\n            self.collection.clone(),\n            self.details.price.denom.clone(),\n            QueryOptions {\n                descending: Some(true),\n                limit: Some(1),\n                min: Some(QueryBound::Inclusive(PriceOffset {\n                    id: \"\".to_string(),\n                    amount: self.details.price.amount.u128(),",
    "        let top_collection_bid = query_collection_bids_by_price(\n            deps,\n            self.collection.clone(),\n            self.details.price.denom.clone(),\n            QueryOptions {\n                descending: Some(true),\n                limit: Some(1),\n                min: Some(QueryBound::Exclusive(PriceOffset {\n                    id: \"~\".to_string(),\n                    amount: self.details.price.amount.u128(),")],
  "an ask at exactly the price of the best collection bid", "a collection bid at exactly the ask's price is not matched",
  [cbid("bobby", 50, "c1"), ask("alice", "1", 50)],
  [("ok(5) and st(5)['own']['colla/1'] == 'bobby'", "the orders cross and trade")])
V("v2-rewards-may-be-everything", "A08",
  [(S, "            (self.maker_reward_bps + self.taker_reward_bps) < MAX_BASIS_POINTS,", "            (self.maker_reward_bps + self.taker_reward_bps) <= MAX_BASIS_POINTS,")],
  "finder rewards of exactly 100% together", "a configuration whose rewards take the whole protocol fee is accepted",
  [o("UpdConfig", "admin", cfg=dict(CFG, mk=6000, tk=4000))],
  [("not ok(4)", "it is refused")])
V("v2-accepting-seller-redirects-ask", "A03",
  [(X, "    let ask_id = generate_id(vec![bid.collection.as_bytes(), bid.token_id.as_bytes()]);\n    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;\n\n    // Check if the sender is the owner of the NFT, or if the creator of a valid ask\n    let ask = if let Some(ask) = ask_option {\n        if info.sender != ask.creator {\n            Err(MarketplaceStdError::Unauthorized(\n                \"sender is not creator of ask\".to_string(),\n            ))?;\n        }\n        ask\n    } else {",
    "    let ask_id = generate_id(vec![bid.collection.as_bytes(), bid.token_id.as_bytes()]);\n    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;\n\n    // Check if the sender is the owner of the NFT, or if the creator of a valid ask\n    let ask = if let Some(ask) = ask_option {\n        if info.sender != ask.creator {\n            Err(MarketplaceStdError::Unauthorized(\n                \"sender is not creator of ask\".to_string(),\n            ))?;\n        }\n        Ask {\n            details: OrderDetails {\n                finder: details.finder.or(ask.details.finder),\n                ..ask.details\n            },\n            ..ask\n        }\n    } else {")],
  "the creator of an ask accepting a bid with a finder named in the message", "the finder named when accepting replaces the one of the ask",
  [ask("alice", "1", 20000, fi="findx"), bid("bobby", "1", 10000, "b1"), o("AccBid", "alice", id="b1", **det(10000, fi="findy"))],
  [("ok(6) and got(6,'findx') == 100 and got(6,'findy') == 0", "the ask's own terms hold")])
V("v2-collection-bid-nonce-not-kept", "A07",
  [(X, "    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);\n    NONCE.save(deps.storage, &nonce)?;\n\n    let collection_bid = CollectionBid::new(", "    let nonce = NONCE.load(deps.storage)?.wrapping_add(1);\n\n    let collection_bid = CollectionBid::new(")],
  "two collection bids on one collection in the same block", "the second collection bid of a block is refused",
  [cbid("bobby", 50, "c1"), cbid("carol", 60, "c2")],
  [("ok(5) and len(st(5)['cbids']) == 2", "both rest")])
V("v2-asks-listed-under-recipient", "A09",
  [(S, "            |_pk: &[u8], a: &Ask| (a.creator.clone(), a.collection.clone()),", "            |_pk: &[u8], a: &Ask| (a.asset_recipient(), a.collection.clone()),")],
  "the asks of a creator who named another recipient", "an ask with a recipient is listed under the recipient instead of its creator",
  [ask("alice", "1", 30, rc="carol")],
  [("q(0) == ['colla/1'] and q(1) == []", "it is the creator's")],
  queries=[qq("asksCr", cr="alice"), qq("asksCr", cr="carol")])
V("v2-sale-event-names-seller", "A11",
  [(H, "        .add_attribute(\"seller_recipient\", seller_recipient.to_string())", "        .add_attribute(\"seller_recipient\", ask.creator.to_string())")],
  "a sale of an ask with a recipient", "the sale event names the seller as the recipient of the funds",
  [ask("alice", "1", 30, rc="carol"), bid("bobby", "1", 30, "b1")],
  [("ev(5,'finalize-sale')[0]['seller_recipient'] == 'carol'", "the payee is named")])
V("v2-collection-bid-recipient-ignored", "A02",
  [(H, "            (collection_bid.asset_recipient(), &collection_bid.details)", "            (collection_bid.creator.clone(), &collection_bid.details)")],
  "a collection bid with a recipient that trades", "the NFT goes to the creator of the collection bid, not to the recipient it names",
  [cbid("bobby", 50, "c1", rc="carol"), o("AccCBid", "alice", id="c1", tk="1", **det(50))],
  [("ok(5) and st(5)['own']['colla/1'] == 'carol'", "the recipient gets the token")])
V("v2-reask-after-sale-fails", "A07",
  [(H, "    ask.remove(deps.storage)?;\n    match &matching_bid {", "    if asks_denom_is_set(deps.storage, ask)? {\n        ask.remove(deps.storage)?;\n    }\n    match &matching_bid {"),
   (H, "#[derive(Debug)]\npub struct ProtocolFees {", "fn asks_denom_is_set(storage: &dyn Storage, ask: &Ask) -> Result<bool, ContractError> {\n    let denom = COLLECTION_DENOMS.may_load(storage, ask.collection.clone())?;\n    Ok(denom.map_or(true, |d| d == ask.details.price.denom))\n}\n\n#[derive(Debug)]\npub struct ProtocolFees {")],
  "a sale of an ask made before the collection's denom changed", "a sold ask in a denom no longer in use stays in the book",
  [ask("alice", "1", 30), o("UpdDenom", "admin", co="colla", d="uatom"), o("AccAsk", "bobby", c(30), id="colla/1", **det(30))],
  [("ok(6) and st(6)['asks'] == {}", "the sold ask is gone")], also=["A02"])

# ---- V1
X, H, Q, S, U = v1.X, v1.H, v1.Q, v1.S, v1.U
o, bid, ask, cbid, c, qq = v1.o, v1.bid, v1.ask, v1.cbid, v1.c, v1.qq


def W(*a, **kw):
    BUGS.append(v1.B(*a, **kw))


W("v1-accepted-collection-bid-leaves-auction", "B05",
  [(X, "    collection_bids().remove(deps.storage, bid_key)?;\n\n    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {\n        asks().remove(deps.storage, ask_key)?;\n    }",
    "    collection_bids().remove(deps.storage, bid_key)?;\n\n    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {\n        if !ask.is_expired(&env.block) {\n            asks().remove(deps.storage, ask_key)?;\n        }\n    }")],
  "a collection bid accepted for a token whose ask has expired", "an expired ask survives the sale of its token into a collection bid",
  [ask("alice", "0", 40, ex=100000), o("Tick", "", dt=150000), cbid("carol", 50, ex=1000000), o("AccCBid", "alice", co="colla", tk="0", us="carol", fi="")],
  [("ok(7) and st(7)['asks'] == {}", "no ask on the sold token is left")])
W("v1-accept-bid-leaves-former-owners-ask", "B05",
  [(X, "    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {\n        asks().remove(deps.storage, ask_key)?;\n    }\n\n    // Create a temporary Ask\n    let ask = Ask {\n        sale_type: SaleType::Auction,\n        collection: collection.clone(),\n        token_id,\n        price: bid.price,\n        expires_at: bid.expires_at,\n        is_active: true,\n        seller: info.sender.clone(),\n        funds_recipient: Some(info.sender),",
    "    if let Some(ask) = asks().may_load(deps.storage, ask_key.clone())? {\n        if ask.seller == info.sender {\n            asks().remove(deps.storage, ask_key)?;\n        }\n    }\n\n    // Create a temporary Ask\n    let ask = Ask {\n        sale_type: SaleType::Auction,\n        collection: collection.clone(),\n        token_id,\n        price: bid.price,\n        expires_at: bid.expires_at,\n        is_active: true,\n        seller: info.sender.clone(),\n        funds_recipient: Some(info.sender),")],
  "a listed token transferred away, whose new owner accepts a bid", "the previous owner's ask survives the sale",
  [ask("alice", "0", 40), o("Xfer", "alice", co="colla", tk="0", to="bobby"), v1.appr("bobby", "colla", "0"), bid("carol", "0", 30), o("AccBid", "bobby", co="colla", tk="0", us="carol", fi="")],
  [("ok(8) and st(8)['asks'] == {}", "no ask on the sold token is left")])
W("v1-owner-cannot-remove-inherited-ask", "B07",
  [(X, "    let key = ask_key(&collection, token_id);\n    let ask = asks().load(deps.storage, key.clone())?;\n    asks().remove(deps.storage, key)?;",
    "    let key = ask_key(&collection, token_id);\n    let ask = asks().load(deps.storage, key.clone())?;\n    if ask.seller == info.sender {\n        asks().remove(deps.storage, key)?;\n    } else {\n        return Err(ContractError::UnauthorizedOwner {});\n    }")],
  "a listed token transferred away, whose new owner removes the ask", "the owner of a token cannot remove the previous owner's ask",
  [ask("alice", "0", 40), o("Xfer", "alice", co="colla", tk="0", to="bobby"), o("RemAsk", "bobby", co="colla", tk="0")],
  [("ok(6) and st(6)['asks'] == {}", "the token's owner may remove it")])
W("v1-relisting-keeps-payee", "B07",
  [(X, "        price: price.amount,\n        funds_recipient,\n        reserve_for,", "        price: price.amount,\n        funds_recipient: funds_recipient.or(previous_recipient),\n        reserve_for,"),
   (X, "    let seller = info.sender;\n    let ask = Ask {", "    let seller = info.sender;\n    let previous_recipient = asks()\n        .may_load(deps.storage, ask_key(&collection, token_id))?\n        .filter(|a| a.seller == seller)\n        .and_then(|a| a.funds_recipient);\n    let ask = Ask {")],
  "a token listed with a funds recipient and listed again without one", "a new listing keeps the old one's funds recipient",
  [ask("alice", "0", 40, fr="fundr"), ask("alice", "0", 50)],
  [("ok(5) and st(5)['asks']['colla/0']['fr'] == ''", "the new listing names none")])
W("v1-reprice-lifts-reservation", "B07",
  [(X, "    ask.price = price.amount;\n", "    let raised = price.amount > std::mem::replace(&mut ask.price, price.amount);\n    ask.reserve_for = ask.reserve_for.filter(|_| !raised);\n")],
  "a reserved ask whose price is raised", "raising the price of a reserved ask drops the reservation",
  [ask("alice", "0", 40, rf="bobby"), o("UpdPrice", "alice", co="colla", tk="0", a=60, d="ustars")],
  [("ok(5) and st(5)['asks']['colla/0']['rf'] == 'bobby'", "only the price changes")])
W("v1-buy-keeps-standing-bid", "B01",
  [(X, "        bids().remove(deps.storage, bid_key)?;\n        let refund_bidder = BankMsg::Send {", "        if !buy_now {\n            bids().remove(deps.storage, bid_key)?;\n        }\n        let refund_bidder = BankMsg::Send {")],
  "a buy-now by someone with a standing bid on the token", "the refunded bid of a buyer stays in the book",
  [bid("carol", "0", 30), ask("alice", "0", 40), bid("carol", "0", 40, k="BuyNow")],
  [("ok(6) and st(6)['bids'] == {}", "the refunded bid is gone")], also=["B04"])
W("v1-expiry-update-unvalidated", "B11",
  [(U, "    bid_expiry.as_ref().map(|b| b.validate()).transpose()?;\n", "    bid_expiry\n        .as_ref()\n        .filter(|_| ask_expiry.is_none())\n        .map(|b| b.validate())\n        .transpose()?;\n")],
  "an update of both expiry ranges, the bids' being invalid", "an invalid bid expiry range slips in beside a valid ask expiry range",
  [o("UpdParams", "", p=dict(an=60, ax=5000, bn=900, bx=100))],
  [("not ok(4)", "the update is refused")])
W("v1-remove-first-operator", "B11",
  [(U, "    if let Some(i) = params.operators.iter().position(|o| o == operator) {\n        params.operators.remove(i);", "    if params.operators.iter().any(|o| o == operator) {\n        params.operators.pop();")],
  "removing an operator that is not the last one registered", "removing an operator removes the one registered last",
  [o("AddOp", "", x="david"), o("RemOp", "", x="opera")],
  [("ok(5) and sorted(st(5)['ops']) == ['david']", "the named operator is removed")])
W("v1-royalty-paid-to-seller-when-dust", "B02",
  [(X, "            if royalty.share.is_zero() {", "            if royalty.share < Decimal::percent(1) {")],
  "a collection with a royalty share below one percent", "royalties below 1% are not paid",
  [v1.info(rs=500000), ask("alice", "0", 10000), bid("carol", "0", 10000)],
  [("ok(6) and got(6,'royal') == 50", "the royalty is paid")])
W("v1-auction-bid-ignores-reservation-expiry", "B03",
  [(X, "        if ask.is_expired(&env.block) {\n            return Err(ContractError::AskExpired {});\n        }\n        if !ask.is_active {\n            return Err(ContractError::AskNotActive {});\n        }\n        if let Some(reserved_for)",
    "        if ask.is_expired(&env.block) && ask.price <= bid_price {\n            return Err(ContractError::AskExpired {});\n        }\n        if !ask.is_active {\n            return Err(ContractError::AskNotActive {});\n        }\n        if let Some(reserved_for)")],
  "a bid below an expired fixed-price ask", "a bid below an expired ask rests instead of being refused",
  [ask("alice", "0", 40, ex=100000), o("Tick", "", dt=150000), bid("carol", "0", 30)],
  [("not ok(6)", "the ask is expired")])
W("v1-reject-event-shows-no-refund", "B12",
  [(X, "    let event = Event::new(\"reject-bid\")\n        .add_attribute(\"collection\", collection.to_string())\n        .add_attribute(\"token_id\", token_id.to_string())\n        .add_attribute(\"bidder\", bidder)",
    "    let event = Event::new(\"reject-bid\")\n        .add_attribute(\"collection\", collection.to_string())\n        .add_attribute(\"token_id\", token_id.to_string())\n        .add_attribute(\"bidder\", info.sender)")],
  "a bid rejected by the owner", "the reject event names the owner as the bidder",
  [bid("carol", "0", 30), o("RejBid", "alice", co="colla", tk="0", us="carol")],
  [("ok(5) and ev(5,'reject-bid')[0]['bidder'] == 'carol'", "the bidder is named")])
W("v1-listing-fee-of-any-denom", "B07",
  [(X, "    let listing_fee = may_pay(&info, NATIVE_DENOM)?;\n", "    let listing_fee = if params.listing_fee.is_zero() {\n        Uint128::zero()\n    } else {\n        may_pay(&info, NATIVE_DENOM)?\n    };\n")],
  "a listing with coins attached while there is no listing fee", "coins attached to a free listing are kept",
  [ask("alice", "0", 40, f=c(7, "uatom"))],
  [("not ok(4)", "the attached coins are refused")], also=["B01"])

# ---- reserve auction
X, H, Q, S, U = ra.X, ra.H, ra.Q, ra.S, ra.U
o, auction, bid, tick, settle, tk, END, BEGIN = ra.o, ra.auction, ra.bid, ra.tick, ra.settle, ra.tk, ra.END, ra.BEGIN


def R(*a, **kw):
    BUGS.append(ra.B(*a, **kw))


R("ra-newest-window-dropped", "C07",
  [(S, "            return Some(self.halt_windows.remove(0));", "            return self.halt_windows.pop();")],
  "two halt windows of which the first becomes stale", "the newest halt window is dropped instead of the stale one",
  auction(0, du=90) + [BEGIN, bid(0, "carol", 50), tick(35000), BEGIN, tick(20000), BEGIN, tick(31000), BEGIN, END, tick(9000), BEGIN, END],
  [("len(st(10)['hm']['win']) == 2 and len(st(11)['hm']['win']) == 1", "one window is dropped"), ("st(14)['own']['colla/0'] == 'auct'", "the auction that ended inside the second window is postponed")])
R("ra-cancel-when-bid-small", "C08",
  [(X, "    ensure!(\n        auction.first_bid_time.is_none(),\n        ContractError::AuctionStarted {}\n    );\n\n    // Remove auction from storage", "    ensure!(\n        auction.first_bid_time.is_none() || config_unset(deps.storage),\n        ContractError::AuctionStarted {}\n    );\n\n    // Remove auction from storage"),
   (X, "pub fn execute_cancel_auction(", "fn config_unset(storage: &dyn cosmwasm_std::Storage) -> bool {\n    crate::state::MIN_RESERVE_PRICES.is_empty(storage)\n}\n\npub fn execute_cancel_auction(")],
  "an auction with bids while no denom is accepted any more", "with no denom accepted a seller can cancel an auction that has bids, whose bid is lost",
  auction(0) + [bid(0, "carol", 50), o("UnsetMin", "", ds=["ustars", "uatom"]), o("Cancel", "alice", **tk(0))],
  [("ok(4) and not ok(5)", "an auction with bids cannot be cancelled")], also=["C01"])
R("ra-duration-from-now-minimum", "C04",
  [(X, "            auction.end_time = Some(block_time.plus_seconds(auction.duration));", "            auction.end_time =\n                Some(block_time.plus_seconds(auction.duration.max(config.min_duration)));")],
  "an auction created before the minimum duration was raised", "the first bid sets the end by the current minimum duration, not the auction's own",
  auction(0) + [o("UpdParams", "", p=dict(mn=40)), bid(0, "carol", 50)],
  [("st(4)['auc']['colla/0']['en'] == 10000", "the auction's own duration counts")])
