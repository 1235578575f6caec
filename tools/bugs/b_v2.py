"""Planted bugs of the V2 marketplace."""
P = "contracts/stargaze-marketplace-v2/src/"
X, O, H, Q, S = P + "execute.rs", P + "orders.rs", P + "helpers.rs", P + "query.rs", P + "state.rs"
CFG = dict(fm="feemgr", rr="regis", pf=1000, mr=1000, mk=4000, tk=1000, dd="ustars")
START = 100000000


def c(*a):
    return [{"d": d, "a": x} for x, d in [(y if isinstance(y, tuple) else (y, "ustars")) for y in a]]


def o(k, s, f=(), **kw):
    r = dict(k=k, s=s, f=list(f))
    r.update(kw)
    return r


def det(a, d="ustars", rc="", fi=""):
    return dict(a=a, d=d, rc=rc, fi=fi)


PRE = [o("SetFee", "admin", d="ustars", a=5), o("ApprAll", "alice", co="colla"), o("ApprAll", "bobby", co="colla")]


def ask(s, tk, a, **kw):
    return o("SetAsk", s, c(5), co="colla", tk=tk, **det(a, **kw))


def bid(s, tk, a, nid, f=None, **kw):
    d = kw.get("d", "ustars")
    return o("SetBid", s, f if f is not None else c((a, d)), co="colla", tk=tk, nid=nid, **det(a, **kw))


def cbid(s, a, nid, f=None, **kw):
    d = kw.get("d", "ustars")
    return o("SetCBid", s, f if f is not None else c((a, d)), co="colla", nid=nid, **det(a, **kw))


def qq(q, **kw):
    r = dict(q=q, co="colla", tk="1", d="ustars", cr="", ids=[], lim=-1, desc=2, mk="", ma=0, mi="", xk="", xa=0, xi="")
    r.update(kw)
    return r


def B(id, prop, edits, needs, breaks, ops, asserts, queries=(), also=(), **cfg):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, sys="v2", cfg=dict(CFG, **cfg), ops=PRE + ops, asserts=asserts, queries=list(queries), also=list(also))


FIRST_MATCH = """        // If a match is found finalize the sale
        funds = funds
            .sub(%s.details.price.clone())"""

BUGS = [
    B("v2-tie-to-collection-bid", "A04",
      [(O, "if bid.details.price.amount >= collection_bid.details.price.amount {", "if bid.details.price.amount > collection_bid.details.price.amount {")],
      "a token bid and a collection bid of equal price both crossing a new ask", "a collection bid wins the tie against a token bid",
      [bid("bobby", "1", 50, "b1"), cbid("carol", 50, "c1"), ask("alice", "1", 40)],
      [("ok(6)", "the ask is accepted"), ("'b1' not in st(6)['bids'] and 'c1' in st(6)['cbids']", "the token bid wins the tie"), ("st(6)['own']['colla/1'] == 'bobby'", "its bidder gets the token")]),
    B("v2-collection-bid-takes-dearest-ask", "A04",
      [(O, "                descending: Some(false),\n                limit: Some(1),\n                min: None,", "                descending: Some(true),\n                limit: Some(1),\n                min: None,")],
      "a collection bid crossing two asks of different price", "a collection bid buys the most expensive ask it can pay instead of the cheapest",
      [ask("alice", "1", 30), ask("alice", "3", 40), cbid("carol", 50, "c1")],
      [("'colla/1' not in st(6)['asks'] and 'colla/3' in st(6)['asks']", "the cheapest ask is bought"), ("got(6,'carol') == -30", "at its price")]),
    B("v2-collection-bid-update-no-difference", "A01",
      [(X, "    let match_result = collection_bid.match_with_ask(deps.as_ref())?;\n\n    if let Some(ask) = match_result {\n" + FIRST_MATCH % "ask",
        "    let match_result = collection_bid.match_with_ask(deps.as_ref())?;\n\n    if let Some(ask) = match_result {\n" + FIRST_MATCH % "collection_bid")],
      "a resting collection bid raised above a resting ask", "the difference between the raised collection bid and the ask's price is stranded in the contract",
      [ask("alice", "1", 60), cbid("carol", 50, "c1"), o("UpdCBid", "carol", c(30), id="c1", **det(80))],
      [("ok(6)", "the update trades"), ("bal(6,'mkt') == 0", "nothing is left in the contract"), ("bal(6,'carol') == %d - 60" % START, "the buyer paid the ask's price")], also=["A04"]),
    B("v2-royalty-cap-zero-means-none", "A03",
      [(H, "            min(\n                royalty_entry.share,\n                Decimal::bps(config.max_royalty_fee_bps),\n            ),",
        "            if config.max_royalty_fee_bps == 0 {\n                royalty_entry.share\n            } else {\n                min(\n                    royalty_entry.share,\n                    Decimal::bps(config.max_royalty_fee_bps),\n                )\n            },")],
      "a maximum royalty of zero", "a zero royalty cap is taken for no cap at all",
      [bid("bobby", "1", 1000, "b1"), o("AccBid", "alice", id="b1", **det(1000))],
      [("ok(5)", "the sale happens"), ("got(5,'royal') == 0", "royalties are capped at zero"), ("got(5,'alice') == 900", "the seller gets the rest")], mr=0),
    B("v2-maker-taker-swapped-on-sell", "A03",
      [(H, "        (&bid_details.price, &bid_details.finder, &ask.details.finder)", "        (&bid_details.price, &ask.details.finder, &bid_details.finder)")],
      "a seller's message that trades, with a finder named by exactly one side or by both", "maker and taker are swapped when the bid was resting",
      [bid("bobby", "1", 10000, "b1", fi="findx"), ask("alice", "1", 9000, fi="findy")],
      [("got(5,'findx') == 400", "the resting bid's finder is the maker's"), ("got(5,'findy') == 100", "the new ask's finder is the taker's")]),
    B("v2-accept-ask-any-denom", "A05",
      [(X, "        has_coins(&[details.price.clone()], &ask.details.price),\n        ContractError::InvalidInput(\"ask price is greater than max input\".to_string())",
        "        details.price.amount >= ask.details.price.amount,\n        ContractError::InvalidInput(\"ask price is greater than max input\".to_string())")],
      "a maximum stated in another denom than the ask's, with funds in the ask's denom attached", "the buyer's maximum is compared without its denom",
      [ask("alice", "1", 30), o("AccAsk", "bobby", c(30), id="colla/1", **det(50, d="uatom"))],
      [("not ok(5)", "a maximum in another denom does not cover the ask"), ("st(5)['own']['colla/1'] == 'mkt'", "the token stays listed")]),
    B("v2-accept-ask-keeps-other-denoms", "A01",
      [(X, "        true,\n        Response::new(),\n    )?;\n\n    // Transfer remaining funds back to user\n    if !funds.is_empty() {\n        response = transfer_coins(funds.into_vec(), &info.sender, response);",
        "        true,\n        Response::new(),\n    )?;\n\n    // Transfer remaining funds back to user\n    funds.0.retain(|c| c.denom == ask.details.price.denom);\n    if !funds.is_empty() {\n        response = transfer_coins(funds.0, &info.sender, response);")],
      "accepting an ask with coins of a second denom attached", "excess coins of other denoms are not returned to the buyer",
      [ask("alice", "1", 30), o("AccAsk", "bobby", [{"d": "uatom", "a": 7}, {"d": "ustars", "a": 30}], id="colla/1", **det(30))],
      [("ok(5)", "the purchase succeeds"), ("bal(5,'mkt','uatom') == 0", "nothing stays in the contract"), ("bal(5,'bobby','uatom') == %d" % START, "the excess is returned")]),
    B("v2-creator-is-admin-when-unset", "A06",
      [(H, "    if contract_info_resp.admin.is_none() {\n        Err(MarketplaceStdError::Unauthorized(\n            \"contract admin unset\".to_string(),\n        ))?;\n    }\n\n    ensure_eq!(\n        info.sender,\n        contract_info_resp.admin.unwrap(),",
        "    ensure_eq!(\n        info.sender,\n        contract_info_resp\n            .admin\n            .unwrap_or(contract_info_resp.creator),")],
      "a contract whose admin has been cleared", "once the admin is cleared, the contract's creator acts as admin",
      [o("SetAdmin", "admin", to=""), o("SetFee", "admin", d="ustars", a=1), o("UpdDenom", "admin", co="colla", d="uatom"), ask("alice", "1", 30)],
      [("st(4)['adm'] == ''", "the admin is cleared"), ("not ok(5) and not ok(6)", "nobody can administer the contract"), ("ok(7)", "the old listing fee and denom still hold")]),
    B("v2-ask-recipient-accepts-collection-bid", "A06",
      [(X, "    let ask_id = generate_id(vec![\n        collection_bid.collection.as_bytes(),\n        token_id.as_bytes(),\n    ]);\n    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;\n\n    // Check if the sender is the owner of the NFT, or if the creator of a valid ask\n    let ask = if let Some(ask) = ask_option {\n        if info.sender != ask.creator {",
        "    let ask_id = generate_id(vec![\n        collection_bid.collection.as_bytes(),\n        token_id.as_bytes(),\n    ]);\n    let ask_option = asks().may_load(deps.storage, ask_id.clone())?;\n\n    // Check if the sender is the owner of the NFT, or if the creator of a valid ask\n    let ask = if let Some(ask) = ask_option {\n        if info.sender != ask.creator && info.sender != ask.asset_recipient() {")],
      "an ask that names another recipient, who accepts a collection bid below the ask's price", "the recipient named by an ask can sell the token below the ask's price",
      [ask("alice", "1", 90, rc="carol"), cbid("bobby", 50, "c1"), o("AccCBid", "carol", id="c1", tk="1", **det(50))],
      [("not ok(6)", "only the ask's creator may accept"), ("'colla/1' in st(6)['asks']", "the ask stands")]),
    B("v2-reprice-skips-price-check", "A07",
      [(X, "    only_valid_price(deps.storage, &config, &bid.collection, &details.price)?;\n\n    let mut funds = NativeBalance(info.funds.clone());\n    funds.normalize();\n\n    // Add the previous price to the funds in context\n    funds = funds.add(bid.details.price.clone());",
        "    if details.price.denom != bid.details.price.denom || details.price.amount.is_zero() {\n        only_valid_price(deps.storage, &config, &bid.collection, &details.price)?;\n    }\n\n    let mut funds = NativeBalance(info.funds.clone());\n    funds.normalize();\n\n    // Add the previous price to the funds in context\n    funds = funds.add(bid.details.price.clone());")],
      "repricing a bid after the collection's denom has changed", "a bid keeps being repriced in a denom the collection no longer accepts",
      [bid("bobby", "1", 50, "b1"), o("UpdDenom", "admin", co="colla", d="uatom"), o("UpdBid", "bobby", c(10), id="b1", **det(60))],
      [("not ok(6)", "the price is no longer in the collection's denom"), ("st(6)['bids']['b1']['a'] == 50", "the bid is unchanged")]),
    B("v2-listing-fee-at-least", "A07",
      [(X, "        ensure_eq!(\n            listing_payment.amount,\n            _listing_fee,\n            ContractError::InvalidInput(\"payment amount does not match listing fee\".to_string())\n        );",
        "        ensure!(\n            listing_payment.amount >= _listing_fee,\n            ContractError::InvalidInput(\"payment amount does not match listing fee\".to_string())\n        );")],
      "a listing with more than the listing fee attached", "an overpaid listing fee is accepted and kept",
      [o("SetAsk", "alice", c(8), co="colla", tk="1", **det(30))],
      [("not ok(4)", "only the exact fee is accepted"), ("bal(4,'alice') == %d" % START, "nothing is taken")]),
    B("v2-bid-id-per-creator", "A07",
      [(O, "                token_id.as_bytes(),\n                height.to_be_bytes().as_ref(),\n                nonce.to_be_bytes().as_ref(),",
        "                token_id.as_bytes(),\n                creator.as_bytes(),\n                (height + 0 * nonce).to_be_bytes().as_ref(),")],
      "two bids of one bidder on one token in the same block", "a second bid on the same token in the same block is refused",
      [bid("bobby", "1", 50, "b1"), bid("bobby", "1", 60, "b2"), bid("carol", "1", 50, "b3")],
      [("ok(4) and ok(5) and ok(6)", "every funded bid is accepted"), ("len(st(6)['bids']) == 3", "all of them rest")]),
    B("v2-rewards-checked-separately", "A08",
      [(S, "            (self.maker_reward_bps + self.taker_reward_bps) < MAX_BASIS_POINTS,", "            self.maker_reward_bps < MAX_BASIS_POINTS && self.taker_reward_bps < MAX_BASIS_POINTS,")],
      "finder rewards that are below 100% each but not together", "a configuration whose rewards exceed the protocol fee is accepted",
      [o("UpdConfig", "admin", cfg=dict(CFG, mk=6000, tk=5000))],
      [("not ok(4)", "rewards above 100% together are refused"), ("st(4)['cfg']['mk'] == 4000", "the configuration is unchanged")]),
    B("v2-collection-bids-lookup-stops", "A09",
      [(Q, "        let collection_bid = collection_bids().may_load(deps.storage, id)?;\n        if let Some(collection_bid) = collection_bid {\n            retval.push(collection_bid);\n        }",
        "        match collection_bids().may_load(deps.storage, id)? {\n            Some(collection_bid) => retval.push(collection_bid),\n            None => break,\n        }")],
      "looking up several collection bids of which an earlier one is gone", "a lookup by ids stops at the first closed collection bid",
      [cbid("bobby", 50, "c1"), cbid("carol", 40, "c2"), o("RemCBid", "bobby", id="c1")],
      [("q(0) == ['c2']", "the open one is found"), ("q(1) == ['c2']", "in any order")],
      queries=[qq("cbids", ids=["c1", "c2"]), qq("cbids", ids=["c2", "c1"])]),
    B("v2-creator-list-ignores-bound", "A09",
      [(Q, "    let results = bids()\n        .idx\n        .creator_collection\n        .prefix((creator, collection))\n        .range(deps.storage, min, max, order)",
        "    let bounded = min.is_some();\n    let results = bids()\n        .idx\n        .creator_collection\n        .prefix((creator, collection))\n        .range(deps.storage, min, max.filter(|_| !bounded), order)")],
      "a creator's bids listed with both a minimum and a maximum", "the maximum is ignored when a minimum is given too",
      [bid("bobby", "1", 50, "b1"), bid("bobby", "1", 60, "b2"), bid("bobby", "3", 40, "b3")],
      [("len(q(0)) == 3", "all bids"), ("q(1) == [] and q(2) == []", "an interval from a bid to itself, excluding it, is empty")],
      queries=[qq("bidsCr", cr="bobby"), qq("bidsCr", cr="bobby", mk="inc", mi="b1", xk="exc", xi="b1"), qq("bidsCr", cr="bobby", mk="inc", mi="b2", xk="exc", xi="b2")]),
    B("v2-cancel-needs-accepted-denom", "A10",
      [(X, "    let refund = collection_bid.details.price.clone();",
        "    let config = CONFIG.load(deps.storage)?;\n    let refund = collection_bid.details.price.clone();\n    only_valid_price(deps.storage, &config, &collection_bid.collection, &refund)?;".replace("    let refund = collection_bid.details.price.clone();", "    let refund = Coin::clone(&collection_bid.details.price);"))],
      "cancelling a collection bid after the collection's denom has changed", "a collection bid in a denom no longer accepted cannot be cancelled",
      [cbid("bobby", 50, "c1"), o("UpdDenom", "admin", co="colla", d="uatom"), o("RemCBid", "bobby", id="c1")],
      [("ok(6)", "the creator can always cancel"), ("got(6,'bobby') == 50", "and is refunded")]),
    B("v2-redenominated-bid-not-refunded", "A10",
      [(X, "    funds = funds.add(bid.details.price.clone());", "    if bid.details.price.denom == details.price.denom {\n        funds = funds.add(bid.details.price.clone());\n    }")],
      "updating a bid into a new denom after the collection's denom has changed", "the escrow of the old denom stays in the contract when a bid changes denom",
      [bid("bobby", "1", 50, "b1"), o("UpdDenom", "admin", co="colla", d="uatom"), o("UpdBid", "bobby", c((40, "uatom")), id="b1", **det(40, d="uatom"))],
      [("ok(6)", "the bid moves to the new denom"), ("got(6,'bobby','ustars') == 50 and got(6,'bobby','uatom') == -40", "the old price is returned, the new one taken")], also=["A01"]),
    B("v2-sale-event-shows-bid-price", "A11",
      [(H, "        .add_attribute(\"price\", sale_price.amount.to_string())", "        .add_attribute(\"price\", bid_details.price.amount.to_string())")],
      "a buy whose stated price is above the ask it takes", "the sale event reports the buyer's limit instead of the price paid",
      [ask("alice", "1", 30), bid("bobby", "1", 50, "b1")],
      [("ev(5,'finalize-sale')[0]['price'] == '30'", "the event states the price paid")]),
    B("v2-ask-left-after-accepted-bid", "A02",
      [(H, "    ask.remove(deps.storage)?;\n    match &matching_bid {", "    if ask_before_bid {\n        ask.remove(deps.storage)?;\n    }\n    match &matching_bid {")],
      "a bid below the ask's price accepted by the ask's creator", "the ask stays in the book although its token has been sold",
      [ask("alice", "1", 90), bid("bobby", "1", 50, "b1"), o("AccBid", "alice", id="b1", **det(50))],
      [("ok(6) and st(6)['own']['colla/1'] == 'bobby'", "the sale happens"), ("'colla/1' not in st(6)['asks']", "the ask is gone")]),
    B("v2-removed-ask-returns-to-creator", "A02",
      [(X, "    let mut response = transfer_nft(\n        &ask.collection,\n        &ask.token_id,\n        &ask.asset_recipient(),\n        Response::new(),\n    );",
        "    let mut response = transfer_nft(\n        &ask.collection,\n        &ask.token_id,\n        &info.sender,\n        Response::new(),\n    );")],
      "removing an ask that names a recipient", "a removed ask's token ignores the recipient the ask names",
      [ask("alice", "1", 90, rc="carol"), o("RemAsk", "alice", id="colla/1")],
      [("ok(5) and st(5)['own']['colla/1'] == 'carol'", "the recipient named by the ask gets the token")]),
    B("v2-buy-now-rests", "A05",
      [(X, "            &MatchingBid::CollectionBid(collection_bid),\n            true,\n            response,\n        )?;\n    } else if buy_now {",
        "            &MatchingBid::CollectionBid(collection_bid),\n            true,\n            response,\n        )?;\n    } else if buy_now && collection_bid.details.recipient.is_none() {")],
      "an immediate collection purchase with a recipient and no matching ask", "a buy-now with a named recipient rests in the book",
      [o("BuyColl", "bobby", c(50), co="colla", nid="c1", **det(50, rc="carol"))],
      [("not ok(4)", "it trades at once or fails"), ("st(4)['cbids'] == {} and bal(4,'mkt') == 0", "nothing rests")]),
]
