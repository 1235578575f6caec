"""Planted bugs of the V1 marketplace."""
P = "contracts/marketplace/src/"
X, H, Q, S, U = P + "execute.rs", P + "helpers.rs", P + "query.rs", P + "state.rs", P + "sudo.rs"
CFG = dict(tf=200, an=60, ax=5000, bn=60, bx=2000, mf=1000, mn=5, sd=100, rw=500, lf=0, ops=["opera"], sh="", ht=False)
START = 100000000


def c(a, d="ustars"):
    return [{"d": d, "a": a}] if a else []


def o(k, s="admin", f=(), **kw):
    r = dict(k=k, s=s, f=list(f))
    r.update(kw)
    return r


def appr(s, co, tk):
    return o("Appr", s, co=co, tk=tk, ex=-1)


def ask(s, tk, a, co="colla", ty="fixed_price", fr="", rf="", ff=-1, ex=1000000, f=()):
    return o("SetAsk", s, f, co=co, tk=tk, ty=ty, a=a, d="ustars", fr=fr, rf=rf, ff=ff, ex=ex)


def bid(s, tk, a, co="colla", ty="auction", fi="", ff=-1, ex=1000000, k="SetBid", **kw):
    return o(k, s, c(a), co=co, tk=tk, ty=ty, fi=fi, ff=ff, ex=ex, **kw)


def cbid(s, a, co="colla", ff=-1, ex=1000000):
    return o("SetCBid", s, c(a), co=co, ff=ff, ex=ex)


def qq(q, **kw):
    r = dict(q=q, co="colla", tk="0", us="alice", inact=-1, lim=-1, cur=0, ca=0, ct="0", cu="", cc="", page=0)
    r.update(kw)
    return r


def info(stt=-1, rr="royal", rs=5000000, ok=True, ft=False, co="colla"):
    return o("SetInfo", co=co, info=dict(stt=stt, rr=rr, rs=rs, ok=ok, ft=ft))


# tokens: colla/0 alice, colla/1 bobby, colla/2 alice, collb/1 bobby, collb/7 alice
PRE = [appr("alice", "colla", "0"), appr("bobby", "colla", "1"), appr("alice", "colla", "2")]


def B(id, prop, edits, needs, breaks, ops, asserts, queries=(), also=(), **cfg):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, sys="v1", cfg=dict(CFG, **cfg), ops=PRE + ops, asserts=asserts, queries=list(queries), also=list(also))


BUGS = [
    B("v1-same-price-bid-not-refunded", "B01",
      [(X, """        let refund_bidder = BankMsg::Send {
            to_address: bidder.to_string(),
            amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],
        };
        res = res.add_message(refund_bidder)
""", """        if existing_bid.price != bid_price {
            res = res.add_message(BankMsg::Send {
                to_address: bidder.to_string(),
                amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],
            })
        }
""")],
      "a bidder renewing a bid with the same amount", "replacing a bid by one of the same price does not refund the first",
      [bid("carol", "0", 40), bid("carol", "0", 40, ex=1500000)],
      [("ok(5)", "the bid is renewed"), ("bal(5,'mkt') == 40", "one bid is escrowed"), ("got(5,'carol') == 0", "the old one is refunded")]),
    B("v1-collection-bid-lower-refund", "B01",
      [(X, "            to_address: bid.bidder.to_string(),\n            amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],\n        };\n        res = res.add_message(refund_bidder_msg);",
        "            to_address: bid.bidder.to_string(),\n            amount: vec![coin(bid.price.min(price).u128(), NATIVE_DENOM)],\n        };\n        res = res.add_message(refund_bidder_msg);")],
      "a collection bid replaced by a lower one", "lowering a collection bid refunds only the new price",
      [cbid("carol", 90), cbid("carol", 40)],
      [("ok(5)", "the bid is lowered"), ("bal(5,'mkt') == 40", "only the new price is escrowed")]),
    B("v1-royalty-after-finder", "B02",
      [(X, "            let amount = coin((payment * royalty.share).u128(), NATIVE_DENOM);",
        "            let amount = coin(\n                ((payment - Uint128::from(finders_fee)) * royalty.share).u128(),\n                NATIVE_DENOM,\n            );")],
      "a sale with a finder and royalties", "royalties are computed after the finder's fee",
      [ask("alice", "0", 10000, ff=1000), bid("carol", "0", 10000, fi="findx")],
      [("ok(5) and got(5,'royal') == 500", "royalties are 5% of the price")]),
    B("v1-reserved-for-recipient", "B03",
      [(X, "            if reserved_for != bidder {", "            if reserved_for != *asset_recipient.as_ref().unwrap_or(&bidder) {")],
      "a buy-for of a reserved ask", "anyone may buy a reserved ask in favour of the reserved user, who in turn cannot buy it for another",
      [ask("alice", "0", 40, rf="bobby"), bid("carol", "0", 40, k="BuyFor", ar="bobby")],
      [("not ok(5)", "only the reserved user can buy")]),
    B("v1-buy-for-skips-owner-check", "B03",
      [(X, "                        if ask.seller != owner {", "                        if ask.seller != owner && asset_recipient.is_none() {")],
      "a token transferred after listing to someone who has the marketplace approved for all, and a buy-for", "buy-for executes a stale ask of a former owner, who is paid for another's token",
      [ask("alice", "0", 40), o("ApprAll", "bobby", co="colla"), o("Xfer", "alice", co="colla", tk="0", to="bobby"), bid("carol", "0", 40, k="BuyFor", ar="david")],
      [("not ok(7)", "the lister no longer owns the token"), ("st(7)['own']['colla/0'] == 'bobby'", "its owner keeps it")]),
    B("v1-auction-reserve-exclusive", "B03",
      [(X, "                    Ordering::Equal => save_bid(deps.storage)?,\n                    Ordering::Less => {\n                        return Err(ContractError::InvalidPrice {});",
        "                    Ordering::Equal if !buy_now => save_bid(deps.storage)?,\n                    _ => {\n                        return Err(ContractError::InvalidPrice {});")],
      "a buy-now of an auction ask at exactly its price", "buy-now at the price of an auction ask is refused",
      [ask("alice", "0", 40, ty="auction"), bid("carol", "0", 40, k="BuyNow")],
      [("ok(5) and st(5)['bids']['colla/0/carol']['a'] == 40", "the bid rests")]),
    B("v1-collection-bid-ask-expiry", "B04",
      [(X, "        return Err(ContractError::PriceTooSmall(price));\n    }\n    params.bid_expiry.is_valid(&env.block, expires)?;",
        "        return Err(ContractError::PriceTooSmall(price));\n    }\n    params.ask_expiry.is_valid(&env.block, expires)?;")],
      "different expiry ranges for asks and bids", "collection bids are held to the asks' expiry range",
      [cbid("carol", 40, ex=3000000), cbid("carol", 40, ex=1000000)],
      [("not ok(4)", "an expiry beyond the bids' range is refused"), ("ok(5)", "one within is accepted")]),
    B("v1-bid-key-keeps-later-expiry", "B04",
      [(X, "        price,\n        finders_fee_bps,\n        expires_at: expires,\n    };\n    collection_bids().save(",
        "        price,\n        finders_fee_bps,\n        expires_at: collection_bids()\n            .may_load(deps.storage, key.clone())?\n            .map_or(expires, |b| b.expires_at),\n    };\n    collection_bids().save("),
       (X, "        collection_bids().remove(deps.storage, key.clone())?;\n        let refund_bidder_msg", "        let refund_bidder_msg")],
      "a collection bid replaced with another expiry", "a replaced collection bid keeps its old expiry",
      [cbid("carol", 40, ex=1000000), cbid("carol", 45, ex=1500000)],
      [("ok(5) and st(5)['cbids']['colla/carol']['ex'] == 1500000", "the new expiry counts")]),
    B("v1-expires-a-moment-late", "B05",
      [(S, "        self.expires_at() <= block.time", "        self.expires_at() < block.time")],
      "a bid accepted in the very block of its expiry time", "orders are still live at the moment they expire",
      [bid("carol", "0", 40, ex=100000), o("Tick", dt=100000), o("AccBid", "alice", co="colla", tk="0", us="carol", fi="")],
      [("not ok(6)", "the bid has expired")]),
    B("v1-listed-bid-never-expires", "B05",
      [(X, "    if bid.is_expired(&env.block) {\n        return Err(ContractError::BidExpired {});\n    }\n\n    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {\n        asks().remove(deps.storage, ask_key)?;\n    }",
        "    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {\n        asks().remove(deps.storage, ask_key)?;\n    } else if bid.is_expired(&env.block) {\n        return Err(ContractError::BidExpired {});\n    }")],
      "an expired bid on a token that is listed", "an expired bid can be accepted if the token has an ask",
      [ask("alice", "0", 90), bid("carol", "0", 40, ex=100000), o("Tick", dt=100001), o("AccBid", "alice", co="colla", tk="0", us="carol", fi="")],
      [("not ok(7)", "the bid has expired")]),
    B("v1-collection-bid-stale-at-expiry", "B06",
      [(X, "    let stale_time = (Expiration::AtTime(collection_bid.expires_at) + params.stale_bid_duration)?;", "    let stale_time = Expiration::AtTime(collection_bid.expires_at);")],
      "an operator acting on a collection bid between its expiry and the stale time", "operators can take a collection bid at once when it expires",
      [cbid("carol", 4000, ex=100000), o("Tick", dt=150000), o("StaleCBid", "opera", co="colla", us="carol")],
      [("not ok(6)", "the stale duration has not passed"), ("bal(6,'mkt') == 4000", "nothing is paid")]),
    B("v1-owner-removes-stale-bid", "B06",
      [(X, "    let operator = only_operator(deps.storage, &info)?;\n\n    let bid_key = bid_key(&collection, token_id, &bidder);",
        "    let operator = match only_operator(deps.storage, &info) {\n        Ok(operator) => operator,\n        Err(e) => {\n            only_owner(deps.as_ref(), &info, &collection, token_id).map_err(|_| e)?;\n            info.sender.clone()\n        }\n    };\n\n    let bid_key = bid_key(&collection, token_id, &bidder);")],
      "the token's owner, no operator, and a stale bid", "a token's owner can remove stale bids and take the operator's reward",
      [bid("carol", "0", 4000, ex=100000), o("Tick", dt=250000), o("StaleBid", "alice", co="colla", tk="0", us="carol")],
      [("not ok(6)", "only operators remove stale bids")]),
    B("v1-listing-fee-at-least", "B07",
      [(X, "    if listing_fee != params.listing_fee {", "    if listing_fee < params.listing_fee {")],
      "a listing with more than the listing fee attached", "a listing fee above the configured one is accepted and burned",
      [ask("alice", "0", 90, f=c(8))],
      [("not ok(4)", "exactly the listing fee is due")], lf=7),
    B("v1-sale-hook-hears-recipient", "B09",
      [(X, "        .append(&mut prepare_sale_hook(deps, &ask, buyer.clone())?);", "        .append(&mut prepare_sale_hook(deps, &ask, recipient.clone())?);")],
      "a buy-for with a sale hook registered", "sale hooks are told the recipient as the buyer",
      [o("AddHook", h="sale", x="hooka"), ask("alice", "0", 40), bid("carol", "0", 40, k="BuyFor", ar="bobby")],
      [("out(6)['hooks'][0]['o']['by'] == 'carol'", "the buyer is who paid")]),
    B("v1-stale-bid-hook-says-update", "B09",
      [(X, "    let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;\n\n    let event = Event::new(\"remove-stale-bid\")",
        "    let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Update)?;\n\n    let event = Event::new(\"remove-stale-bid\")")],
      "a stale bid removed with a bid hook registered", "bid hooks are told that a removed stale bid was updated",
      [o("AddHook", h="bid", x="hooka"), bid("carol", "0", 4000, ex=100000), o("Tick", dt=250000), o("StaleBid", "opera", co="colla", tk="0", us="carol")],
      [("ok(7) and out(7)['hooks'][0]['ty'] == 'bid_deleted_hook'", "the hook hears of the removal")]),
    B("v1-bid-hook-failure-panics", "B09",
      [(X, "            3 => HookReply::Bid,\n            4 => HookReply::CollectionBid,", "            4 => HookReply::CollectionBid,")],
      "a bid hook that fails", "a failing bid hook blocks bids",
      [o("AddHook", h="bid", x="hooka"), o("HookBad", x="hooka", bad=True), bid("carol", "0", 40)],
      [("ok(6)", "the bid is placed all the same")]),
    B("v1-reverse-price-list-filters-late", "B10",
      [(Q, """        .range(deps.storage, None, end, Order::Descending)
        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
        .take(limit)
""", """        .range(deps.storage, None, end, Order::Descending)
        .take(limit)
        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
""")],
      "an inactive ask among the dearest and a limit", "inactive asks count towards the limit of the reverse price list",
      [ask("alice", "0", 40), ask("alice", "2", 90), o("Unap", "alice", co="colla", tk="2"), o("SyncAsk", "opera", co="colla", tk="2")],
      [("q(0) == ['colla/0']", "the page holds the active ask")], queries=[qq("asksPR", lim=1)]),
    B("v1-expiry-page-repeats-cursor", "B10",
      [(Q, "                Some(bid) => Some(Bound::exclusive((\n                    bid.expires_at.seconds(),\n                    bid_key(&collection, offset.token_id, &bidder),\n                ))),",
        "                Some(bid) => Some(Bound::exclusive((\n                    bid.expires_at.seconds(),\n                    bid_key(&collection, 0, &bidder),\n                ))),")],
      "paging a bidder's bids by expiry, several expiring in the same second", "the expiry-sorted list repeats bids that expire in the same second as the cursor",
      [bid("carol", "0", 40), bid("carol", "1", 40), bid("carol", "2", 40)],
      [("q(0) == ['colla/2/carol']", "the page continues after the cursor")], queries=[qq("bidsBE", us="carol", cur=1, cc="colla", ct="1", cu="carol", ca=40)]),
    B("v1-price-cursor-ignores-token", "B10",
      [(Q, "    let start = start_after.map(|offset| {\n        Bound::exclusive((offset.price.u128(), ask_key(&collection, offset.token_id)))\n    });",
        "    let start = start_after.map(|offset| {\n        Bound::exclusive((offset.price.u128(), ask_key(&collection, TokenId::MAX)))\n    });")],
      "paging asks of equal price", "the price-sorted ask list skips asks of the same price as the cursor",
      [ask("alice", "0", 40), ask("bobby", "1", 40), ask("alice", "2", 40)],
      [("q(0) == ['colla/1', 'colla/2']", "asks of the same price follow")], queries=[qq("asksP", cur=1, ca=40, ct="0", cc="colla")]),
    B("v1-bid-range-unchecked", "B11",
      [(U, "    bid_expiry.as_ref().map(|b| b.validate()).transpose()?;", "    ask_expiry.as_ref().map(|b| b.validate()).transpose()?;")],
      "an update of the bids' expiry range with min above max", "the bids' expiry range is not validated on update",
      [o("UpdParams", p=dict(bn=100, bx=50))],
      [("not ok(4) and st(4)['pr']['bn'] == 60", "an empty range is refused")]),
    B("v1-migrate-major-only", "B11",
      [(X, "    if version > new_version {", "    if version.major > new_version.major {")],
      "a migration from a contract of a later minor version", "downgrades within a major version are accepted",
      [o("Migrate", ver="minor+", other=False, name="")],
      [("not ok(4)", "a downgrade is refused")]),
    B("v1-sale-event-names-payee", "B12",
      [(X, "        .add_attribute(\"seller\", ask.seller.to_string())\n        .add_attribute(\"buyer\", buyer.to_string())",
        "        .add_attribute(\n            \"seller\",\n            ask.funds_recipient.as_ref().unwrap_or(&ask.seller).to_string(),\n        )\n        .add_attribute(\"buyer\", buyer.to_string())")],
      "a sale of an ask with a funds recipient", "the sale event names the funds recipient as seller",
      [ask("alice", "0", 40, fr="david"), bid("carol", "0", 40)],
      [("ok(5) and ev(5,'finalize-sale')[0]['seller'] == 'alice'", "the seller is the lister")]),
    B("v1-synced-event-inverted", "B12",
      [(X, "        .add_attribute(\"is_active\", ask.is_active.to_string());", "        .add_attribute(\"is_active\", (!ask.is_active || res.is_err()).to_string());")],
      "an ask synced to inactive", "the event of a deactivated ask says it is active",
      [ask("alice", "0", 40), o("Unap", "alice", co="colla", tk="0"), o("SyncAsk", "opera", co="colla", tk="0")],
      [("ok(6) and ev(6,'update-ask-state')[0]['is_active'] == 'false'", "the event says inactive")]),
]

