"""Planted bugs of the reserve auction."""
P = "contracts/reserve-auction/src/"
X, H, Q, S, U = P + "execute.rs", P + "helpers.rs", P + "query.rs", P + "state.rs", P + "sudo.rs"
CFG = dict(fb="faira", tf=2000000, mi=1000000, mn=10, mx=100, ex=5, fd="ustars", fa=0, lim=2, th=30, bu=15, po=20, m=[{"d": "ustars", "a": 1}, {"d": "uatom", "a": 50}])
START = 100000000
T = [("colla", "0", "alice"), ("colla", "1", "bobby"), ("colla", "10", "alice"), ("colla", "2", "bobby"), ("collb", "1", "alice"), ("collb", "7", "bobby")]


def c(a, d="ustars"):
    return [{"d": d, "a": a}] if a else []


def o(k, s="", f=(), **kw):
    r = dict(k=k, s=s, f=list(f))
    r.update(kw)
    return r


def tk(i):
    return dict(co=T[i][0], tk=T[i][1])


def appr(i):
    return o("Appr", T[i][2], ex=-1, **tk(i))


def create(i, a=10, du=10, fr="", d="ustars", f=()):
    return o("Create", T[i][2], f, d=d, a=a, du=du, fr=fr, **tk(i))


def auction(i, **kw):
    return [appr(i), create(i, **kw)]


def bid(i, u, a, d="ustars"):
    return o("Bid", u, c(a, d), **tk(i))


def settle(i, u="david"):
    return o("Settle", u, **tk(i))


def tick(ms):
    return o("Tick", dt=ms)


END, BEGIN = o("End"), o("Begin")


def qq(q, **kw):
    r = dict(q=q, us="alice", et=0, lim=-1, desc=False, dnull=False, noopt=False, cur=0, cc="", ct="", page=0)
    r.update(kw)
    return r


def B(id, prop, edits, needs, breaks, ops, asserts, queries=(), also=(), **cfg):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, sys="ra", cfg=dict(CFG, **cfg), ops=ops, asserts=asserts, queries=list(queries), also=list(also))


BUGS = [
    B("ra-self-outbid-not-refunded", "C01",
      [(X, """            response = response.add_submessage(checked_transfer_coin(
                previous_high_bid.coin.clone(),
                &previous_high_bid.bidder,
            )?);
""", """            let bidder = &auction.seller_funds_recipient;
            if bidder.as_ref() != Some(&previous_high_bid.bidder) {
                response = response.add_submessage(checked_transfer_coin(
                    previous_high_bid.coin.clone(),
                    &previous_high_bid.bidder,
                )?);
            }
""")],
      "an auction whose funds recipient bids and is then outbid", "the seller's funds recipient is not refunded when outbid",
      auction(0, fr="carol") + [bid(0, "carol", 50), bid(0, "david", 80)],
      [("ok(4)", "the higher bid stands"), ("got(4,'carol') == 50", "the outbid bidder is refunded"), ("bal(4,'auct') == 80", "only the high bid is held")]),
    B("ra-cancel-to-funds-recipient", "C02",
      [(X, "        .add_submessage(transfer_nft(&collection, token_id, &auction.seller));", "        .add_submessage(transfer_nft(\n            &collection,\n            token_id,\n            &auction.funds_recipient(),\n        ));")],
      "cancelling an auction with a funds recipient", "a cancelled auction's NFT goes to the funds recipient",
      auction(0, fr="carol") + [o("Cancel", "alice", **tk(0))],
      [("ok(3) and st(3)['own']['colla/0'] == 'alice'", "the seller gets the token back")]),
    B("ra-increment-rounds-down", "C03",
      [(S, "                .mul_ceil(Decimal::one() + min_bid_increment_percent),", "                .mul_floor(Decimal::one() + min_bid_increment_percent),")],
      "a bid that beats a small high bid by less than the rounded-up increment", "the minimum increment is rounded down, so an equal bid outbids",
      auction(0) + [bid(0, "carol", 50), bid(0, "david", 50)],
      [("not ok(4)", "an equal bid does not outbid")]),
    B("ra-seller-bids-when-paid-elsewhere", "C03",
      [(X, "        auction.seller != info.sender,\n        ContractError::SellerShouldNotBid {}", "        auction.funds_recipient() != info.sender,\n        ContractError::SellerShouldNotBid {}")],
      "an auction with a funds recipient on which the seller bids", "the seller can bid when the proceeds go elsewhere, and the recipient cannot",
      auction(0, fr="carol") + [bid(0, "alice", 50), bid(0, "carol", 60)],
      [("not ok(3)", "the seller must not bid"), ("ok(4)", "the recipient may")]),
    B("ra-extends-at-exact-period", "C04",
      [(X, "            if time_remaining < config.extend_duration {", "            if time_remaining <= config.extend_duration {")],
      "a later bid exactly the extension period (in whole seconds) before the end, within a second", "the end moves although the extension period remains",
      auction(0) + [bid(0, "carol", 50), tick(5700), bid(0, "david", 80)],
      [("ok(5) and st(5)['auc']['colla/0']['en'] == 10000", "the end does not move")]),
    B("ra-second-bid-restarts-clock", "C04",
      [(X, "                auction.end_time = Some(block_time.plus_seconds(config.extend_duration));", "                auction.end_time = Some(\n                    block_time.plus_seconds(config.extend_duration.min(auction.duration)),\n                );")],
      "an extension period longer than the auction's duration", "auctions shorter than the extension period are extended by less",
      auction(0, du=10) + [bid(0, "carol", 50), bid(0, "david", 80)],
      [("ok(4) and st(4)['auc']['colla/0']['en'] == 25000", "the end is a full extension away")], ex=25),
    B("ra-recipient-bid-pays-seller", "C05",
      [(H, "        &auction.funds_recipient(),\n", "        &(if auction.funds_recipient() == high_bid.bidder {\n            auction.seller.clone()\n        } else {\n            auction.funds_recipient()\n        }),\n")],
      "an auction won by the seller's funds recipient", "the proceeds go to the seller instead of the named recipient",
      auction(0, fr="carol") + [bid(0, "carol", 50), tick(10000), settle(0)],
      [("ok(5) and got(5,'alice') == 0", "the seller named someone else"), ("got(5,'carol') > 0", "the recipient is paid")]),
    B("ra-limit-zero-settles-one", "C06",
      [(U, "        .range(deps.storage, None, max, order)\n        .take(limit)", "        .range(deps.storage, None, max, order)\n        .take(limit.max(1))")],
      "a limit of zero auctions per block", "a limit of zero still settles one auction in every block",
      auction(0) + [bid(0, "carol", 50), tick(10000), END],
      [("ok(5) and 'colla/0' in st(5)['auc']", "the limit is zero")], lim=0),
    B("ra-halt-start-inclusive", "C07",
      [(S, "            if block_time > halt_info.start_time && block_time < halt_info.end_time {", "            if block_time >= halt_info.start_time && block_time < halt_info.end_time {")],
      "an auction ending in the very second of the last block before a halt", "an auction that ended with the last block before a halt is postponed",
      [BEGIN] + auction(0) + [bid(0, "carol", 50), tick(10000), BEGIN, tick(40000), BEGIN, settle(0)],
      [("ok(9) and 'colla/0' not in st(9)['auc']", "it ended before the halt and settles")]),
    B("ra-only-first-halt-counts", "C07",
      [(S, "        for halt_info in &self.halt_windows {", "        for halt_info in self.halt_windows.iter().take(1) {")],
      "two halts, an auction ending in the second", "only the oldest recorded halt postpones auctions",
      [BEGIN] + auction(0, du=20) + auction(1, du=70) + [bid(0, "carol", 50), bid(1, "carol", 50), tick(40000), BEGIN, tick(5000), BEGIN, tick(40000), BEGIN, settle(1)],
      [("ok(14) and 'colla/1' in st(14)['auc']", "its end fell in a halt: it is postponed")]),
    B("ra-cancel-while-unended", "C08",
      [(X, """    // Ensure auction hasn't started
    ensure!(
        auction.first_bid_time.is_none(),
        ContractError::AuctionStarted {}
    );

    // Remove auction from storage""", """    // Ensure auction hasn't started
    ensure!(
        auction
            .high_bid
            .as_ref()
            .map_or(true, |b| b.bidder == auction.funds_recipient()),
        ContractError::AuctionStarted {}
    );

    // Remove auction from storage""")],
      "an auction whose only bidder is its funds recipient", "the seller can cancel a started auction, its bid staying in the contract",
      auction(0, fr="carol") + [bid(0, "carol", 50), o("Cancel", "alice", **tk(0))],
      [("not ok(4)", "the auction has started")]),
    B("ra-free-creation-keeps-coins", "C09",
      [(X, "        // If create auction fee is zero, ensure no payment is sent\n        nonpayable(&info)?;", "        // If create auction fee is zero, ensure no payment is sent\n        if info.funds.iter().any(|c| c.denom == config.create_auction_fee.denom) {\n            nonpayable(&info)?;\n        }")],
      "a free creation with coins of another denom than the zero fee's attached", "coins attached to a free creation are accepted and stranded",
      [appr(0), create(0, f=c(5, "uatom"))],
      [("not ok(2)", "nothing may be attached"), ("bal(2,'auct','uatom') == 0", "nothing is stranded")]),
    B("ra-duration-up-to-extension", "C09",
      [(X, "        duration >= config.min_duration && duration <= config.max_duration,", "        duration >= config.min_duration\n            && duration <= config.max_duration.max(config.extend_duration),")],
      "an extension period longer than the maximum duration", "durations beyond the maximum are admitted up to the extension period",
      auction(0, du=110),
      [("not ok(2)", "the maximum duration holds")], ex=120),
    B("ra-end-time-cursor-loses-collection", "C10",
      [(Q, "                    (end_time, (Addr::unchecked(sa.collection), sa.token_id))", "                    (end_time, (Addr::unchecked(\"\"), sa.token_id))")],
      "paging auctions that end in the same second", "the by-end-time list repeats auctions ending in the cursor's second",
      auction(0) + auction(4) + [bid(0, "carol", 50), bid(4, "carol", 50)],
      [("q(0) == ['collb/1']", "the page continues after the cursor")], queries=[qq("end", et=10, cur=1, cc="colla", ct="0")]),
    B("ra-fee-event-old-value", "C12",
      [(U, "        config.create_auction_fee = create_auction_fee;\n        event = event.add_attribute(\"create_auction_fee\", config.create_auction_fee.to_string());",
        "        event = event.add_attribute(\"create_auction_fee\", config.create_auction_fee.to_string());\n        config.create_auction_fee = create_auction_fee;")],
      "a change of the creation fee", "the event names the old creation fee",
      [o("UpdParams", p=dict(fd="ustars", fa=9))],
      [("ok(1) and ev(1,'sudo-update-params')[0]['create_auction_fee'] == '9ustars'", "the new fee is reported")]),
    B("ra-bid-event-end-before-extension", "C12",
      [(X, """            let time_remaining = auction.end_time.unwrap().seconds() - block_time.seconds();
""", """            let old_end_time = auction.end_time;
            let time_remaining = old_end_time.unwrap().seconds() - block_time.seconds();
"""),
       (X, """                attr("first_bid", false.to_string()),
                attr(
                    "auction_end_time",
                    auction.end_time.as_ref().unwrap().to_string(),
                ),
""", """                attr("first_bid", false.to_string()),
                attr(
                    "auction_end_time",
                    old_end_time.as_ref().unwrap().to_string(),
                ),
""")],
      "a bid that extends the auction", "the bid's event names the end before the extension",
      auction(0) + [bid(0, "carol", 50), tick(8000), bid(0, "david", 80)],
      [("ok(5) and ev(5,'place-bid')[0]['auction_end_time'] == '13000'", "the new end is reported")]),
    B("ra-settle-event-names-payee", "C12",
      [(H, "            .add_attribute(\"seller\", auction.seller)\n", "            .add_attribute(\n                \"seller\",\n                auction.seller_funds_recipient.unwrap_or(auction.seller),\n            )\n")],
      "a settled auction with a funds recipient", "the settlement's event names the funds recipient as seller",
      auction(0, fr="carol") + [bid(0, "david", 50), tick(10000), settle(0)],
      [("ok(5) and ev(5,'settle-auction')[0]['seller'] == 'alice'", "the seller is reported")]),
]
