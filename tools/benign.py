#!/usr/bin/env python3
"""benign.py [--seed N] [GROUP ...]: behaviour-preserving refactorings of the contracts, applied in a scratch copy (see plant.py);
every check of the system must stay quiet on them."""
import json, os, sys
sys.argv, ARGV = [sys.argv[0], "--none"], sys.argv
import importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/tools/plant.py").read().rsplit("\nmain()", 1)[0]
P = {"__file__": V + "/tools/plant.py", "__name__": "plant"}
exec(compile(src, "plant.py", "exec"), P)
P["L"] = "/tmp/blane"
V2 = "contracts/stargaze-marketplace-v2/src/"
V1 = "contracts/marketplace/src/"
RA = "contracts/reserve-auction/src/"
CO = "packages/sg-marketplace-common/src/"
G = {}
G["v2"] = [
    # checks in another order
    (V2 + "execute.rs", """    only_owner(&deps.querier, &info, &collection, &token_id)?;
    only_tradable(&deps.querier, &env.block, &collection)?;

    let config = CONFIG.load(deps.storage)?;
    only_valid_price(deps.storage, &config, &collection, &details.price)?;

    // Check and collect listing fee
    let listing_payment = one_coin(&info)?;
    let listing_fee = LISTING_FEES.may_load(deps.storage, listing_payment.denom.clone())?;
    if let Some(_listing_fee) = listing_fee {
        ensure_eq!(
            listing_payment.amount,
            _listing_fee,
            ContractError::InvalidInput("payment amount does not match listing fee".to_string())
        );
    } else {
        Err(ContractError::InvalidInput(format!(
            "listing fee for {} not found",
            listing_payment.denom
        )))?;
    }
""", """    let config = CONFIG.load(deps.storage)?;

    // Check and collect listing fee
    let listing_payment = one_coin(&info)?;
    let due = LISTING_FEES
        .may_load(deps.storage, listing_payment.denom.clone())?
        .ok_or_else(|| ContractError::InvalidInput("no such listing fee".to_string()))?;
    if due != listing_payment.amount {
        return Err(ContractError::InvalidInput("not the listing fee".to_string()));
    }

    only_valid_price(deps.storage, &config, &collection, &details.price)?;
    only_tradable(&deps.querier, &env.block, &collection)?;
    only_owner(&deps.querier, &info, &collection, &token_id)?;
"""),
    # orders removed first, token before money
    (V2 + "helpers.rs", """    nft_sale_processor.build_payments()?;
    response = nft_sale_processor.payout(response);

    // Transfer NFT to buyer
    response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);

    // Remove orders
    ask.remove(deps.storage)?;
    match &matching_bid {
        MatchingBid::Bid(bid) => {
            bid.remove(deps.storage)?;
        }
        MatchingBid::CollectionBid(collection_bid) => {
            collection_bid.remove(deps.storage)?;
        }
    }
""", """    // Remove orders
    match &matching_bid {
        MatchingBid::CollectionBid(collection_bid) => collection_bid.remove(deps.storage)?,
        MatchingBid::Bid(bid) => bid.remove(deps.storage)?,
    }
    ask.remove(deps.storage)?;

    // Transfer NFT to buyer
    response = transfer_nft(&ask.collection, &ask.token_id, &nft_recipient, response);

    nft_sale_processor.build_payments()?;
    response = nft_sale_processor.payout(response);
"""),
    (V2 + "helpers.rs", """    if protocol_fees.protocol_fee == Decimal::zero() {
        return Ok(protocol_fees);
    }

    if maker_exists && config.maker_reward_bps > 0 {
        protocol_fees.maker_reward = Decimal::bps(config.protocol_fee_bps)
            .checked_mul(Decimal::bps(config.maker_reward_bps))?;
        protocol_fees.protocol_fee = protocol_fees.protocol_fee.sub(protocol_fees.maker_reward);
    }

    if taker_exists && config.taker_reward_bps > 0 {
        protocol_fees.taker_reward = Decimal::bps(config.protocol_fee_bps)
            .checked_mul(Decimal::bps(config.taker_reward_bps))?;
        protocol_fees.protocol_fee = protocol_fees.protocol_fee.sub(protocol_fees.taker_reward);
    }
""", """    let whole = protocol_fees.protocol_fee;
    if taker_exists {
        protocol_fees.taker_reward = whole.checked_mul(Decimal::bps(config.taker_reward_bps))?;
    }
    if maker_exists {
        protocol_fees.maker_reward = whole.checked_mul(Decimal::bps(config.maker_reward_bps))?;
    }
    protocol_fees.protocol_fee = whole
        .sub(protocol_fees.maker_reward)
        .sub(protocol_fees.taker_reward);
"""),
    (V2 + "query.rs", """    let mut retval = vec![];

    for id in ids {
        let ask = asks().may_load(deps.storage, id)?;
        if let Some(ask) = ask {
            retval.push(ask);
        }
    }

    Ok(retval)
""", """    let book = asks();
    ids.into_iter()
        .filter_map(|id| book.may_load(deps.storage, id).transpose())
        .collect()
"""),
    (V2 + "orders.rs", """            (Some(bid), Some(collection_bid)) => {
                if bid.details.price.amount >= collection_bid.details.price.amount {
                    Some(MatchingBid::Bid(bid))
                } else {
                    Some(MatchingBid::CollectionBid(collection_bid))
                }
            }
""", """            (Some(bid), Some(other)) if other.details.price.amount > bid.details.price.amount => {
                Some(MatchingBid::CollectionBid(other))
            }
            (Some(bid), Some(_)) => Some(MatchingBid::Bid(bid)),
"""),
    (V2 + "orders.rs", """            if has_coins(&[self.details.price.clone()], &ask.details.price) {
                return Ok(Some(ask));
            }
""", """            let (a, b) = (&ask.details.price, &self.details.price);
            if a.denom == b.denom && a.amount <= b.amount {
                return Ok(Some(ask));
            }
"""),
    (V2 + "orders.rs", "use cosmwasm_std::{attr, has_coins, Addr,", "use cosmwasm_std::{attr, Addr,"),
]
G["v1"] = [
    (V1 + "execute.rs", """    nonpayable(&info)?;
    only_owner(deps.as_ref(), &info, &collection, token_id)?;
    only_tradable(deps.as_ref(), &env.block, &collection)?;
    let bid_key = bid_key(&collection, token_id, &bidder);
    let ask_key = ask_key(&collection, token_id);

    let bid = bids().load(deps.storage, bid_key.clone())?;
    if bid.is_expired(&env.block) {
        return Err(ContractError::BidExpired {});
    }

    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }
""", """    only_tradable(deps.as_ref(), &env.block, &collection)?;
    let bid_key = bid_key(&collection, token_id, &bidder);
    let bid = bids().load(deps.storage, bid_key.clone())?;
    nonpayable(&info)?;
    let listing = asks().may_load(deps.storage, ask_key(&collection, token_id))?;
    if let Some(listing) = listing {
        asks().remove(deps.storage, ask_key(&listing.collection, listing.token_id))?;
    }
    if bid.is_expired(&env.block) {
        return Err(ContractError::BidExpired {});
    }
    only_owner(deps.as_ref(), &info, &collection, token_id)?;
"""),
    # token first, then money, then hooks; the event at the start
    (V1 + "execute.rs", """    payout(
        deps,
        ask.collection.clone(),
        price,
        ask.funds_recipient
            .clone()
            .unwrap_or_else(|| ask.seller.clone()),
        finder,
        ask.finders_fee_bps,
        res,
    )?;

    let recipient = asset_recipient.unwrap_or_else(|| buyer.clone());
""", """    let recipient = asset_recipient.unwrap_or_else(|| buyer.clone());
"""),
    (V1 + "execute.rs", """    res.messages.push(SubMsg::new(exec_cw721_transfer));

    res.messages
        .append(&mut prepare_sale_hook(deps, &ask, buyer.clone())?);
""", """    res.messages.push(SubMsg::new(exec_cw721_transfer));

    let payee = match &ask.funds_recipient {
        Some(someone) => someone.clone(),
        None => ask.seller.clone(),
    };
    payout(
        deps,
        ask.collection.clone(),
        price,
        payee,
        finder,
        ask.finders_fee_bps,
        res,
    )?;

    for hook in prepare_sale_hook(deps, &ask, buyer.clone())? {
        res.messages.push(hook);
    }
"""),
    (V1 + "execute.rs", """    if let Some(existing_bid) = bids().may_load(deps.storage, bid_key.clone())? {
        bids().remove(deps.storage, bid_key)?;
        let refund_bidder = BankMsg::Send {
            to_address: bidder.to_string(),
            amount: vec![coin(existing_bid.price.u128(), NATIVE_DENOM)],
        };
        res = res.add_message(refund_bidder)
    }

    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;
""", """    let existing_ask = asks().may_load(deps.storage, ask_key.clone())?;
    let former = bids().may_load(deps.storage, bid_key.clone())?;
    if former.is_some() {
        bids().remove(deps.storage, bid_key)?;
    }
    for old in former {
        res = res.add_message(BankMsg::Send {
            amount: vec![coin(old.price.u128(), NATIVE_DENOM)],
            to_address: old.bidder.to_string(),
        });
    }
"""),
    (V1 + "execute.rs", """                match bid_price.cmp(&ask.price) {
                    Ordering::Greater => save_bid(deps.storage)?,
                    Ordering::Equal => save_bid(deps.storage)?,
                    Ordering::Less => {
                        return Err(ContractError::InvalidPrice {});
                    }
                }
""", """                if ask.price > bid_price {
                    return Err(ContractError::InvalidPrice {});
                }
                save_bid(deps.storage)?
"""),
    (V1 + "execute.rs", """    let hook = if let Some(bid) = bid {
        prepare_bid_hook(deps.as_ref(), &bid, HookAction::Create)?
    } else {
        vec![]
    };

    let event = Event::new("set-bid")
        .add_attribute("collection", collection.to_string())
        .add_attribute("sale_type", sale_type.to_string())
        .add_attribute("token_id", token_id.to_string())
        .add_attribute("bidder", bidder)
""", """    let mut hook = vec![];
    if let Some(placed) = &bid {
        hook.extend(prepare_bid_hook(deps.as_ref(), placed, HookAction::Create)?);
    }

    let event = Event::new("set-bid")
        .add_attribute("bidder", bidder)
        .add_attribute("token_id", token_id.to_string())
        .add_attribute("sale_type", sale_type.to_string())
        .add_attribute("collection", collection.to_string())
"""),
    (V1 + "execute.rs", """        if !(expires""", """        if !(expires""") if False else
    (V1 + "helpers.rs", """        if !(expires > now.plus_seconds(self.min) && expires <= now.plus_seconds(self.max)) {
            return Err(ExpiryRangeError::InvalidExpirationRange {});
        }

        Ok(())
    }

    pub fn validate""", """        let (from, to) = (now.plus_seconds(self.min), now.plus_seconds(self.max));
        if expires <= from || to < expires {
            Err(ExpiryRangeError::InvalidExpirationRange {})
        } else {
            Ok(())
        }
    }

    pub fn validate"""),
    (V1 + "execute.rs", """    if price.amount.is_zero() || price.denom != NATIVE_DENOM {
        return Err(ContractError::InvalidPrice {});
    }

    if price.amount < SUDO_PARAMS.load(store)?.min_price {
        return Err(ContractError::PriceTooSmall(price.amount));
    }

    Ok(())
""", """    let least = SUDO_PARAMS.load(store)?.min_price;
    if price.amount < least {
        return Err(ContractError::PriceTooSmall(price.amount));
    }
    if price.denom == NATIVE_DENOM && !price.amount.is_zero() {
        return Ok(());
    }
    Err(ContractError::InvalidPrice {})
"""),
]
G["ra"] = [
    (RA + "helpers.rs", """    // There is one message per payment, the fair-burn contract does not accept an empty one
    for (payment, message) in payments.iter().zip(payout.messages) {
        if !payment.coin.amount.is_zero() {
            response = response.add_submessage(message);
        }
    }

    // Transfer NFT to highest bidder
    response = response.add_submessage(transfer_nft(
        &auction.collection,
        &auction.token_id,
        &high_bid.bidder,
    ));
""", """    // Transfer NFT to highest bidder
    response = response.add_submessage(transfer_nft(
        &auction.collection,
        &auction.token_id,
        &high_bid.bidder,
    ));

    let paid = payments
        .iter()
        .zip(payout.messages)
        .filter(|(payment, _)| !payment.coin.amount.is_zero())
        .map(|(_, message)| message)
        .collect::<Vec<_>>();
    response = response.add_submessages(paid);
"""),
    (RA + "execute.rs", """    let config = CONFIG.load(deps.storage)?;

    // Only NFT owner can create auction for an NFT
    only_owner(&deps.querier, &info, &collection, token_id)?;

    // NFT owner must have approved the reserve auction contract to transfer the NFT
    has_approval(
        &deps.querier,
        &env.contract.address,
        &collection,
        token_id,
        Some(false),
    )?;

    // Cannot create a duplicate auction for an NFT
    only_no_auction(deps.as_ref(), &collection, token_id)?;

    only_tradable(&deps.querier, &env.block, &collection)?;

    let mut response = Response::new();

    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;

    // Ensure that the duration is within the min and max duration
    ensure!(
        duration >= config.min_duration && duration <= config.max_duration,
        ContractError::InvalidDuration {
            min: config.min_duration,
            max: config.max_duration,
            got: duration
        }
    );
""", """    let config = CONFIG.load(deps.storage)?;
    if duration < config.min_duration || config.max_duration < duration {
        return Err(ContractError::InvalidDuration {
            min: config.min_duration,
            max: config.max_duration,
            got: duration,
        });
    }
    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;
    only_tradable(&deps.querier, &env.block, &collection)?;
    only_no_auction(deps.as_ref(), &collection, token_id)?;
    has_approval(
        &deps.querier,
        &env.contract.address,
        &collection,
        token_id,
        Some(false),
    )?;
    only_owner(&deps.querier, &info, &collection, token_id)?;

    let mut response = Response::new();
"""),
    (RA + "execute.rs", """            let time_remaining = auction.end_time.unwrap().seconds() - block_time.seconds();
            if time_remaining < config.extend_duration {
                auction.end_time = Some(block_time.plus_seconds(config.extend_duration));
            }
""", """            let secure_until = block_time.seconds() + config.extend_duration;
            auction.end_time = match auction.end_time {
                Some(end) if end.seconds() >= secure_until => Some(end),
                _ => Some(block_time.plus_seconds(config.extend_duration)),
            };
"""),
    (RA + "sudo.rs", """    if halt_manager.prev_block_time > 0
        && seconds_since_last_block >= config.halt_duration_threshold
    {
        let halt_window""", """    let first_block = halt_manager.prev_block_time == 0;
    let long_pause = seconds_since_last_block >= config.halt_duration_threshold;
    if long_pause && !first_block {
        let halt_window"""),
    (RA + "sudo.rs", """    let halt_info = halt_manager.find_stale_halt_info(Some(earliest_auction_end_time));
    if halt_info.is_some() {
        HALT_MANAGER.save(deps.storage, &halt_manager)?;
    }
""", """    halt_manager.find_stale_halt_info(Some(earliest_auction_end_time));
    HALT_MANAGER.save(deps.storage, &halt_manager)?;
"""),
    (RA + "state.rs", """        for halt_info in &self.halt_windows {
            if block_time > halt_info.start_time && block_time < halt_info.end_time {
                return true;
            }
        }
        false
""", """        self.halt_windows
            .iter()
            .any(|w| w.start_time < block_time && w.end_time > block_time)
"""),
    (RA + "execute.rs", """    // Remove auction from storage
    auctions().remove(
        deps.storage,
        (auction.collection.clone(), auction.token_id.clone()),
    )?;

    let event = Event::new("cancel-auction")
        .add_attribute("collection", auction.collection.to_string())
        .add_attribute("token_id", auction.token_id.to_string());

    let response = Response::new()
        .add_event(event)
        .add_submessage(transfer_nft(&collection, token_id, &auction.seller));
""", """    let event = Event::new("cancel-auction")
        .add_attribute("token_id", auction.token_id.to_string())
        .add_attribute("collection", auction.collection.to_string());

    let response = Response::new()
        .add_submessage(transfer_nft(&collection, token_id, &info.sender))
        .add_event(event);

    auctions().remove(deps.storage, (auction.collection, auction.token_id))?;
"""),
]
G["co"] = [
    (CO + "sale.rs", """            if fee.share.is_zero() {
                continue;
            }

            let fee_amount = self.sale_coin.amount.mul_ceil(fee.share);
            let fee_coin = coin(fee_amount.u128(), &denom);
            seller_amount = seller_amount.checked_sub(fee_amount)?;

            self.payments.push(Payment {
                label: fee.label.clone(),
                recipient: fee.recipient.clone(),
                funds: fee_coin,
            });
""", """            let fee_amount = self.sale_coin.amount.mul_ceil(fee.share);
            seller_amount = seller_amount.checked_sub(fee_amount)?;
            if !fee.share.is_zero() {
                self.payments.push(Payment {
                    label: fee.label.clone(),
                    recipient: fee.recipient.clone(),
                    funds: coin(fee_amount.u128(), &denom),
                });
            }
"""),
    (CO + "royalties.rs", """    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {
        return Ok(Some(royalty_protocol.royalty_entry.into()));
    }

    if let Some(royalty_default) = royalty_payment_response.royalty_default {
        return Ok(Some(royalty_default.royalty_entry.into()));
    }

    Ok(None)
""", """    Ok(
        match (
            royalty_payment_response.royalty_protocol,
            royalty_payment_response.royalty_default,
        ) {
            (Some(special), _) => Some(special.royalty_entry.into()),
            (None, Some(usual)) => Some(usual.royalty_entry.into()),
            (None, None) => None,
        },
    )
"""),
    (CO + "address.rs", """    addr.map_or(default.clone(), |addr| addr.clone())
""", """    match addr {
        Some(given) => given.clone(),
        None => default.clone(),
    }
"""),
    (CO + "coin.rs", """    for item in &funds {
        if item.amount.is_zero() {
            return Err(MarketplaceStdError::ZeroAmountBankSend);
        }
    }
    Ok(transfer_coins(funds, to, response))
""", """    if funds.iter().any(|c| c.amount.is_zero()) {
        Err(MarketplaceStdError::ZeroAmountBankSend)
    } else {
        Ok(transfer_coins(funds, to, response))
    }
"""),
]
CHECKS = {"v2": "A", "v1": "B", "ra": "C", "co": "AD"}


def main():
    seed = ARGV[ARGV.index("--seed") + 1] if "--seed" in ARGV else "7"
    want = [x for x in ARGV[1:] if x in G] or list(G)
    sh, lane = P["sh"], P["lane"]
    plan = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    P["setup"](0)
    d = P["L"] + "/0"
    for g in want:
        sh("git -C %s/repo checkout -q -- ." % d)
        for f, old, new in G[g]:
            p = d + "/repo/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(g, "edit of", f, "matches", t.count(old), repr(old[:80]))
                return
            open(p, "w").write(t.replace(old, new))
        x = lane(0, "bash /opt/vp/build.sh")
        if x.returncode:
            print(g, "does not build", x.stdout[-3000:])
            continue
        lane(0, "bash /opt/vp/test.sh %s/t.json" % d)
        bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(d + "/t.json"))["passed"])
        print(g, "tests failing:", sorted(bad), flush=True)
        x = lane(0, "cd /verif && bash setup.sh")
        for p in plan:
            if p[0] in CHECKS[g]:
                x = lane(0, "cd /verif && python3 check.py " + p, env=dict(VERIF_SEED=seed, VERIF_TIER="quick"))
                print(g, p, x.returncode, [l[:600] for l in x.stdout.splitlines() if "VIOLATION" in l or "at:" in l or "difference" in l or "ERROR" in l][:3], flush=True)


main()
