#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
V2="contracts/stargaze-marketplace-v2/src/"; V1="contracts/marketplace/src/"; RA="contracts/reserve-auction/src/"; CO="packages/sg-marketplace-common/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or ["contract execute/sudo/query entry points","bank balances","NFT ownership"],hook_needed=None)))
H=["histories","inputs"]; HC=["histories","inputs","configurations"]
# ---------------------------------------------------------------- V2
p("A01","V2: escrowed funds always equal open bids; no coin is lost or stranded",
 "At every moment the V2 marketplace's bank balance in each denom equals exactly the sum of the prices of its open bids and open collection bids in that denom. No message creates, destroys or strands coins: whatever it brings in or releases is, within the same message, escrowed for an open order, paid out in a sale, paid as a listing fee, or returned to the sender; a rejected message moves nothing. (Coins somebody sends to the contract outside its messages, or payments whose named recipient is the marketplace itself, are not counted.)",
 H,"every sequence of marketplace messages by any mix of users, with any attached funds and any price/denom settings",
 "Existing V2 tests are single scenarios (and only a helper test runs in the baseline); they check one user's balance after one or two messages, never the sum over all open orders after arbitrary interleavings of placing, raising, lowering, matching, accepting and removing.",
 [V2+"execute.rs",V2+"helpers.rs",CO+"sale.rs",CO+"coin.rs"],
 [("funds accounting with NativeBalance and refund of the remainder",V2+"execute.rs: execute_set_bid/update_bid/set_collection_bid/update_collection_bid/accept_ask"),("payments built from the sale price","packages/sg-marketplace-common/src/sale.rs"),("nonpayable guards",V2+"execute.rs")],
 [("bids, collection_bids","open orders and their prices",V2+"state.rs")])
p("A02","V2: an NFT is held exactly while it is asked, and leaves only to its due owner",
 "The V2 marketplace owns an NFT handed to it through a listing exactly as long as there is one open ask for that token, created by the address that listed it. The NFT leaves only to the buyer of that token (or the recipient the buyer named) in a sale, or, when the creator removes the ask, to the creator (or the recipient the ask names); a message that fails leaves every NFT where it was. (Tokens somebody transfers to the contract directly are not counted.)",
 H,"every sequence of listing, updating, removing, buying, accepting and direct NFT transfer operations",
 "Tests check the owner after one removal or one sale; custody under relisting, self-dealing, recipients and interleaved bids on several tokens and collections is not explored.",
 [V2+"execute.rs",V2+"helpers.rs",V2+"orders.rs",CO+"nft.rs"],
 [("transfer to the contract on ask creation, from it on removal and sale",V2+"execute.rs, helpers.rs: finalize_sale"),("ask removal in the same transaction",V2+"helpers.rs: finalize_sale")])
p("A03","V2: sale proceeds are split exactly",
 "When a V2 sale executes at price P, the fee manager receives the protocol fee less the finders' rewards, the maker's and the taker's finders (when named) receive their configured share of the protocol fee, the royalty recipient receives the collection's royalty share capped at the configured maximum, each rounded up to a whole unit, and the seller's payee receives exactly the remainder, so the payments sum to P. Maker is the side whose order was resting in the book and taker the side whose message triggered the sale; the royalty comes from the royalty registry's entry for this marketplace, else its default entry, else the collection's own royalty info, which is then registered as the default.",
 HC,"all prices, fee/reward/royalty configurations, finder presence on either side, every route to a sale (new or updated ask, bid or collection bid, accept, buy-now, sell-now)",
 "Tests check a few round-number prices with one configuration; rounding, cap, zero-share and maker/taker combinations across all sale routes are not covered.",
 [V2+"helpers.rs",CO+"sale.rs",CO+"royalties.rs"],
 [("finalize_sale, divide_protocol_fees",V2+"helpers.rs"),("NftSaleProcessor::build_payments",CO+"sale.rs"),("fetch_or_set_royalties",CO+"royalties.rs")])
p("A04","V2: orders match exactly when they cross, at the best counter-order's price",
 "A new or updated ask sells at once if and only if some open bid on its token or collection bid on its collection, in the same denom, offers at least its price; it takes a highest-priced such offer, a token bid winning a tie against a collection bid, and trades at that offer's price. A new or updated bid buys at once if and only if its token's ask is in the same denom and priced no higher, a collection bid if and only if some ask of the collection is, then taking a lowest-priced one; both pay the ask's price and get the difference back.",
 H,"every order book reachable by any history, any new order, any price ties and denoms",
 "Tests use books of one or two orders; price priority among many orders, ties, mixed denoms, several collections and updates that re-cross are not covered.",
 [V2+"orders.rs",V2+"query.rs",V2+"state.rs",V2+"execute.rs"],
 [("match_with_bid / match_with_ask",V2+"orders.rs"),("price indexes",V2+"state.rs"),("range queries with bounds",V2+"query.rs")])
p("A05","V2: takers' limits hold and immediate-only orders never rest",
 "Sell-now and buy-now messages either trade immediately or fail with no effect; they never leave an order or escrow behind. A buyer accepting an ask never pays more than the stated maximum nor anything other than the ask's price, a seller accepting a bid or collection bid never receives on a price below the stated minimum, and such acceptances always trade at the resting order's price; an accepted order is gone afterwards and every other order is untouched.",
 H,"all stated limits and books, races between an update of the resting order and its acceptance",
 "Tests accept orders with exact matching limits; boundary limits, wrong denom and limits raced by updates are not covered.",
 [V2+"execute.rs",V2+"orders.rs"],
 [("has_coins limit checks",V2+"execute.rs: execute_accept_ask/bid/collection_bid"),("NoMatchFound abort",V2+"execute.rs")])
p("A06","V2: only the entitled party can act on an order, an NFT or the settings",
 "An ask, bid or collection bid can be updated or removed only by its creator; a bid or collection bid can be accepted only by the creator of the token's open ask or, when there is none, by the token's owner; a token can be listed only by its owner; and configuration, collection denoms and listing fees can be changed only by the contract's admin (by nobody if it has none). Acting on an order that does not exist fails.",
 H,"all senders (third parties, counterparties, previous owners, NFT-approved operators, the admin) against all orders in all reachable states",
 "Tests try one unauthorized sender per message in one state; stale ownership, approvals and orders re-created on the same token are not combined.",
 [V2+"execute.rs",V2+"helpers.rs",CO+"nft.rs"],
 [("creator checks",V2+"execute.rs"),("only_owner",CO+"nft.rs"),("only_contract_admin",V2+"helpers.rs")])
p("A07","V2: orders are admitted only with a valid price, denom, fee and tradable token",
 "An order is created or repriced only with a price above zero in the collection's required denom (its own setting, else the default); listing and selling additionally require exactly one attached coin that equals the listing fee set for that coin's denom, which goes to the fee manager; and no new order or instant trade is accepted before the collection's start trading time. Orders satisfying these and fully funded are accepted, whatever else is in the book, and the stored order carries exactly the given terms.",
 HC,"all prices, denoms, attached funds, listing-fee and denom settings and their changes over time, all block times around the trading start",
 "Tests sample one wrong denom or fee; settings that change while orders are open, and boundary times, are not explored.",
 [V2+"execute.rs",V2+"helpers.rs",CO+"nft.rs"],
 [("only_valid_price",V2+"helpers.rs"),("listing fee check",V2+"execute.rs: execute_set_ask"),("only_tradable",CO+"nft.rs")])
p("A08","V2: stored settings are always valid and exactly what was last set",
 "The configuration always has a protocol fee below 100% and finder rewards that together stay below 100% of it; an instantiation or update violating that (or naming an invalid address) is refused and changes nothing. A successful admin message changes exactly the setting it names (configuration, one collection's denom, one denom's listing fee) and no order, balance or NFT, and the new values govern every later message.",
 HC,"all configurations at instantiation and all sequences of admin messages interleaved with trading",
 "Tests set each setting once in isolation.",
 [V2+"state.rs",V2+"execute.rs",V2+"instantiate.rs",V2+"migrate.rs"],
 [("Config::save validation",V2+"state.rs"),("admin handlers",V2+"execute.rs")])
p("A09","V2: queries return exactly the live orders, correctly sorted, bounded and paged",
 "Every order lookup and list query reflects exactly the currently open orders: lookups by id return the order iff open, price-sorted lists contain exactly the orders of that collection/token and denom sorted by price (ascending or descending), creator lists exactly that creator's orders in that collection. Minimum/maximum bounds (inclusive or exclusive) and the limit (default 10, capped at 100) select exactly the corresponding slice, so paging with the last item as exclusive cursor visits every order exactly once.",
 H,"all reachable books, all query options",
 "Tests query a fixed small book with a few options; index consistency after updates, sales and removals and paging over ties are not covered.",
 [V2+"query.rs",V2+"state.rs"],
 [("indexed maps",V2+"state.rs"),("range queries",V2+"query.rs")])
p("A10","V2: a creator can always cancel, and updates settle the difference exactly",
 "As long as a bid or collection bid is open, its creator can remove it and gets exactly its price back; as long as an ask is open, its creator can remove it. Updating a bid replaces price, recipient and finder, keeps its id and owner, and moves exactly the difference between the new and the old price (excess returned, shortfall required from the attached funds); this holds whatever the admin settings or other orders have become in between (cancelling) and in any denom.",
 H,"every open order in every reachable state, including after settings changed",
 "Tests cancel orders right after creating them under unchanged settings.",
 [V2+"execute.rs"],
 [("execute_remove_bid/remove_collection_bid/remove_ask, execute_update_bid/collection_bid",V2+"execute.rs")])
p("A11","V2: emitted events report exactly what happened",
 "Every successful order message emits an event saying which order was set, updated or removed, or a sale event naming the collection, token, price, recipients of funds and NFT, the orders involved and every payment made; the attribute values equal the actual effects (stored order, moved NFT, transferred amounts). No such event is emitted for something that did not happen.",
 H,"all messages in all reachable states",
 "Tests do not check event contents; indexers and wallets rely on them.",
 [V2+"events.rs",V2+"helpers.rs",V2+"orders.rs"],
 [("event builders",V2+"events.rs"),("finalize-sale event",V2+"helpers.rs")])
# ---------------------------------------------------------------- V1
p("B01","V1: escrowed funds always equal open bids; every exit pays what it owes",
 "At every moment the V1 marketplace's balance equals exactly the sum of its open bids and collection bids, down to the last unit. Removing, rejecting or replacing a bid refunds its full price to its bidder; placing one escrows exactly the attached payment; no message creates, destroys or strands coins and a rejected message moves nothing.",
 H,"every sequence of messages by any users, all prices including ones that do not divide evenly",
 "Tests check individual balances for round prices in fixed scenarios; the global sum and rounding remainders after arbitrary histories are never asserted.",
 [V1+"execute.rs"],
 [("refund and payout bank messages",V1+"execute.rs")],[("bids, collection_bids","open bids",V1+"state.rs")])
p("B02","V1: sale proceeds are split exactly among network, finder, royalties, seller",
 "When a V1 sale executes at price P, the network fee (P times the trading fee, rounded down) is fair-burned (half burned, half to the fair-burn pool), a named finder receives the listing's or accepted bid's finder's fee (rounded down), the collection's royalty recipient receives its share (rounded down), and the seller's payee receives exactly the rest, so the payments sum to P. A sale whose fees would exceed P fails with no effect.",
 HC,"all prices, fee parameters, royalty shares and finders, every route to a sale",
 "Tests use a few round prices and one royalty share.",
 [V1+"execute.rs"],
 [("payout",V1+"execute.rs")])
p("B03","V1: a fixed-price ask sells only live, owned, unreserved, at exactly its price",
 "A buy message (bid, buy-now or buy-for) trades immediately exactly when the token has a fixed-price ask at exactly the attached amount; it then gives the NFT to the buyer or the named recipient and closes the ask. It is refused if the ask is expired, inactive, reserved for someone else, or the lister no longer owns the token; a lower amount becomes a standing bid, a higher one is refused, for auction-type asks the reverse (at or above rests, below is refused), and buy-now/buy-for need an existing ask.",
 H,"all asks, buyers, amounts, expiry boundaries and NFT transfers/approval changes between listing and buying",
 "Tests cover each refusal once at convenient times; combinations with transfers, relisting and boundary times are not covered.",
 [V1+"execute.rs"],
 [("execute_set_bid",V1+"execute.rs")])
p("B04","V1: at most one bid per bidder and token; place, replace, reject are exact",
 "Each bidder has at most one open bid per token and one collection bid per collection; a new one replaces and refunds the old in the same message. An open bid records exactly the bidder, amount, finder's fee and expiry given, is admitted only with a payment in the native denom at or above the minimum price, an expiry within the configured range and a finder's fee within the maximum and a finder who is not the bidder; only its bidder can remove it and only the token's owner can reject it.",
 H,"all histories of placing, replacing, removing and rejecting by several bidders on several tokens and collections",
 "Tests replace a bid once; cross-token and cross-bidder interference is not explored.",
 [V1+"execute.rs",V1+"state.rs"],
 [("execute_set_bid/remove_bid/reject_bid/set_collection_bid",V1+"execute.rs"),("bid keys",V1+"state.rs")])
p("B05","V1: accepting a bid trades at its price, only by the owner, only while valid",
 "Only the current owner of a token can accept a bid on it or a collection bid on its collection, only while that bid is unexpired and the collection is tradable, and the sale happens at exactly the bid's price with the bid's finder's fee. Afterwards the bidder owns the NFT, the accepted bid and any ask on the token are gone, and all other bids stand; if the NFT cannot be transferred nothing changes.",
 H,"all owners, bids and times, with and without asks on the token, approvals present or missing",
 "Tests accept in one fixed setup each.",
 [V1+"execute.rs"],
 [("execute_accept_bid, execute_accept_collection_bid",V1+"execute.rs")])
p("B06","V1: expired bids become removable by operators only when stale, with exact split",
 "An operator, and nobody else, can remove someone's bid or collection bid only once the configured stale duration has passed after its expiry; the bidder then gets the price minus the reward and the operator the reward (price times the configured rate, rounded down), including when the rate is zero. Until removed or accepted, an expired bid stays refundable to its bidder in full.",
 HC,"all prices, reward rates including 0% and 100%, all times around expiry and staleness",
 "Tests use one price, rate and time.",
 [V1+"execute.rs",V1+"state.rs"],
 [("execute_remove_stale_bid, execute_remove_stale_collection_bid",V1+"execute.rs")])
p("B07","V1: listings are admitted, repriced and removed only under the listing rules",
 "An ask is created only by the token's owner, on a tradable collection, with the marketplace approved for the token, a native-denom price between the minimum and the maximum, an expiry in the configured range, a finder's fee within the maximum, a reservation only on fixed-price asks and not for the lister, and exactly the listing fee attached, which is fair-burned. There is at most one ask per token, storing exactly the given terms; repricing obeys the same price bounds and needs an active, unexpired ask, and only the token's owner can reprice or remove it.",
 HC,"all listing terms, fees, parameter changes, times and ownership/approval histories",
 "Tests check the rules one by one with fixed parameters; price bounds on repricing and fee changes over time are not.",
 [V1+"execute.rs",V1+"helpers.rs"],
 [("execute_set_ask, execute_update_ask_price, execute_remove_ask",V1+"execute.rs"),("ExpiryRange::is_valid",V1+"helpers.rs")])
p("B08","V1: operators can only mirror reality onto asks",
 "Only an operator can sync an ask, which changes nothing but its active flag, to whether the marketplace is still approved for the token, and fails if the flag already agrees; only an operator can remove a stale ask, and only if it has expired, its token no longer exists, or the approval is gone. No operator action moves coins or NFTs or touches any other order.",
 H,"all interleavings of transfers, approvals, revocations, burns, expiry and operator calls",
 "Tests cover one deactivate/reactivate cycle and one removal.",
 [V1+"execute.rs"],
 [("execute_sync_ask, execute_remove_stale_ask, only_operator",V1+"execute.rs")])
p("B09","V1: hooks hear every order change and sale, and can never block one",
 "Each registered ask or bid hook is told exactly once about every ask or bid created, updated or deleted by an order message, and each sale hook exactly once about every sale, with the true order or sale data. A hook that fails changes nothing about the outcome of the message or the other hooks.",
 ["histories","inputs","fault_sequences"],"every message, any number of registered hooks, any subset of them failing",
 "Tests register one failing and one working hook and check only that the sale went through, not what the hooks are told.",
 [V1+"execute.rs",V1+"sudo.rs"],
 [("prepare_*_hook with reply_on_error, reply",V1+"execute.rs")])
p("B10","V1: queries return exactly the live orders, correctly filtered, sorted and paged",
 "Every query reflects exactly the currently stored asks, bids and collection bids: lookups return the record iff it exists; list queries contain exactly the records of that collection, token, seller or bidder (inactive asks only on request), in the promised order by token, price or expiry, forward or reverse; counts are exact. The limit (default 10, capped at 100) and cursor select exactly the following slice, so paging from no cursor to the end visits every record once, and the collection list names each collection with asks once.",
 H,"all reachable books and all paging parameters, including token id 0 and price ties",
 "Tests query a handful of asks with token ids starting at 1 and rarely page.",
 [V1+"query.rs",V1+"state.rs"],
 [("query handlers",V1+"query.rs"),("indexes",V1+"state.rs")])
p("B11","V1: parameters, operators and hooks stay valid and change only via governance",
 "Parameters, operators and hooks change only through governance (sudo) messages: a parameter update sets exactly the named numeric fields, operators and hooks change only through their own add/remove messages; fee and reward rates never exceed 100% (10000 bps), expiry ranges have min not above max, at instantiation and after every update, and a refused update changes nothing. Operator and hook registrations behave as sets (duplicates and unknown removals refused); migration refuses another contract's state and downgrades and keeps all state.",
 HC,"all instantiation messages, all sequences of governance messages and migrations",
 "Tests try single out-of-range values.",
 [V1+"sudo.rs",V1+"execute.rs",V1+"helpers.rs"],
 [("sudo_update_params and validation",V1+"sudo.rs"),("instantiate, migrate",V1+"execute.rs")])
p("B12","V1: events report exactly what happened",
 "Every accepted V1 message emits exactly the events of what it did: one event per ask or bid created, changed or removed naming the right collection, token, parties, price and expiry, one finalize-sale per sale with the true seller, buyer, recipient and price, one royalty-payout per royalty paid and one fair-burn per fee burned with the true amounts; refused messages emit none. An indexer that replays the events sees the same sales and amounts as the chain.",
 H,"every accepted message in every history",
 "Tests rarely look at events at all.",
 [V1+"execute.rs"],
 [("Event::new(..) in every handler, payout events",V1+"execute.rs")])
# ---------------------------------------------------------------- RA
p("C01","Auction: escrowed funds always equal the standing high bids",
 "At every moment the auction contract's balance in each denom equals exactly the sum of the high bids of its open auctions in that denom. An outbid bidder is refunded in full within the outbidding message; no message creates, destroys or strands coins, and a rejected message moves nothing.",
 H,"every sequence of messages, attached funds, several auctions and denoms, chain halts included",
 "Tests follow one auction at a time with exact funds.",
 [RA+"execute.rs",RA+"helpers.rs"],
 [("refund in execute_place_bid, payout in settle_auction",RA+"execute.rs, helpers.rs")])
p("C02","Auction: an NFT is held exactly while its auction is open, then goes where due",
 "The auction contract holds an NFT put up for auction exactly as long as there is one open auction for it. It leaves only to the high bidder at settlement or back to the seller on cancellation; each auction ends at most once.",
 H,"all sequences of creating, bidding, cancelling, settling, end-of-block processing and re-auctioning by the new owner",
 "Tests check single paths.",
 [RA+"execute.rs",RA+"helpers.rs"],
 [("transfer_nft on create/cancel/settle and removal from storage",RA+"execute.rs, helpers.rs")])
p("C03","Auction: bids must meet the reserve, then beat the high bid by the increment",
 "A bid is accepted exactly when it is one coin in the auction's denom, at least the reserve price for the first bid and afterwards at least the high bid raised by the minimum increment (rounded up), the bidder is not the seller and the auction has not ended. The accepted bid becomes the high bid with exactly the attached amount, so the high bid strictly increases.",
 HC,"all bid sequences, amounts around the thresholds, increments and parameter changes",
 "Tests use one increment and a few amounts.",
 [RA+"execute.rs",RA+"state.rs"],
 [("execute_place_bid",RA+"execute.rs"),("min_bid_coin",RA+"state.rs")])
p("C04","Auction: the clock starts at the first bid and is only ever extended",
 "An auction has no end time until its first bid, which sets it to that moment plus the auction's duration. A later bid with less than the extension period remaining moves the end to that moment plus the extension, otherwise leaves it; apart from postponement by a halt the end time never changes otherwise and no bid is accepted once it is reached. Times are kept exactly; whether an end is reached or near is decided on whole seconds.",
 HC,"all bid times down to sub-second block times, durations and extension settings",
 "Tests use a handful of block times on whole seconds.",
 [RA+"execute.rs"],
 [("end_time handling",RA+"execute.rs: execute_place_bid")])
p("C05","Auction: settlement pays out exactly once, only after the end",
 "An auction settles only once the block time (in whole seconds) has reached its end, by anyone or at the end of a block, exactly once: the trading fee (rounded up) goes to fair-burn, the royalty (rounded up) to the collection's royalty recipient, exactly the rest of the high bid to the seller's payee, and the NFT to the high bidder. Settling an auction without bids, before its end or a second time fails with no effect; an auction that has ended can always be settled, whatever the royalty, fee and collection information, as long as the collection lets the token move and the fees do not exceed the bid.",
 HC,"all prices, fees, royalty shares, recipients, settlement times",
 "Tests settle a few auctions with one fee configuration.",
 [RA+"helpers.rs",RA+"execute.rs"],
 [("settle_auction",RA+"helpers.rs")])
p("C06","Auction: every block's end settles the earliest-ended auctions up to the limit",
 "End-of-block processing never fails and handles exactly the ended auctions, earliest end (in whole seconds) first, up to the configured number per block, each as its own settlement would; all other auctions are untouched, so an ended auction is reached after a bounded number of blocks.",
 HC,"any number of concurrently ended auctions, any block times including sub-second ones, any limit",
 "Tests use a few auctions on whole-second times.",
 [RA+"sudo.rs",RA+"helpers.rs",RA+"state.rs"],
 [("sudo_end_block",RA+"sudo.rs"),("end_time index",RA+"state.rs")])
p("C07","Auction: ends inside a chain-halt window are postponed, never settled",
 "A gap between blocks of at least the threshold is recorded as a halt window from the last block before it to the resume time plus the buffer. An auction whose end falls strictly inside a recorded window is, at settlement, given a new end time (now plus the postponement) with its bids kept instead of being settled; a window is kept as long as an auction may still end in it and dropped afterwards, and auctions ending outside every window settle normally.",
 ["histories","schedules","configurations"],"all block time sequences with one or several halts, all auctions, any mix of end-of-block and manual settlement",
 "Tests simulate single halts with an auction already ended inside the window; windows with no auction ended yet, overlapping halts and manual settlement are not covered.",
 [RA+"sudo.rs",RA+"state.rs",RA+"helpers.rs"],
 [("sudo_begin_block, HaltManager",RA+"sudo.rs, state.rs")])
p("C08","Auction: seller control ends at the first bid",
 "Only the seller can change an auction's reserve price or cancel it, and only before its first bid; the new reserve must again be in an accepted denom at or above its minimum. Nothing else about an auction (seller, duration, recipient of funds, token) ever changes after creation.",
 H,"all senders and times, before and after bids",
 "Tests try each once.",
 [RA+"execute.rs"],
 [("execute_update_reserve_price, execute_cancel_auction",RA+"execute.rs")])
p("C09","Auction: auctions are admitted only under the creation rules",
 "An auction is created only by the token's owner, with the contract approved for the token, a tradable collection, no open auction on the token, a reserve in an accepted denom at or above that denom's minimum, a duration within the configured range, and exactly the creation fee attached (nothing if it is zero), which goes to fair-burn. The stored auction carries exactly the given terms and no bid or end time.",
 HC,"all creation terms, fees and attached funds, parameter changes",
 "Tests check the rules one by one.",
 [RA+"execute.rs",RA+"helpers.rs"],
 [("execute_create_auction",RA+"execute.rs"),("validate_reserve_price",RA+"helpers.rs")])
p("C10","Auction: queries return exactly the open auctions, sorted and paged",
 "Lookups return an auction iff it is open; the by-seller list contains exactly that seller's open auctions ordered by token, the by-end-time list exactly the running auctions ending at or after the given second (descending: ending before it), ordered by end time in whole seconds and then by token, and the minimum reserve prices exactly the accepted denoms. Limit (default 10, capped at 100), direction and cursor select exactly the corresponding slice.",
 H,"all reachable sets of auctions and all query options",
 "Tests query a fixed set.",
 [RA+"query.rs",RA+"state.rs"],
 [("query handlers",RA+"query.rs")])
p("C11","Auction: parameters and denoms stay valid and change only via governance",
 "The stored parameters always have a positive increment below 100%, positive minimum duration and positive extension, at instantiation and after every governance update; an update changes exactly the named fields or, if invalid, nothing. Minimum reserve prices behave as a map: setting an already accepted denom or unsetting an unknown one is refused with no effect; no governance message touches auctions, coins or NFTs.",
 HC,"all instantiation messages and sequences of governance messages",
 "Tests try single values.",
 [RA+"sudo.rs",RA+"state.rs",RA+"instantiate.rs"],
 [("Config::validate",RA+"state.rs"),("sudo_update_params, sudo_set/unset_min_reserve_prices",RA+"sudo.rs")])
p("C12","Auction: events report exactly what happened",
 "Every accepted message emits exactly the events that describe its effect, with true values: auctions created, repriced, cancelled, bid on (with the new end time, and the outbid bidder and amount when there was one), settled (seller, bidder, amount) or postponed, halts detected, minimum reserves set or unset, and the parameters an update changed. A rejected message emits none.",
 H,"every accepted message in every history",
 "Tests rarely look at events.",
 [RA+"execute.rs",RA+"helpers.rs",RA+"sudo.rs"],
 [("add_event in handlers",RA+"execute.rs, helpers.rs, sudo.rs")])
# ---------------------------------------------------------------- common
p("D01","Shared library: sale payments and coin transfers are exact",
 "For every sale amount and list of fee shares the sale processor yields, in order, one payment of ceil(amount*share) to its recipient per non-zero share, then the remainder to the seller if it is positive, and fails if the fees exceed the amount; the payments sum to the amount, looking one up by label gives the first with it, and the payout adds exactly these transfers to the response, in order. Checked transfers refuse any zero coin; otherwise a transfer adds exactly one send of the given coins to the given address.",
 ["inputs"],"all amounts up to 128 bits, share lists, labels, coins and recipients",
 "Unit tests use one amount with two shares and a few literals.",
 [CO+"sale.rs",CO+"coin.rs"],
 [("NftSaleProcessor",CO+"sale.rs"),("transfer_coin(s), checked_transfer_coin(s)",CO+"coin.rs")],
 observe=["library function results","coin transfers executed"])
p("D02","Shared library: ownership, tradability, royalty and address helpers are right",
 "The ownership gate refuses exactly senders who do not own the existing token; the tradability gate refuses exactly while the collection's trading start lies in the future. A transfer moves just the named token. The royalty is the registry's entry for the protocol, else its default, else the collection's own (which is then registered, and only then), else none. Address lists come back validated, sorted and without duplicates, refused if any address is invalid; an optional address falls back to the default.",
 ["inputs","configurations"],"all owners, trading start times, registry contents, collection infos and address lists",
 "Unit tests try a few literals; the royalty lookup has no tests.",
 [CO+"nft.rs",CO+"address.rs",CO+"royalties.rs"],
 [("only_owner, only_tradable, transfer_nft",CO+"nft.rs"),("map_validate, address_or",CO+"address.rs"),("fetch_or_set_royalties",CO+"royalties.rs")],
 observe=["library function results","NFT owners and royalty registry after execution"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
