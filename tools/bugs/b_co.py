"""Planted bugs of the shared library."""
P = "packages/sg-marketplace-common/src/"
A, C, N, R, L = P + "address.rs", P + "coin.rs", P + "nft.rs", P + "royalties.rs", P + "sale.rs"


def o(k, s="alice", **kw):
    r = dict(k=k, s=s)
    r.update(kw)
    return r


def fee(l, to, n):
    return dict(l=l, to=to, n=n)


def B(id, prop, edits, needs, breaks, ops, asserts, also=()):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, sys="co", cfg={}, ops=ops, asserts=asserts, queries=[], also=list(also))


def info(stt=-1, rr="royal", rs=5000000, ok=True, ft=False, co="colla"):
    return o("SetInfo", "admin", co=co, info=dict(stt=stt, rr=rr, rs=rs, ok=ok, ft=ft))


F = [{"d": "ustars", "a": 1000}]
BUGS = [
    B("co-checks-first-coin-only", "D01",
      [(C, "    for item in &funds {", "    for item in funds.iter().take(1) {")],
      "a checked transfer of several coins of which a later one is zero", "a checked transfer looks at the first coin only",
      [o("Send", cs=[{"d": "uatom", "a": 5}, {"d": "ustars", "a": 0}], to="carol", chk=True, one=False, f=[{"d": "uatom", "a": 5}])],
      [("out(1)['lib'] == 'err'", "the zero coin is refused")]),
    B("co-fees-may-exceed", "D01",
      [(L, "            seller_amount = seller_amount.checked_sub(fee_amount)?;", "            seller_amount = seller_amount.saturating_sub(fee_amount);")],
      "fees that add up to more than the sale", "fees beyond the sale's amount are paid all the same",
      [o("Sell", a=100, d="ustars", to="alice", fees=[fee("a", "carol", 60000000), fee("b", "david", 50000000)], f=F)],
      [("out(1)['lib'] == 'err'", "the sale fails")]),
    B("co-find-last-payment", "D01",
      [(L, "        self.payments.iter().find(|p| p.label == label)", "        self.payments.iter().rev().find(|p| p.label == label)")],
      "two payments with the same label", "looking up a label finds the last payment",
      [o("Sell", a=100, d="ustars", to="alice", fees=[fee("a", "carol", 10000000), fee("a", "david", 20000000)], f=F)],
      [("out(1)['find']['a']['to'] == 'carol'", "the first one is found")]),
    B("co-fee-of-remainder", "D01",
      [(L, "            let fee_amount = self.sale_coin.amount.mul_ceil(fee.share);", "            let fee_amount = self\n                .sale_coin\n                .amount\n                .mul_ceil(fee.share)\n                .min(seller_amount);")],
      "fees that add up to more than the sale", "the last fee is silently cut to what is left",
      [o("Sell", a=100, d="ustars", to="alice", fees=[fee("a", "carol", 60000000), fee("b", "david", 50000000)], f=F)],
      [("out(1)['lib'] == 'err'", "the sale fails")]),
    B("co-default-before-protocol", "D02",
      [(R, "    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {\n        return Ok(Some(royalty_protocol.royalty_entry.into()));\n    }\n\n    if let Some(royalty_default) = royalty_payment_response.royalty_default {\n        return Ok(Some(royalty_default.royalty_entry.into()));\n    }",
        "    if let Some(royalty_default) = royalty_payment_response.royalty_default {\n        return Ok(Some(royalty_default.royalty_entry.into()));\n    }\n\n    if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {\n        return Ok(Some(royalty_protocol.royalty_entry.into()));\n    }")],
      "a collection with both a default and a protocol royalty", "the default royalty wins over the protocol's",
      [o("SetReg", "admin", co="colla", p="", r="royal", n=5000000), o("SetReg", "admin", co="colla", p="findx", r="fundr", n=3000000), o("Roy", co="colla", p="findx")],
      [("out(3)['used']['r'] == 'fundr'", "the protocol's entry counts")]),
    B("co-tradable-a-moment-late", "D02",
      [(N, "                if start_trading_time.nanos() > block.time.nanos() {", "                if start_trading_time.nanos() >= block.time.nanos() {")],
      "a block at exactly the trading start", "a collection is not yet tradable at its trading start",
      [info(stt=5000), o("Tick", "", dt=5000), o("Gate", co="colla")],
      [("out(3)['lib'] == 'ok'", "trading has started")]),
    B("co-zero-royalty-not-registered", "D02",
      [(R, "            if collection_info.royalty_info.is_none() {", "            if collection_info\n                .royalty_info\n                .as_ref()\n                .map_or(true, |r| r.share.is_zero())\n            {")],
      "a collection with a royalty share of zero", "a zero royalty of the collection is neither used nor registered",
      [info(rs=0), o("Roy", co="colla", p="")],
      [("out(2)['used'] == {'r': 'royal', 's': 0}", "the collection's entry is used"), ("st(2)['reg']['colla']['dr'] == 'royal'", "and registered")]),
]
