#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
CHAIN = "explicit-state model checking of the real contracts on a simulated chain against a reference model"
LOCK = "explicit-state exploration in lock-step with an abstract model (model trace = implementation trace on every transition)"
VAL = "explicit-state exploration of the value types: exhaustive operation sequences over a finite value alphabet against exact arithmetic"
T = {
 "C01": (CHAIN, "dense small pools and offers, all combinations of boundary magnitudes, all operation histories up to the bound; product and emptiness judged after every swap"),
 "C02": (CHAIN, "the complete post-state of every swap is predicted by exact integer arithmetic and compared"),
 "C03": (CHAIN, "the simulation answer is compared with the exact formulas and with the executed swap's attributes and payout in every state"),
 "C04": (CHAIN, "reverse quotes of complete small domains and boundary combinations judged by exact arithmetic, the quote bought back by simulation and execution"),
 "C05": (CHAIN, "limits at, just below and just above every decision threshold, all decimals combinations"),
 "C06": (CHAIN, "tolerances at, just below and just above every decision threshold, both listing orders"),
 "C07": (CHAIN, "minted LP of complete small domains and boundary combinations predicted by exact arithmetic"),
 "C08": (CHAIN, "every amount of LP redeemed from every pool of the domain; payout bounds by exact arithmetic"),
 "C09": (CHAIN, "value per LP compared across every transition of all histories up to the bound; round trips from every state"),
 "C10": (CHAIN, "all senders, deposits and listing orders around the minimums, at first seeding and after complete redemption"),
 "C11": (CHAIN, "every forged notice by every account and contract in every state up to the bound"),
 "C12": (CHAIN, "every declaration, coin set, allowance and receiver of the alphabet; complete post-state predicted"),
 "C13": (CHAIN, "all balances, supplies and pool queries read back after every transition of all histories up to the bound"),
 "C14": (LOCK, "all creation orders and histories up to the bound, every lookup in both orders in every state"),
 "C15": (LOCK, "all asset choices, decimals and code settings of the alphabet; contract metadata and LP token of every created pair"),
 "C16": (LOCK, "every page size and cursor on every list size of the domain"),
 "C17": (LOCK, "every administrative message by every account in every reachable configuration up to the bound"),
 "C18": (LOCK, "all registrations, all decimals values, all histories up to the bound"),
 "C19": (CHAIN, "all chained routes up to four hops in all states of short histories; post-state composed from the pair formulas"),
 "C20": (CHAIN, "all chained routes with all minimums around the exact output"),
 "C21": (CHAIN, "all hop sequences of the alphabet, each classified by an independent definition of the rule"),
 "C22": (CHAIN, "every internal message by every account in every state of short histories"),
 "C23": (CHAIN, "router quotes against the composition of the pairs' own quotes and against executed routes"),
 "C24": (LOCK, "complete families of metadata, holders and caps, each created and read back"),
 "C25": (LOCK, "all histories of mint, burn, minter and transfer operations up to the bound"),
 "C26": (LOCK, "all histories of ledger operations up to the bound, including expiry by height and by time"),
 "C27": (VAL, "all ordered pairs and triples of boundary values through every operator, chains of operations, dense small ranges"),
 "C28": (VAL, "all texts up to the bound over a character alphabet and round trips of all boundary values"),
 "C29": (VAL, "all ordered pairs of descriptions, payments executed on a chain"),
 "C30": (LOCK, "every migration in every state of short histories; all queries and all following operations compared with the unmigrated chain"),
 "C31": (CHAIN, "operations on pairs sharing assets in every state of short histories; both orders of independent operations"),
}
TRUST = " Holds within the bounds listed in the evidence file. Trusts cw-multi-test's execution and roll-back semantics, cosmwasm-std, cw20-base, cw-storage-plus and the toolchain."
VT = " Holds within the bounds listed in the evidence file. Trusts the exact arithmetic of the oracle and the toolchain."
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [
  {"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
   "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "model_checking",
   "level_note": T[i][1][0].upper() + T[i][1][1:] + "." + (VT if T[i][0] == VAL else TRUST)} for i in ids if i in T],
  "not_applicable": [],
  "notes": "No hooks: only public entry points, messages and queries are used. ./check.sh replay FILE replays a violation."}
assert not set(ids) ^ set(T)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
