#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when the list changes)."""
import json, os, sys

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), note=note))


M = "minter/src/"
ALL = ["schedules", "crash_points", "inputs", "histories", "configurations", "fault_sequences"]
NOTEST = "The existing unit tests call single functions with a few literals (amount arithmetic, address and number parsing, map operations, request encoding); none runs the canister, an await point, a trap, an upgrade or a peer that fails. "

prop("P01", "Each deposit is minted at most once, to the right account and amount",
     "For every deposit event the helper contract emitted in a final block, the minter credits the named account (principal and subaccount) on the ledger of the deposited token at most once, with the deposited amount less the configured native deposit fee, and the fee itself goes to the minter's fee account. Nothing is ever minted that does not correspond to such an event. This holds whatever the order of messages, ledger failures, traps in callbacks, repeated scrapes of the same blocks (also when an operator sets the scraped height back) and upgrades.",
     ALL, "every deposit history, interleaving of scraping, minting, upgrades and user calls, and every point at which a message may trap or a ledger call may fail",
     NOTEST + "Double mints need a trap or a repeated scrape between the ledger's effect and the minter's record of it.",
     [M + "deposit.rs", M + "deposit_logs/parser.rs", M + "deposit_logs/mod.rs", M + "state.rs", M + "state/audit.rs", M + "guard/mod.rs", M + "cbor/nat.rs", M + "cbor/principal.rs", M + "checked_amount/mod.rs"],
     [("quarantine guard around the ledger call", M + "deposit.rs mint"), ("events keyed by transaction hash and log index", M + "state.rs record_event_to_mint"), ("memo carries the deposit's identity", M + "memo.rs")],
     [("events_to_mint / minted_events / invalid_events", "life cycle of a deposit", M + "state.rs")],
     ["ledger blocks of every ICRC ledger", "get_events"])
prop("P02", "No final deposit is lost; each is credited once peers answer again",
     "Every well-formed deposit of a supported token in a block that became final is eventually credited, or is visibly quarantined because a message trapped while its mint was in flight. After the last fault (ledger, provider or network outage, trap, stop, upgrade) the credit happens within a bounded number of scrape and mint rounds; a mint the ledger refused is tried again within minutes, and what one ledger refuses does not hold up the deposits of the others.",
     ALL, "every deposit history, fault sequence and upgrade schedule; liveness is judged after faults have stopped",
     NOTEST + "A lost deposit needs a particular alignment of block ranges, errors and restarts.",
     [M + "deposit.rs", M + "deposit_logs/scraping.rs", M + "numeric/range.rs", M + "storage.rs", M + "state.rs", "evm_rpc_client/src/lib.rs"],
     [("scrape loop over contiguous ranges, halved when the answer is too large", M + "deposit.rs scrape_until_block"), ("retry timers", M + "deposit.rs"), ("log filter lists every supported token", M + "deposit_logs/scraping.rs")],
     [("last_scraped_block_number", "blocks already read", M + "state.rs")], ["ledger balances of depositors", "get_events"])
prop("P03", "Bad deposits never mint and never hold up other deposits",
     "A deposit log that is malformed, names a bad principal, an unsupported token or another contract, is removed or pending, or does not cover the deposit fee mints nothing; one that names its transaction is put on record as refused when it is read; and neither the scraping of later blocks nor the crediting of other deposits stops because of it.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every mixture of valid and invalid logs in any block and any order",
     NOTEST + "Whether one bad log blocks others shows only over a history with several deposits and repeated rounds.",
     [M + "deposit_logs/parser.rs", M + "deposit_logs/mod.rs", M + "deposit.rs", M + "state.rs"],
     [("invalid events recorded and skipped", M + "deposit.rs register_deposit_events"), ("principal and topic validation", M + "deposit_logs/parser.rs")],
     [("invalid_events", "deposits that will never mint", M + "state.rs")], ["ledger blocks", "get_events"])
prop("P04", "A withdrawal is paid at most once, to its recipient, in its token and amount",
     "For every accepted withdrawal at most one transaction is ever mined, it pays exactly the recipient and token the user named, and its value is the burned amount less the transaction fee for native withdrawals or the full burned amount for tokens. No transaction is signed or sent that does not belong to an accepted withdrawal, and no user is paid without having burned.",
     ALL, "every history of withdrawal requests, fee changes, resubmissions, provider failures, traps and upgrades",
     NOTEST + "Double payment requires resubmission racing with mining, or a trap between signing, sending and recording.",
     [M + "withdraw.rs", M + "tx.rs", M + "state/transactions/mod.rs", M + "main.rs", M + "map.rs", M + "checked_amount/mod.rs", M + "eth_types/mod.rs"],
     [("one nonce per withdrawal through its life", M + "state/transactions/mod.rs"), ("resubmission keeps the nonce", M + "tx.rs")],
     [("pending/created/sent/finalized transactions", "life cycle of a withdrawal", M + "state/transactions/mod.rs")], ["transactions mined on the simulated chain", "eth_sendRawTransaction"])
prop("P05", "A withdrawal is either paid or reimbursed, never both, and reimbursed once",
     "A withdrawal whose transaction failed is reimbursed on the ledger exactly once with exactly what is owed, one whose transaction succeeded is never reimbursed, and the outcome is taken from the receipt of the mined transaction with that withdrawal's nonce. A token withdrawal whose token burn failed gets back the gas it had paid, once, less the configured penalty if any.",
     ALL, "every sequence of mined, failed, replaced and dropped transactions, ledger failures during reimbursement, traps and upgrades",
     NOTEST + "Needs a failed receipt plus faults between the reimbursement transfer and its record.",
     [M + "withdraw.rs", M + "state/transactions/mod.rs", M + "state/audit.rs", M + "memo.rs", M + "map.rs"],
     [("reimbursement requests keyed by withdrawal", M + "state/transactions/mod.rs"), ("quarantine guard around the reimbursement", M + "withdraw.rs process_reimbursement")],
     [("reimbursement_requests / reimbursed", "owed and done", M + "state/transactions/mod.rs")], ["ledger mints", "receipts on the simulated chain"])
prop("P06", "Every accepted withdrawal completes once the faults stop",
     "After providers, ledgers and the signing service answer again, every accepted withdrawal reaches a final state (paid, reimbursed or visibly quarantined) within a bounded number of timer rounds, fees having risen or not, and whatever other withdrawals are in the queue. A withdrawal whose amount cannot cover the fee waits without holding up the others, and a transaction whose tip has become too low is replaced like one whose maximum fee has: a round that learns the price and the number of mined transactions replaces every pending transaction below that price, up to the first whose fees can no longer be raised. Reimbursements one ledger refuses do not hold up those on another.",
     ALL, "every withdrawal history with gas price moves, lost transactions, outages, traps, stops and upgrades",
     NOTEST + "Liveness across retries and timers is not a property of a single call.",
     [M + "withdraw.rs", M + "tx.rs", M + "state/transactions/mod.rs", M + "guard/mod.rs", M + "main.rs"],
     [("retry timers", M + "withdraw.rs"), ("resubmission when the fee rises", M + "state/transactions/mod.rs create_resubmit_transactions"), ("reschedule of the front request", M + "state/transactions/mod.rs")],
     [], ["withdrawal status queries", "mined transactions"])
prop("P07", "Nonces are consecutive and every signed transaction is well formed",
     "Nonces are handed out consecutively from the configured start with no gap and no reuse by another withdrawal, every raw transaction is a valid EIP-1559 transaction for the configured chain signed by the minter's own address, and a replacement differs from what it replaces only in fees that are raised by at least ten percent of the tip (and, for native payments, in the value lowered to pay them). Nothing is replaced behind a transaction whose own fees can no longer be raised.",
     ALL, "every network, sequence of withdrawals, gas price path, signature failure, trap and upgrade",
     NOTEST + "Consecutiveness and replacement rules relate many transactions of one history.",
     [M + "tx.rs", M + "state/transactions/mod.rs", M + "withdraw.rs", M + "management.rs", M + "evm_config.rs", M + "address.rs", M + "checked_amount/mod.rs"],
     [("next nonce in the state", M + "state/transactions/mod.rs"), ("fee bump", M + "tx.rs resubmit_strategy"), ("RLP and signature", M + "tx.rs")],
     [("next_nonce", "next transaction nonce", M + "state/transactions/mod.rs")], ["eth_sendRawTransaction decoded and its signer recovered", "sign_with_ecdsa requests"])
prop("P08", "A withdrawal call is atomic for its caller",
     "A withdrawal call that returns an error or is rejected has cost the caller nothing beyond the ledger fees of a refused attempt (anything else burned or charged is refunded or queued for reimbursement), and a call that returns success has burned exactly the requested amount and is recorded. A refused call leaves no lock behind: the same caller can withdraw again.",
     ALL, "every argument, balance, allowance, ledger failure and trap point of the call, concurrent with every other activity",
     NOTEST + "The endpoints have several awaits; what is charged at a failure between them is never exercised.",
     [M + "main.rs", M + "ledger_client.rs", M + "endpoints.rs", M + "guard/mod.rs", M + "withdraw.rs"],
     [("fee refund", M + "ledger_client.rs refund_withdrawal_fee"), ("failed token burn queues the gas for reimbursement", M + "main.rs withdraw_erc20")],
     [], ["caller balance before and after", "endpoint answers"])
prop("P09", "Upgrades lose nothing: replayed state equals the state before",
     "At any moment an upgrade succeeds and the upgraded minter is indistinguishable from the one before: all balances, pending work, statuses, settings, token list and scraped height are as they were, except for what the upgrade argument names. This includes an upgrade from the minter as deployed today: every log entry it has written is read back with the same meaning. The event log only ever grows, and its pages taken together return every entry exactly once, in order, unchanged.",
     ALL, "every reachable state (any history with amounts up to 2^256, any principals) as an upgrade point, and every upgrade argument",
     NOTEST + "Round trips of single values are tested; that the log rebuilds an arbitrary reachable state is not.",
     [M + "storage.rs", M + "state/audit.rs", M + "state/event.rs", M + "lifecycle.rs", M + "state.rs", M + "cbor/mod.rs", M + "cbor/nat.rs", M + "cbor/principal.rs", M + "cbor/u256.rs", M + "cbor/id.rs", M + "map.rs"],
     [("every state change is an event applied by one function", M + "state/audit.rs"), ("replay at post-upgrade", M + "lifecycle.rs post_upgrade"), ("stable log", M + "storage.rs")],
     [("stable log of events", "the only durable state", M + "storage.rs")], ["get_minter_info, get_events and status queries before and after", "later behaviour compared with the reference model"])
prop("P10", "The minter stays solvent and reports its true balances",
     "For every token, what the minter holds on chain always covers what it owes to ledger holders and pending withdrawals, up to gas it is allowed to spend. The native and token balances and total fees that the minter reports equal the sums over its finalised history.",
     ALL, "every history of deposits, withdrawals, failures, reimbursements and upgrades",
     NOTEST + "Conservation is a statement over whole histories.",
     [M + "state.rs", M + "state/audit.rs", M + "withdraw.rs", M + "deposit.rs", M + "checked_amount/mod.rs"],
     [("balance bookkeeping per event", M + "state.rs update_balance_upon_deposit / update_balance_upon_withdrawal")],
     [("native_balance / erc20_balances", "what the minter holds", M + "state.rs")], ["get_minter_info", "simulated chain balance of the helper contract / minter", "ledger total supplies"])
prop("P11", "No task overlaps itself, and no lock outlives its task",
     "At no time do two runs of the same background task, or two withdrawals of the same caller, make progress at once, and at most a hundred withdrawals are handled at once: one that arrives while a hundred others are being handled, or a hundred wait for their transaction, is rejected without effect. Every lock is released when its holder returns, fails or traps, so a later run is never refused for a holder that is gone.",
     ["schedules", "crash_points", "fault_sequences", "histories"], "every interleaving of timers and calls, every trap point",
     NOTEST + "Guard tests are sequential and never cross an await or a trap.",
     [M + "guard/mod.rs", M + "deposit.rs", M + "withdraw.rs", M + "main.rs"],
     [("TimerGuard and retrieve_withdraw_guard", M + "guard/mod.rs")], [("active_tasks / pending_withdrawal_principals", "held locks", M + "state.rs")],
     ["calls in flight per task and caller", "answers of later calls"])
prop("P12", "A single lying or failing provider changes nothing",
     "Where the minter asks several providers, no single provider that lies, is stale, or fails can make it mint an unreal deposit, skip a real one, record a wrong outcome of a withdrawal or lose a nonce; a disagreement only delays. It asks, for each network, exactly the intended providers with the intended keys.",
     ["fault_sequences", "inputs", "schedules", "configurations"], "every network and every assignment of answers by one provider to every request of a history",
     NOTEST + "The reduction functions are tested on a few literal result pairs, not their use across a history.",
     [M + "rpc_client/mod.rs", M + "rpc_client/providers.rs", M + "deposit.rs", M + "withdraw.rs", M + "evm_config.rs", "evm_rpc_client/src/lib.rs"],
     [("reduction with equality or threshold", M + "rpc_client/mod.rs"), ("provider lists", M + "rpc_client/providers.rs")],
     [], ["answers given to the minter against what it then did", "provider lists of every request"])
prop("P13", "Only authorised, valid requests change anything",
     "Anonymous callers cannot withdraw, nobody but the ledger suite manager can register tokens, and withdrawals to malformed addresses or the zero address, of unsupported tokens, or below the minimum are refused without any effect. A token can be registered once; registering it makes exactly that contract and ledger usable, and a refused registration changes nothing.",
     ["inputs", "histories", "schedules", "configurations"], "every caller, address string, amount, token and registration order",
     NOTEST + "Access rules of the endpoints are not tested at all.",
     [M + "main.rs", M + "address.rs", M + "eth_types/mod.rs", M + "erc20.rs", M + "map.rs", M + "state.rs"],
     [("caller and address validation", M + "main.rs, " + M + "address.rs"), ("two-way unique token map", M + "map.rs DedupMultiKeyMap")],
     [("erc20_tokens", "supported tokens", M + "state.rs")], ["endpoint answers", "get_minter_info token list", "ledger and log unchanged"])
prop("P14", "Reported withdrawal status and searches are truthful",
     "At every moment the status reported for a withdrawal is the stage its history really reached, with the right transaction hash, reimbursement and amounts, and a search by id, recipient or sender returns exactly the matching withdrawals. A status never moves backwards except from sent to a newer pending transaction or through reimbursement.",
     ["histories", "schedules", "crash_points", "fault_sequences", "inputs"], "every withdrawal at every moment of every history",
     NOTEST + "The status is only meaningful against an independent account of the same history.",
     [M + "state/transactions/mod.rs", M + "main.rs", M + "endpoints.rs", M + "map.rs"],
     [("transaction_status / withdrawal_status", M + "state/transactions/mod.rs")], [], ["retrieve_witdrawal_status", "withdrawal_status"])
prop("P15", "Provider calls retry with enough cycles, and only for lack of cycles",
     "A provider call first attaches the minimum number of cycles; when any provider answers that it was too little, the very same request is repeated with at least twice as many and at least as many as were asked for, at most ten times. No other answer is retried this way, and the answer is handed on unchanged.",
     ["fault_sequences", "inputs", "schedules"], "every sequence of too-few-cycles answers by any subset of providers, for every method",
     NOTEST + "The client's tests cover neither mixed answers nor repeated escalation in a running canister.",
     ["evm_rpc_client/src/lib.rs", M + "rpc_client/mod.rs"],
     [("escalation loop", "evm_rpc_client/src/lib.rs call_internal")], [], ["cycles, arguments and number of outgoing calls"])
prop("P16", "Fees used and quoted follow the observed fee history",
     "Every price the minter quotes or uses derives from the latest fee history it fetched: the base fee of the next block and the middle of the tips (at least the network's minimum), a maximum fee of twice the base fee plus the tip, and the gas limit of the kind of transaction. An observation is used for at most thirty seconds, then fetched afresh; quotes are exact.",
     ["histories", "schedules", "inputs", "configurations", "fault_sequences"], "every fee path and timing of requests, on every network",
     NOTEST + "Freshness depends on the clock and on requests interleaving.",
     [M + "tx.rs", M + "main.rs", M + "withdraw.rs", M + "evm_config.rs", M + "checked_amount/mod.rs"],
     [("lazy refresh of the fee estimate", M + "tx.rs lazy_refresh_gas_fee_estimate"), ("price", M + "tx.rs GasFeeEstimate")],
     [("last_transaction_price_estimate", "cached estimate", M + "state.rs")], ["eip_1559_transaction_price", "fees in signed transactions", "token withdrawal fee burned"])
prop("P17", "Requested scrapes are throttled and honoured",
     "A request to scrape is refused for a block already observed or within the configured minute of the last observation, and otherwise starts a scrape, which asks for the head of the chain at most three times; requests can neither suppress nor multiply the periodic scrapes: since an installation or upgrade there are no more scrapes than the ten-minute timer and the accepted requests explain.",
     ["schedules", "inputs", "histories", "fault_sequences"], "every timing of requests relative to timers, failures and upgrades",
     NOTEST + "Depends on clock and state shared with the timer task.",
     [M + "main.rs", M + "deposit.rs"], [("validate_log_scraping_request", M + "deposit.rs")],
     [("last_observed_block_time", "time of the last observation", M + "state.rs")], ["request_scraping_logs answers", "provider calls started"])
prop("P18", "Only sufficiently deep blocks count",
     "Deposits are credited only from blocks at the network's required depth, and a withdrawal is declared finished only when its nonce is final, so that a reorganisation of shallower blocks never leaves a wrong credit, outcome or reimbursement.",
     ["fault_sequences", "schedules", "histories", "configurations"], "every network and every reorganisation shallower than its depth at any time",
     NOTEST + "No test has a chain that reorganises.",
     [M + "deposit.rs", M + "withdraw.rs", M + "evm_config.rs", M + "state.rs"],
     [("depth per network", M + "deposit.rs update_last_observed_block_number"), ("finalised transaction count", M + "withdraw.rs finalize_transactions_batch")],
     [], ["credits and outcomes against the final chain"])
prop("P19", "Log ranges are contiguous: no block skipped, none beyond the safe head",
     "The block ranges asked for in log requests continue exactly where the last successful one ended, never overlap or leave a gap, never exceed the provider's limit or the safe head, and are halved at once when an answer is too large; a range that failed is asked again, and a scrape goes on to the safe head while nothing fails. Only a single block that at least two providers call too large is given up, visibly. The filter names the helper contract, the deposit event and every supported token plus the native one.",
     ["fault_sequences", "histories", "configurations", "schedules"], "every chain height (around 2^16, 2^32 and others), spread, error pattern, token registration time and upgrade",
     NOTEST + "Range arithmetic is tested on literals; contiguity over a history with errors is not.",
     [M + "deposit.rs", M + "numeric/range.rs", M + "deposit_logs/scraping.rs", M + "checked_amount/mod.rs", M + "rpc_client/mod.rs", "evm_rpc_client/src/lib.rs"],
     [("scrape_until_block / scrape_block_range", M + "deposit.rs")], [("last_scraped_block_number", "end of the last range", M + "state.rs")], ["eth_getLogs requests"])
prop("P20", "Configuration is taken exactly as given, or refused as a whole",
     "A minter initialised or upgraded with valid arguments reports and uses exactly those values (network, contract, ledgers, fees, minimum, block heights, keys) on every network, keeps every value that an upgrade does not name, and refuses invalid arguments without any change.",
     ["configurations", "inputs", "histories", "crash_points"], "every network and every combination of initial and upgrade arguments at any point of a history",
     NOTEST + "Only single conversions are tested; that every field survives initialisation, use and later upgrades is not.",
     [M + "lifecycle.rs", M + "state.rs", M + "evm_config.rs", M + "main.rs", M + "eth_types/mod.rs", M + "checked_amount/mod.rs", M + "cbor/nat.rs"],
     [("TryFrom<InitArg> for State", M + "lifecycle.rs"), ("State::upgrade and validate_config", M + "state.rs")],
     [], ["get_minter_info, smart_contract_address, minter_address", "refused installs and upgrades"])
prop("P21", "The event log is a faithful account of what happened",
     "Every effect on a ledger or on the chain that the minter caused is recorded in its event log with exact amounts, parties, hashes and indices, in an order that the life cycle of a deposit or withdrawal allows, and no entry records something that did not happen.",
     ALL, "every history, trap point and upgrade",
     NOTEST + "Faithfulness relates the log to the peers' records of the same history.",
     [M + "state/audit.rs", M + "state/event.rs", M + "deposit.rs", M + "withdraw.rs", M + "main.rs", M + "endpoints.rs", M + "storage.rs", M + "cbor/mod.rs"],
     [("process_event records and applies", M + "state/audit.rs")], [], ["get_events against ledgers and chain"])

NA = []

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            p = {k: v for k, v in p.items() if k != "note"}
            if not p["anchors"]["state"]:
                del p["anchors"]["state"]
            f.write(json.dumps(p) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    man = dict(version=1, setup_cmd="bash tools/build.sh", checks=[], not_applicable=NA,
               notes="Every check runs the whole canister, compiled natively from /repo's working tree, inside one deterministic simulator (sim/harness). No hook in /repo is needed: the seams are the canister's own imports (IC system API, ic-cdk, timers, stable memory), replaced at link level; see DESIGN.md. Replay a violation with tools/replay.sh FILE.")
    for p in P:
        man["checks"].append(dict(
            property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
            technique="deterministic simulation with fault injection (seeded search over schedules, traps, upgrades and peer faults; reference-model and history oracles)",
            level="exploration",
            level_note=p["note"] or "Sampled, not exhaustive: seeded runs of the real canister code against simulated peers. Trusts the simulated ledgers, chain, providers and replica semantics, and the stand-ins for unreachable dfinity crates."))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
