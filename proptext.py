"""The text of the properties: the source of properties.jsonl and MANIFEST.json (see gen_docs.py)."""

T = {}

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, level_note, state=None):
    T[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, observe=observe, level_note=level_note, state=state or [])

SAMPLED = "Seeded sampling of schedules, faults and histories, not a proof: exit 0 means no violation in the executions explored. Trusts the simulator (patched Go runtime, simulated disk) and the reference model. "

prop("C01", "A crash of the node never loses or corrupts the flushed ledger",
     "After the process is killed at any instant (also during start-up, initialisation, flushing, rollback, or the recovery from an earlier crash), the ledger opens again and its latest snapshot block is one that was the latest since the last completed flush, never older and never a mixture. "
     "Every query about blocks, balances, storage, contracts, unreceived transactions and history then answers exactly as the ledger up to that snapshot block defines, and the ledger accepts new blocks from there. "
     "A clean stop and restart loses no snapshot block.",
     ["crash_points", "histories", "schedules"], "every history of inserts, rollbacks, flushes and restarts, every instant of death and every interleaving of the background flusher",
     "the packages of the ledger have no test that runs here; upstream tests never kill a process between two writes of a flush, whereas the three stores, the write-ahead log and the block files are updated by a background task in many steps",
     ["ledger/chain/chain.go", "ledger/chain/flusher/flusher.go", "ledger/chain/file_manager/file_manager.go", "ledger/chain/db/store.go", "ledger/chain/db/flush.go", "ledger/chain/state/redo.go", "common/db/xleveldb"],
     [("two-phase flush (prepare, redo log, commit, patch on start)", "ledger/chain/flusher"), ("memory and snapshot databases per store", "ledger/chain/db"), ("truncation of the block files to the recorded location", "ledger/chain/block")],
     ["ledger query interface after a restart"],
     SAMPLED + "Process death: every completed system call survives. Loss of unsynced writes (power failure) is outside the claim, because the flusher does not sync the stores.")

prop("C02", "Rolling back leaves exactly the ledger that existed at the target",
     "After any rollback of snapshot blocks (shallow or of thousands of blocks, with or without retained change logs, repeated, interleaved with new blocks and restarts) and after any deletion of unconfirmed account blocks, all queries answer as if the removed blocks had never been inserted. "
     "The report of a rollback names exactly the removed blocks in order, and a deletion removes exactly the chosen block and what depends on it. "
     "New blocks are accepted on the result and no trace of removed blocks (lists, on-road transactions, metadata, code, history) remains visible.",
     ["histories", "schedules", "inputs"], "every history of inserts, confirmations, deletions, rollbacks to any height, flushes and restarts",
     "state is rebuilt from per-snapshot change logs, history indexes and caches along several different paths chosen by depth and age; the tests that exist for it do not build here and sample a few short histories",
     ["ledger/chain/delete.go", "ledger/chain/state/delete.go", "ledger/chain/state/redo.go", "ledger/chain/state/round_cache.go", "ledger/chain/index", "ledger/chain/block", "ledger/chain/cache"],
     [("rollback by change log, or by history index when no change log exists", "ledger/chain/state/delete.go"), ("cache rollback", "ledger/chain/cache")],
     ["ledger query interface", "returned chunks of a rollback"], SAMPLED)

prop("C03", "Concurrent readers always see one consistent ledger",
     "While blocks are inserted, confirmed, rolled back and flushed in the background, every query by concurrent readers returns an answer that is true of one of the ledger versions that existed between its start and its end, and never an error, a mixture of versions, or data of a removed block. "
     "Answers about a fixed historical snapshot block never change while that block is part of the ledger, whatever caches are warm or flushes are running.",
     ["schedules", "histories"], "every interleaving of readers with the writer and the background flusher",
     "the tests read only while nothing is written; the windows are between the steps of a flush, of a cache update and of an insert",
     ["ledger/chain", "ledger/chain/cache", "ledger/chain/state/storage_database.go", "ledger/chain/state/round_cache.go", "ledger/chain/db/store.go", "common/db/memdb.go", "common/db/merged_iterator.go", "ledger/chain/flusher/flusher.go"],
     [("read-write lock of the flusher", "ledger/chain/flusher"), ("memory databases switched at a flush", "ledger/chain/db/flush.go"), ("caches", "ledger/chain/cache")],
     ["ledger query interface under concurrency"], SAMPLED + "Interleavings are at lock, channel, allocation and system-call granularity on one simulated processor (sequential consistency: no weak-memory effects).")

prop("C04", "Failing disks never corrupt the ledger",
     "When any write, truncation, sync or read of the ledger's files fails or is cut short (I/O error, full disk), the node reports the failure or stops, and never answers a query with wrong data. "
     "After a restart with the disk working again the ledger opens, is in one of the states since the last completed flush, and answers every query exactly as that state defines.",
     ["fault_sequences", "histories", "schedules"], "every position of a failed or short write, sync, truncation or read during every history",
     "no test injects an I/O error",
     ["ledger/chain/flusher/flusher.go", "ledger/chain/file_manager/file_manager.go", "common/db/xleveldb", "ledger/chain/db/store.go"],
     [("redo log before commit", "ledger/chain/flusher"), ("journal and manifest of the key-value store", "common/db/xleveldb")],
     ["ledger query interface before and after a restart"], SAMPLED)

NODE = SAMPLED + "Whole nodes run in one process under the simulator; the network is simulated at the level of TCP connections; static peers. "
WHYNET = "no test runs more than one node, and the packages involved have no test that builds here; the windows are in the interplay of partitions, forks, rollbacks, crashes and elections"

prop("C05", "Nodes agree on one growing chain once faults stop",
     "Whatever connections were cut, delayed or reset, whatever nodes crashed, stalled, joined late or lost their data, and whatever forged blocks were sent, a bounded time after the faults stop all nodes hold the same snapshot chain (apart from the last few blocks) and it grows. "
     "No node needs a restart or other help to rejoin the others.",
     ["schedules", "fault_sequences", "crash_points", "histories"], "every sequence of network faults, crashes, restarts and rejoining nodes with an honest quorum, and every interleaving",
     WHYNET,
     ["ledger/pool", "ledger/pool/tree", "net/syncer.go", "net/sync_downloader.go", "net/fetcher.go", "net/broadcaster.go", "ledger/consensus", "producer"],
     [("switch to the longer chain", "ledger/pool/snapshot_pool.go"), ("chunked synchronisation", "net/syncer.go"), ("fetching of missing blocks", "net/fetcher.go")],
     ["latest snapshot block and snapshot hashes by height of every node"], NODE + "Bound: 300 simulated seconds. Two known findings (see known_findings.txt) are told apart by their cause.")

prop("C06", "The ledger is always a valid history and no token appears or vanishes",
     "The chain every node holds is, block by block, a valid history: heights and hashes link, hashes and signatures are right, every transaction is received at most once and by its addressee, no balance is negative, snapshot contents follow each other. "
     "For every token the balances, the transactions still on the road and the fees burned or locked add up to the supply, at any time and under any faults. "
     "Every query about balances, storage, unreceived transactions, confirmations and history answers what that chain defines.",
     ["histories", "schedules", "fault_sequences"], "every history of transfers, contract calls, stakes, votes, token issues and burns over every schedule and fault sequence",
     WHYNET,
     ["vm", "vm/contracts", "vm_db", "ledger/verifier", "ledger/generator", "ledger/onroad", "ledger/chain", "ledger/pool"],
     [("verification by execution before insertion", "ledger/verifier"), ("on-road index", "ledger/chain/index/onroad.go"), ("atomic insert of a block and its effects", "ledger/chain")],
     ["ledger query interface of every node, compared with a replay of its blocks"], NODE)

prop("C07", "Nodes with the same blocks have the same state",
     "Any two nodes (or one node before and after a restart, or one that synchronised against one that executed) that hold the same chain give the same answers about every account: balances, storage, code, contract metadata, stakes, quota, votes, registrations, token information and unreceived transactions. "
     "It does not matter in which order blocks arrived, which forks were tried and rolled back, or which caches are warm.",
     ["histories", "schedules", "fault_sequences"], "every pair of histories of inserts, rollbacks and restarts that ends in the same chain",
     WHYNET,
     ["vm", "vm_db", "vm/quota", "ledger/chain/state", "ledger/chain/cache", "ledger/chain/plugins", "ledger/consensus"],
     [("deterministic execution", "vm"), ("rollback of caches and state", "ledger/chain")],
     ["state queries of all nodes at the same head and at the same historical block"], NODE)

prop("C08", "Forged blocks are never accepted and cannot stop a node",
     "A block with a wrong hash, signature, producer, slot, height, predecessor, balance, quota, proof of work or execution result, a second receipt of a transaction, or a receipt of something never sent, is never part of any honest node's ledger, whoever sends it and in whatever order relative to valid blocks. "
     "Receiving such blocks does not crash a node, and does not keep it from accepting valid blocks and agreeing with the others.",
     ["inputs", "schedules", "histories"], "every kind of malformed or dishonest block at every moment, from peers and from one dishonest producer",
     "the verifier's packages have no test that runs here; tests feed single blocks to single functions and never a running node",
     ["ledger/verifier", "ledger/pool", "net/broadcaster.go", "net/fetcher.go", "interfaces/core/account_block.go", "interfaces/core/snapshot_block.go", "vm/quota", "ledger/consensus"],
     [("stateless and stateful verification", "ledger/verifier"), ("execution and comparison of results", "ledger/verifier/account_verifier.go"), ("blacklist and pending blocks", "ledger/pool")],
     ["ledger of every honest node; whether it goes on"], NODE + "A dishonest producer may sign competing blocks of its own slots: nothing is promised about agreement then.")

prop("C09", "Blocks are produced exactly by the elected producer of each slot",
     "For every period the producers of snapshot blocks and of contracts' blocks that a node computes are those that registrations, votes, balances, production record and random seeds in its own chain define, whatever was rolled back, cached or restarted before. "
     "Every snapshot block in the chain is by the producer of its time slot, and no producer makes two blocks for one slot. "
     "The production statistics of every past period count exactly the blocks of the chain.",
     ["histories", "schedules", "fault_sequences"], "every history of registrations, votes, transfers, missed slots, forks, rollbacks and restarts",
     WHYNET,
     ["ledger/consensus", "ledger/consensus/core/vote_algo.go", "ledger/consensus/consensus_point_array.go", "ledger/consensus/cdb", "producer", "ledger/chain/state/round_cache.go"],
     [("election from an earlier snapshot block", "ledger/consensus/consensus_snapshot.go"), ("periods, hours and days as linked arrays of statistics", "ledger/consensus/consensus_point_array.go"), ("result caches by block hash", "ledger/consensus/chain_rw.go")],
     ["consensus queries by period, statistics, producers of the snapshot blocks"], NODE)

prop("C10", "An irreversible block is never rolled back",
     "Once a node's chain shows that enough distinct producers followed a snapshot block within one period, the node reports exactly that block as irreversible and never removes it or anything below it while the blocks that prove it are in its chain. "
     "The snapshot chain of a node always links: each new block extends the latest one, with a later time, and a rollback always leaves a prefix.",
     ["schedules", "fault_sequences", "histories"], "every schedule, partition, fork and dishonest producer",
     WHYNET,
     ["ledger/pool", "ledger/pool/snapshot_pool.go", "ledger/consensus/core", "ledger/chain/delete.go"],
     [("irreversible principle", "ledger/pool"), ("refusal to switch below the irreversible block", "ledger/pool/snapshot_pool.go")],
     ["irreversible block reported by the node; insert and delete events of its chain"], NODE + "Known limit: a rollback above the irreversible block can remove the blocks that prove it.")

prop("C11", "In a healthy network every accepted transaction is confirmed everywhere",
     "When messages are only delayed, a transaction that a node accepted from a client is, a bounded time later, confirmed on every node, unless the client itself made a competing one. "
     "Everything sent to a built-in contract is received by it in that time.",
     ["schedules", "histories"], "every schedule, delay and workload without faults",
     "no test runs more than one node",
     ["ledger/pool", "ledger/onroad", "net/broadcaster.go", "producer", "ledger/generator"],
     [("broadcast and re-broadcast of unconfirmed blocks", "ledger/pool"), ("contract workers", "ledger/onroad"), ("block production", "producer")],
     ["confirmation of accepted transactions on all nodes"], NODE)

prop("C12", "A node never dies by itself and always starts again",
     "No history of valid or invalid blocks, partitions, clock jumps, stalls and earlier crashes makes a node panic, deadlock or stop by itself. "
     "After it is killed at any instant, or stopped, or its data is deleted, it starts again, answers queries about its ledger and goes on.",
     ["crash_points", "schedules", "fault_sequences"], "every instant of death of every node during every history, and every interleaving",
     WHYNET,
     ["node/node.go", "ledger/pool", "ledger/consensus", "ledger/onroad", "ledger/chain", "net", "producer", "vite.go"],
     [("start and recovery order", "vite.go"), ("consistency checks that stop the process", "ledger/pool")],
     ["whether the process lives, whether a start succeeds"], NODE + "A panic in any goroutine of a node counts as its death.")

prop("C13", "The embedded key-value store is atomic, ordered, isolated and durable",
     "Under concurrent writers and readers, compactions and any options, every read, scan (forward, backward, seek, range) and snapshot of the key-value store shows the effect of a prefix-closed set of whole write batches that contains every batch acknowledged before it began, any two such views are ordered, and a snapshot never changes. "
     "After the process dies at any instant (also while opening), and after disk errors and a restart, the store opens again with every acknowledged batch whole; after a power failure it opens with every synced batch whole and every other batch whole or absent. "
     "No disk error ever makes it return wrong data.",
     ["schedules", "crash_points", "fault_sequences", "inputs"], "every interleaving of writers, readers and compactions, every crash point and power-failure image, every sequence of disk errors, all keys, values and batch sizes",
     "the package's tests do not build in this tree, and none crashes the store in the middle of a write, compaction or opening",
     ["common/db/xleveldb", "common/db/xleveldb/db_write.go", "common/db/xleveldb/db_compaction.go", "common/db/xleveldb/session.go", "common/db/xleveldb/storage/file_storage.go"],
     [("journal and its recovery", "common/db/xleveldb/journal/journal.go"), ("manifest", "common/db/xleveldb/session_util.go"), ("write merge and large batches", "common/db/xleveldb/db_write.go"), ("compaction", "common/db/xleveldb/db_compaction.go"), ("iterators", "common/db/xleveldb/db_iter.go")],
     ["Get, Has, iterators, snapshots and errors of the store"], SAMPLED + "Power failures keep any subset or any prefix of the unsynced writes of each file, or none. A store that saw a disk error may refuse further work until it is reopened.")

prop("C14", "The books of the staking, governance and token contracts always balance",
     "After every block the staking contract holds exactly the sum of the recorded stakes and every address has exactly the quota backing staked for it, the governance contract holds exactly the registered stakes, and the supply of every token is exactly what all accounts and transactions on their way hold. "
     "A failed call changes nothing and refunds exactly what it carried; a stake, registration or token is changed, paid out or given away only by its owner, not before it expires, once, and exactly as the call says, and an owner's rightful call never fails. "
     "Block producers' rewards are paid once per name and day, exactly for the recorded production, and a rollback, crash or restart restores the books of the snapshot it ends at.",
     ["histories", "inputs", "crash_points"], "every history of calls to the built-in contracts, orders of their execution, rollbacks, restarts and crashes",
     "the contracts' tests do not build in this tree and check single calls on a mock database, never a history that mixes old and new call versions, rollbacks and restarts",
     ["vm/contracts/contracts_quota.go", "vm/contracts/contracts_governance.go", "vm/contracts/contracts_asset.go", "vm/contracts/abi", "vm/vm.go", "vm_db", "ledger/generator", "ledger/chain/state"],
     [("stakes by index and by id, beneficiary totals", "vm/contracts/contracts_quota.go"), ("registrations and reward by day", "vm/contracts/contracts_governance.go"), ("supply, issue and burn", "vm/contracts/contracts_asset.go"), ("failed calls: revert and refund", "vm/vm.go")],
     ["contract storage, balances and blocks of the ledger"], SAMPLED + "One node with the real ledger, generator and contracts; the order of transactions and executions is drawn by the simulator. All upgrades are active from the start.")

prop("C15", "The exchange never loses, invents or gives away its users' money",
     "After every block the exchange contract holds at least what it owes: the balances of all its users, the fees not yet paid out and the stakes it made for them, token by token; what a user has locked is exactly what the user's open orders and orders on their way need, and stakes, cancelled stakes and unlocking VX are exactly as recorded. "
     "Every call changes the balances exactly as it says, those of the caller only (settlements, grants and payouts excepted); a withdrawal pays out exactly what it debits, a failed call changes nothing, a rightful call succeeds, and only the role's holder changes configuration, ownership or jobs, each of which runs once per period. "
     "A rollback, crash or restart restores the books of the snapshot it ends at.",
     ["histories", "inputs", "crash_points"], "every history of deposits, orders, cancellations, stakes, locks, settlements, periodic jobs, configuration changes, rollbacks, restarts and crashes",
     "the tests of the exchange contracts do not build in this tree and check a few calls on a mock database, never a history in which two contracts exchange messages while users and operators act",
     ["vm/contracts/contracts_dex_fund.go", "vm/contracts/dex", "vm/contracts/contracts_dex_trade.go", "vm/vm.go", "vm_db"],
     [("deposits, withdrawals, orders and stakes", "vm/contracts/contracts_dex_fund.go"), ("settlement of trades", "vm/contracts/dex/fund_settle.go"), ("account records", "vm/contracts/dex/fund_storage.go"), ("stakes and VX locks", "vm/contracts/dex/fund_stake.go"), ("fees and dividends by period", "vm/contracts/dex/fund_dividend.go")],
     ["contract storage, balances and blocks of the ledger"], SAMPLED + "One node with the real ledger, generator and contracts; the order of transactions and executions is drawn by the simulator. All upgrades are active from the start.")

prop("C16", "Orders match by price and time, at the maker's price, and settle exactly",
     "A new order trades with the best opposite orders it crosses, best price first and oldest first among equals, at the resting order's price, until it is filled, nothing crosses it or it has had 100 trades; the book is never crossed, no order is filled beyond its quantity or amount, and the rest of a limit order stays in the book. "
     "Post-only orders never trade on entry, fill-or-kill orders trade completely or not at all, immediate-or-cancel and market orders leave no rest, and market orders never exceed their amount limit. "
     "Each trade moves exactly the traded amounts and the fees at the orders' rates, everything not used is unlocked, and an order is cancelled only by its owner or an agent the owner has granted, which unlocks exactly its rest.",
     ["histories", "inputs", "crash_points"], "every sequence of orders, cancellations and configuration changes in every market, with rollbacks, restarts and crashes in between",
     "the matcher's tests do not build in this tree and replay a handful of fixed orders; none compares a history of random orders with a reference matcher",
     ["vm/contracts/dex/matcher.go", "vm/contracts/dex/order.go", "vm/contracts/dex/trade_helper.go", "vm/contracts/contracts_dex_trade.go", "vm/contracts/dex/fund_settle.go", "vm/contracts/dex/fund_helper.go"],
     [("matching and refunds", "vm/contracts/dex/matcher.go"), ("order keys and price-time order", "vm/contracts/dex/order.go"), ("order checks and locks", "vm/contracts/dex/fund_helper.go"), ("cancellation", "vm/contracts/contracts_dex_trade.go"), ("settlement", "vm/contracts/dex/fund_settle.go")],
     ["contract storage, balances and blocks of the ledger", "events of trades"], SAMPLED + "One node with the real ledger, generator and contracts; the order of transactions and executions is drawn by the simulator. Amounts are compared with exact arithmetic up to the rounding of one unit the contract documents.")

prop("C17", "A user's contract does exactly what its code says, or nothing",
     "Executing a transaction sent to a user's contract changes its storage, sends transactions, moves balances and writes logs exactly as its code says, given its input, balances, storage and the confirming snapshot, and a creation installs exactly the code and settings it asked for. "
     "An execution that reverts, fails, overdraws or runs out of quota changes nothing and refunds once, exactly what was sent along; a call nested more than 512 deep is kept and not executed; no code, input or query can crash the node. "
     "Executing the same again gives the same block, a query changes nothing and answers what the code says, and a rollback, crash or restart restores storage, code, logs and balances of the snapshot it ends at.",
     ["histories", "inputs", "crash_points"], "every contract, input and history of calls between contracts, with rollbacks, restarts and crashes in between",
     "the virtual machine's tests do not build in this tree and run single instructions or fixed programs on a mock database, never random programs over a history on the real ledger",
     ["vm/vm.go", "vm/instructions.go", "vm/interpreter.go", "vm/jump_table.go", "vm/memory.go", "vm/gas_table.go", "vm_db", "ledger/chain/state", "ledger/generator"],
     [("execution, revert and refund", "vm/vm.go"), ("instructions", "vm/instructions.go"), ("uncommitted changes", "vm_db/unsaved.go"), ("call depth, code and logs on disk", "ledger/chain/state")],
     ["contract storage, code, record, balances, blocks and logs of the ledger", "answers of queries"], SAMPLED + "One node with the real ledger, generator and virtual machine, compared with a reference interpreter written for this check; how much quota an execution uses is not compared. All upgrades are active from the start.")

prop("C18", "Subscribers are told of every block exactly once and in order",
     "A client that keeps a filter (and polls it within its five minutes) or a subscription is told of every snapshot block, account block, unreceived transaction and log it asked for that comes into the ledger or is removed from it, exactly once and in the order in which it happened, so that what it was told always adds up to what the ledger holds. "
     "Nothing it did not ask for and nothing that did not happen is reported, and a filter is dropped only after it was not polled for five minutes. "
     "No creation, use, expiry or removal of filters and subscriptions keeps the node from accepting blocks or other clients from being answered.",
     ["schedules", "histories", "inputs"], "every interleaving of insertions, rollbacks and deletions with the event loop, polling clients, expiring filters and subscriptions that come and go",
     "the event system has no test; whether events overtake each other or the loop, the filters and the expiry wait for each other depends on the interleaving of goroutines within microseconds",
     ["rpcapi/api/filters/event_system.go", "rpcapi/api/filters/chain_subscribe.go", "rpcapi/api/filters/subscribe.go", "ledger/chain/event_manager.go", "rpc/subscription.go"],
     [("event loop between the ledger's listeners and the subscriptions", "rpcapi/api/filters/event_system.go"), ("polled filters and their expiry", "rpcapi/api/filters/subscribe.go")],
     ["polled filters, pushed notifications, progress of the ledger"],
     SAMPLED + "Pushed notifications go over an in-process JSON-RPC connection instead of a websocket.")

prop("C19", "An account's quota is what its stake and its own recent blocks give",
     "At every moment the quota of an account is exactly what the stake for it as of the last snapshot, reduced by the load of the network, yields over the last 75 snapshots minus what its own blocks of that time used, whatever rollbacks, restarts, crashes and dropped blocks the node went through. "
     "A transaction is made if and only if this quota together with that of its proof of work (at most one such block per account until the next snapshot, at most 1,000,000 per block) covers its cost, and it is charged exactly its cost, the work first. "
     "A snapshot drops exactly the waiting blocks their accounts no longer have the quota for and those that depend on them, and a contract that ran out of quota waits 75 snapshots and then goes on.",
     ["histories", "inputs", "crash points"], "every history of transactions, stakes, loads, full and partial snapshots, rollbacks, restarts and crashes",
     "quota depends on the last 75 snapshots of all accounts and on state that is rebuilt after rollbacks and restarts; the tests compute it from a single hand-made list",
     ["vm/quota/quota.go", "vm/util/quota.go", "ledger/chain/cache/quota_list.go", "ledger/chain/unconfirmed.go", "vm/vm.go", "ledger/chain/builtin_contract.go"],
     [("quota by stake, load and work", "vm/quota/quota.go"), ("window of the quota used", "ledger/chain/cache/quota_list.go"), ("blocks dropped by a snapshot", "ledger/chain/unconfirmed.go")],
     ["quota reported by the node, transactions made or refused, quota charged, blocks dropped"],
     SAMPLED + "The tables of stakes, difficulties and load are compared by checksum; the quota used by a contract's instructions is only bounded.")

prop("C20", "A wallet's keys survive every crash and open only with their password",
     "Once the wallet said that it created a wallet file, recovered one from its mnemonic or gave it a new password that way, the file opens with exactly that password and yields exactly that mnemonic after any crash, power failure or disk error; a creation or change that fails or is interrupted leaves the file as it was or as it should be, never an unreadable one, and the other wallets alone. "
     "No other password opens it, a damaged file is refused or yields the same mnemonic, it neither holds the secret in the clear nor keeps the wallet from starting. "
     "However many clients create, lock, unlock, remove and use wallets at the same time, an unlocked or rightly opened wallet finds, derives and signs with exactly the keys of its mnemonic, a locked or removed one with none, and the node goes on.",
     ["crash points", "schedules", "inputs", "histories"], "every crash point and disk error of every writing, every interleaving of concurrent clients, every damage of a file",
     "the tests write and read a file once; whether a rename overtakes the content on the disk, or two clients meet in the wallet, takes a power failure or an interleaving they cannot arrange",
     ["wallet/manager.go", "wallet/account.go", "wallet/entropystore/manager.go", "wallet/entropystore/crypto_store.go", "wallet/entropystore/utils.go", "wallet/hd-bip/derivation/main.go", "crypto/crypto.go"],
     [("writing of the file", "wallet/entropystore/crypto_store.go"), ("wallets and their locks", "wallet/manager.go"), ("derivation of keys", "wallet/hd-bip/derivation/main.go")],
     ["mnemonics, addresses, private keys and signatures the wallet gives, errors, files on the disk"],
     SAMPLED + "The slow key derivation (scrypt) is replaced by a fast function of the same inputs; data races within one machine word are not simulated.")
