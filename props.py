"""Which simulations decide which property: jobs are (simulator, profile, share of the time)."""

LEDGER_REAL = ["ledger/chain (all of it)", "ledger/chain/block", "ledger/chain/index", "ledger/chain/state", "ledger/chain/flusher", "ledger/chain/cache", "ledger/chain/genesis", "ledger/chain/plugins", "common/db/xleveldb", "common/db (Store)", "vm_db"]
LEDGER_STUB = ["block production (the harness builds blocks and their write sets)", "consensus verification of producers (always true, or a chosen set of invalid blocks)", "disk: simulated (crash images, I/O errors)", "clock, goroutine scheduler and randomness: simulated"]

NODE_REAL = ["vite.Vite (the whole node)", "ledger/pool", "ledger/chain and its stores", "ledger/consensus", "ledger/verifier", "ledger/onroad", "producer", "net (peers, broadcast, fetch, sync)", "vm, vm/contracts, vm/quota, vm_db", "wallet (keys)"]
NODE_STUB = ["TCP connections: simulated network (delay, loss of connections, partitions, one-way cuts, stalls)", "UDP discovery: off, static peers", "disk: simulated (process death)", "clock, goroutine scheduler and randomness: simulated", "JSON-RPC transport: the node's interfaces are called directly", "proof of work: real check of the nonce, at a difficulty the client can find at once"]

VM_REAL = ["vm (built-in contract execution)", "vm/contracts", "vm/contracts/abi", "vm/quota", "vm_db", "ledger/generator", "ledger/chain and its stores"]
VM_STUB = ["network, pool and consensus: the harness orders transactions, contract executions and snapshots", "production statistics of block producers: a seeded table", "signatures are not checked", "disk: simulated (process death)", "clock, goroutine scheduler and randomness: simulated"]

def node(*jobs, **k):
    return dict(jobs=[("cluster",) + j for j in jobs], real=NODE_REAL, stubs=NODE_STUB, state_measure="heights, heads and finality of all nodes at every check", **k)

def plus(p, *jobs):
    return dict(p, jobs=p["jobs"] + list(jobs))

PROPS = {
    "C01": {"jobs": [("ledger", "crash", 1)], "real": LEDGER_REAL, "stubs": LEDGER_STUB},
    "C02": {"jobs": [("ledger", "rollback", 3), ("ledger", "deep", 2)], "real": LEDGER_REAL, "stubs": LEDGER_STUB},
    "C03": {"jobs": [("ledger", "readers", 1)], "real": LEDGER_REAL, "stubs": LEDGER_STUB},
    "C04": {"jobs": [("ledger", "diskerr", 1)], "real": LEDGER_REAL, "stubs": LEDGER_STUB},
    "C05": node(("net", 3), ("crash", 2), ("sync", 2), ("forge", 1)),
    "C06": plus(node(("calm", 3), ("net", 1), ("crash", 1), ("forge", 2)), ("vm", "books", 1), ("vm", "dex", 1)),
    "C07": node(("crash", 2), ("sync", 2), ("elect", 1), ("net", 1)),
    "C08": node(("forge", 1), ("byz", 1)),
    "C09": node(("elect", 4), ("net", 1), ("sync", 1)),
    "C10": node(("net", 2), ("byz", 2), ("elect", 1), ("crash", 1)),
    "C11": node(("calm", 1)),
    "C12": node(("crash", 3), ("sync", 1), ("forge", 1)),
    "C13": {"jobs": [("store", "mix", 3), ("store", "diskerr", 1)], "real": ["common/db/xleveldb (all of it, with journal, table, cache, memdb, file storage)"], "stubs": ["disk: simulated (crash and power-failure images, I/O errors)", "clock, goroutine scheduler, randomness: seeded"], "state_measure": "writes and keys per writer and tables per level at every barrier"},
    "C14": {"jobs": [("vm", "books", 1)], "real": VM_REAL, "stubs": VM_STUB, "state_measure": "records of each built-in contract and transactions on the way after every operation"},
    "C15": {"jobs": [("vm", "dex", 3), ("vm", "match", 1)], "real": VM_REAL, "stubs": VM_STUB, "state_measure": "records of each built-in contract and transactions on the way after every operation"},
    "C16": {"jobs": [("vm", "match", 3), ("vm", "dex", 1)], "real": VM_REAL, "stubs": VM_STUB, "state_measure": "records of each built-in contract and transactions on the way after every operation"},
    "C17": {"jobs": [("vm", "contracts", 1)], "real": VM_REAL, "stubs": VM_STUB, "state_measure": "records of each contract and transactions on the way after every operation"},
    "C19": {"jobs": [("vm", "quota", 1)], "real": VM_REAL, "stubs": VM_STUB + ["proof of work: a block states a difficulty, the nonce is not checked"], "state_measure": "records of each contract and transactions on the way after every operation"},
    "C18": {"jobs": [("ledger", "events", 1)], "real": ["rpcapi/api/filters", "rpc (server, client, JSON codec)"] + LEDGER_REAL, "stubs": ["websocket transport: in-process pipe"] + LEDGER_STUB},
    "C20": {"jobs": [("wallet", "mix", 1)], "real": ["wallet", "wallet/entropystore", "wallet/hd-bip/derivation", "crypto (AES-GCM)", "crypto/ed25519", "go-bip39"], "stubs": ["scrypt: a fast function of the same inputs", "disk: simulated (crash and power-failure images, I/O errors, damaged files)", "clock, goroutine scheduler, randomness: seeded"], "state_measure": "passwords and locks of all wallets after every segment"},
}
