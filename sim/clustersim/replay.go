package clustersim

import (
	"bytes"
	"math/big"
	"sort"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
)

// world is the ledger of a node recomputed from its blocks alone.
type world struct {
	n         *cnode
	chunks    []*ledger.SnapshotChunk
	snaps     []*ledger.SnapshotBlock
	heads     map[types.Address]*ledger.AccountBlock
	blocks    map[types.Hash]*ledger.AccountBlock
	confirmed map[types.Hash]uint64 // account block -> height of the snapshot block that confirms it
	sends     map[types.Hash]*ledger.AccountBlock
	recv      map[types.Hash]types.Hash // send -> receive
	bal       map[types.Address]map[types.TokenTypeId]*big.Int
	order     []types.Address
	minted    map[types.TokenTypeId]*big.Int
	supply    map[types.TokenTypeId]*big.Int // minted minus burnt at the latest snapshot block
	dels      int
	mods      int
	fees      *big.Int
	all       []*ledger.AccountBlock
	viteAt    []map[types.Address]*big.Int // VITE balances at each snapshot height
}

func sortTokens(ts []types.TokenTypeId) {
	sort.Slice(ts, func(i, j int) bool { return bytes.Compare(ts[i][:], ts[j][:]) < 0 })
}

func (w *world) add(a types.Address, t types.TokenTypeId, d *big.Int) {
	m := w.bal[a]
	if m == nil {
		m = map[types.TokenTypeId]*big.Int{}
		w.bal[a] = m
		w.order = append(w.order, a)
	}
	if m[t] == nil {
		m[t] = new(big.Int)
	}
	m[t].Add(m[t], d)
}

func neg(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

func z(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return x
}

var zeroToken types.TokenTypeId

// readLedger takes the blocks of the node's ledger; nil if the node went away or the ledger changed meanwhile.
func (cl *cluster) readLedger(n *cnode) *world {
	var w *world
	ok := cl.on(n, 5*time.Minute, func(v *vite.Vite) {
		for try := 0; try < 5 && w == nil; try++ {
			c := v.Chain()
			mods, dels := n.mods, n.dels
			top := c.GetLatestSnapshotBlock()
			chunks, err := c.GetSubLedger(1, top.Height)
			un := c.GetAllUnconfirmedBlocks()
			top2 := c.GetLatestSnapshotBlock()
			if top.Hash != top2.Hash || n.mods != mods {
				continue
			}
			if err != nil {
				core.Fail("query", "%s: GetSubLedger(1, %d): %v", n.name, top.Height, err)
			}
			if len(un) > 0 {
				chunks = append(chunks, &ledger.SnapshotChunk{AccountBlocks: un})
			}
			w = &world{n: n, chunks: chunks, mods: mods, dels: dels}
		}
	})
	if !ok {
		return nil
	}
	return w
}

// replay checks the ledger block by block and computes its consequences.
func (cl *cluster) replay(w *world) {
	n := w.n
	bad := func(f string, a ...interface{}) { core.Fail("invalid-ledger", n.name+": "+f, a...) }
	w.heads = map[types.Address]*ledger.AccountBlock{}
	w.blocks = map[types.Hash]*ledger.AccountBlock{}
	w.confirmed = map[types.Hash]uint64{}
	w.sends = map[types.Hash]*ledger.AccountBlock{}
	w.recv = map[types.Hash]types.Hash{}
	w.bal = map[types.Address]map[types.TokenTypeId]*big.Int{}
	w.minted = map[types.TokenTypeId]*big.Int{}
	w.fees = new(big.Int)
	for a, m := range cl.genesisBalances {
		for t, x := range m {
			w.add(a, t, x)
		}
	}
	sort.Slice(w.order, func(i, j int) bool { return bytes.Compare(w.order[i][:], w.order[j][:]) < 0 })
	for a, b := range cl.genesisHeads {
		w.heads[a] = b
		w.blocks[b.Hash] = b
		w.confirmed[b.Hash] = 1
	}
	var prev *ledger.SnapshotBlock
	for ci, ch := range w.chunks {
		for _, b := range ch.AccountBlocks {
			if g := cl.genesisHeads[b.AccountAddress]; ci <= 1 && g != nil && g.Hash == b.Hash {
				continue
			}
			w.all = append(w.all, b)
			cl.replayBlock(w, b, bad)
		}
		sb := ch.SnapshotBlock
		if sb == nil {
			continue
		}
		if prev != nil {
			if sb.Height != prev.Height+1 || sb.PrevHash != prev.Hash {
				bad("snapshot block %d %s does not follow %d %s", sb.Height, sb.Hash, prev.Height, prev.Hash)
			}
			if !sb.Timestamp.After(*prev.Timestamp) {
				bad("time of snapshot block %d (%s) is not after its predecessor's (%s)", sb.Height, sb.Timestamp.UTC(), prev.Timestamp.UTC())
			}
			if sb.Hash != sb.ComputeHash() || !ed25519.Verify(sb.PublicKey, sb.Hash.Bytes(), sb.Signature) {
				bad("snapshot block %d %s is not signed by its producer", sb.Height, sb.Hash)
			}
			known := false
			for _, m := range cl.nodes {
				known = known || m.addr == sb.Producer()
			}
			if !known {
				bad("snapshot block %d was produced by %s, which is not registered", sb.Height, sb.Producer())
			}
			for a, hh := range sb.SnapshotContent {
				b := w.blocks[hh.Hash]
				if b == nil || b.AccountAddress != a || b.Height != hh.Height {
					bad("snapshot block %d confirms %s %d %s, which is not in the ledger", sb.Height, a, hh.Height, hh.Hash)
				}
				if w.heads[a].Hash != hh.Hash {
					bad("snapshot block %d confirms %s %d %s but the ledger at that point has %d %s", sb.Height, a, hh.Height, hh.Hash, w.heads[a].Height, w.heads[a].Hash)
				}
			}
			for _, b := range ch.AccountBlocks {
				hh := sb.SnapshotContent[b.AccountAddress]
				if hh == nil || hh.Height < b.Height {
					bad("block %s %d lies before snapshot block %d but is not confirmed by it", b.AccountAddress, b.Height, sb.Height)
				}
				w.confirmed[b.Hash] = sb.Height
				for _, s := range b.SendBlockList {
					w.confirmed[s.Hash] = sb.Height
				}
			}
		}
		w.snaps = append(w.snaps, sb)
		prev = sb
		m := make(map[types.Address]*big.Int, len(w.bal))
		for a, x := range w.bal {
			if y := x[ledger.ViteTokenId]; y != nil {
				m[a] = new(big.Int).Set(y)
			}
		}
		for uint64(len(w.viteAt)) <= sb.Height {
			w.viteAt = append(w.viteAt, nil)
		}
		w.viteAt[sb.Height] = m
		w.supply = map[types.TokenTypeId]*big.Int{}
		for t, x := range w.minted {
			w.supply[t] = new(big.Int).Set(x)
		}
	}
}

func (cl *cluster) replayBlock(w *world, b *ledger.AccountBlock, bad func(string, ...interface{})) {
	a := b.AccountAddress
	h := w.heads[a]
	if h == nil {
		if b.Height != 1 || !b.PrevHash.IsZero() {
			bad("first block of %s has height %d", a, b.Height)
		}
	} else if b.Height != h.Height+1 || b.PrevHash != h.Hash {
		bad("block %s %d %s does not follow %d %s", a, b.Height, b.Hash, h.Height, h.Hash)
	}
	if w.blocks[b.Hash] != nil {
		bad("block %s %d %s occurs twice", a, b.Height, b.Hash)
	}
	w.heads[a] = b
	w.blocks[b.Hash] = b
	if b.Hash != b.ComputeHash() || !ed25519.Verify(b.PublicKey, b.Hash.Bytes(), b.Signature) {
		bad("block %s %d %s is not signed", a, b.Height, b.Hash)
	}
	contract := types.IsContractAddr(a)
	if !contract && types.PubkeyToAddress(b.PublicKey) != a {
		bad("block %s %d %s is signed by somebody else", a, b.Height, b.Hash)
	}
	if contract {
		known := false
		for _, m := range cl.nodes {
			known = known || m.addr == b.Producer()
		}
		if !known || b.IsSendBlock() {
			bad("block %s %d %s of a contract was produced by %s", a, b.Height, b.Hash, b.Producer())
		}
	}
	if b.IsSendBlock() {
		w.send(b, bad)
		return
	}
	s := w.sends[b.FromBlockHash]
	if s == nil {
		bad("block %s %d %s receives %s, which is not in the ledger before it", a, b.Height, b.Hash, b.FromBlockHash)
	}
	if s.ToAddress != a {
		bad("block %s %d %s receives %s, which was sent to %s", a, b.Height, b.Hash, b.FromBlockHash, s.ToAddress)
	}
	if o, ok := w.recv[s.Hash]; ok {
		bad("block %s %d %s receives %s, which %s has received", a, b.Height, b.Hash, s.Hash, o)
	}
	w.recv[s.Hash] = b.Hash
	w.add(a, s.TokenId, z(s.Amount))
	if contract {
		fail := len(b.Data) == 33 && b.Data[32] == 1
		if fail {
			core.Count("contract_failures", 1)
			w.add(a, ledger.ViteTokenId, z(s.Fee)) // the fee is given back with the refund
		} else {
			core.Count("contract_successes", 1)
			if a == types.AddressAsset {
				if m, err := abi.ABIAsset.MethodById(s.Data); err == nil && m.Name == abi.MethodNameBurn {
					w.add(a, s.TokenId, neg(s.Amount))
					w.mint(s.TokenId, neg(s.Amount))
				}
			}
		}
		if fail && (z(s.Amount).Sign() > 0 || z(s.Fee).Sign() > 0) {
			total := new(big.Int)
			for _, x := range b.SendBlockList {
				if x.ToAddress != s.AccountAddress {
					bad("failed block %s %d sends to %s", a, b.Height, x.ToAddress)
				}
				total.Add(total, z(x.Amount))
			}
			if total.Cmp(new(big.Int).Add(z(s.Amount), z(s.Fee))) != 0 {
				bad("failed block %s %d refunds %v of %v and the fee %v", a, b.Height, total, s.Amount, s.Fee)
			}
		}
	} else if len(b.SendBlockList) > 0 {
		bad("block %s %d of a user has sends", a, b.Height)
	}
	for i, x := range b.SendBlockList {
		if x.AccountAddress != a || !x.IsSendBlock() || x.Hash != x.ComputeSendHash(b, uint8(i)) {
			bad("send %d of block %s %d is malformed", i, a, b.Height)
		}
		w.send(x, bad)
	}
}

func (w *world) mint(t types.TokenTypeId, d *big.Int) {
	if w.minted[t] == nil {
		w.minted[t] = new(big.Int)
	}
	w.minted[t].Add(w.minted[t], d)
}

func (w *world) send(b *ledger.AccountBlock, bad func(string, ...interface{})) {
	a := b.AccountAddress
	w.sends[b.Hash] = b
	if z(b.Amount).Sign() < 0 || z(b.Fee).Sign() < 0 {
		bad("block %s %d sends a negative amount", a, b.Height)
	}
	if b.BlockType == ledger.BlockTypeSendReward {
		if a != types.AddressAsset && a != types.AddressGovernance {
			bad("block of %s mints", a)
		}
		w.mint(b.TokenId, z(b.Amount))
		return
	}
	w.add(a, b.TokenId, neg(z(b.Amount)))
	w.add(a, ledger.ViteTokenId, neg(z(b.Fee)))
	w.fees.Add(w.fees, z(b.Fee))
	for _, t := range []types.TokenTypeId{b.TokenId, ledger.ViteTokenId} {
		if x := w.bal[a][t]; x != nil && x.Sign() < 0 {
			bad("%s spends more %s than it has: %v after block %d %s", a, t, x, b.Height, b.Hash)
		}
	}
}

// compare checks the queries of the (quiescent) node against the replayed ledger. It returns false when the
// node's ledger changed meanwhile.
func (cl *cluster) compare(w *world) bool {
	n := w.n
	same := false
	cl.on(n, 5*time.Minute, func(v *vite.Vite) {
		c := v.Chain()
		stable := func() bool {
			if n.mods != w.mods {
				return false
			}
			top := c.GetLatestSnapshotBlock()
			un := 0
			if k := w.chunks[len(w.chunks)-1]; k.SnapshotBlock == nil {
				un = len(k.AccountBlocks)
			}
			return top.Hash == w.snaps[len(w.snaps)-1].Hash && len(c.GetAllUnconfirmedBlocks()) == un
		}
		var errs []string
		for _, a := range w.order {
			bm, err := c.GetBalanceMap(a)
			if err != nil {
				errs = append(errs, err.Error())
				continue
			}
			for t, x := range w.bal[a] {
				if z(bm[t]).Cmp(x) != 0 {
					errs = append(errs, "balance of "+a.Hex()+" "+t.Hex()+" is "+z(bm[t]).String()+", its blocks give "+x.String())
				}
			}
			for t, x := range bm {
				if x.Sign() != 0 && w.bal[a][t] == nil {
					errs = append(errs, "balance of "+a.Hex()+" "+t.Hex()+" is "+x.String()+", its blocks give nothing")
				}
			}
			// unreceived transactions
			want := map[types.Hash]bool{}
			for h, s := range w.sends {
				if _, ok := w.recv[h]; !ok && s.ToAddress == a {
					want[h] = true
				}
			}
			got, err := c.GetOnRoadBlocksByAddr(a, 0, 1000)
			if err != nil {
				errs = append(errs, err.Error())
			}
			for _, g := range got {
				if !want[g.Hash] {
					errs = append(errs, "transaction "+g.Hash.Hex()+" is listed as not received by "+a.Hex())
				}
				delete(want, g.Hash)
			}
			for h := range want {
				errs = append(errs, "transaction "+h.Hex()+" to "+a.Hex()+" is not received and not listed")
			}
		}
		for t, x := range w.supply {
			ti, err := c.GetTokenInfoById(t)
			if t == ledger.ViteTokenId {
				continue
			}
			if err != nil || ti == nil {
				errs = append(errs, "no information about token "+t.Hex())
			} else if ti.TotalSupply.Cmp(x) != 0 {
				errs = append(errs, "total supply of "+t.Hex()+" is "+ti.TotalSupply.String()+", minted minus burnt is "+x.String())
			}
		}
		errs = append(errs, cl.queries(w, v)...)
		if !stable() {
			return
		}
		same = true
		if len(errs) > 0 {
			sort.Strings(errs)
			for _, b := range w.all {
				core.Debugf("%s %d %s type %d from %s to %s amount %v sends %d data %x", b.AccountAddress, b.Height, b.Hash, b.BlockType, b.FromBlockHash, b.ToAddress, b.Amount, len(b.SendBlockList), b.Data)
			}
			core.Fail("wrong-state", "%s at %d: %s (%d differences)", n.name, w.snaps[len(w.snaps)-1].Height, errs[0], len(errs))
		}
		core.Count("state_comparisons", 1)
	})
	return same
}
