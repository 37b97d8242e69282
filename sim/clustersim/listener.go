package clustersim

import (
	"runtime"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
)

// listener observes what enters and leaves the ledger of one incarnation of a node. It runs inside the node
// and only records and compares.
type listener struct {
	cl  *cluster
	n   *cnode
	inc *core.Node
}

func (l *listener) PrepareInsertAccountBlocks(blocks []*interfaces.VmAccountBlock) error {
	l.n.mods++
	return nil
}
func (l *listener) PrepareInsertSnapshotBlocks(chunks []*ledger.SnapshotChunk) error {
	l.n.mods++
	return nil
}
func (l *listener) PrepareDeleteAccountBlocks(blocks []*ledger.AccountBlock) error {
	l.n.dels++
	l.n.mods++
	return nil
}
func (l *listener) PrepareDeleteSnapshotBlocks(chunks []*ledger.SnapshotChunk) error {
	l.n.dels++
	l.n.mods++
	return nil
}

func (l *listener) InsertAccountBlocks(blocks []*interfaces.VmAccountBlock) error {
	l.n.mods++
	core.Count("account_inserts", int64(len(blocks)))
	for _, b := range blocks {
		core.Logf("%s + %s %d %s", l.n.name, b.AccountBlock.AccountAddress, b.AccountBlock.Height, b.AccountBlock.Hash)
		if a := b.AccountBlock; types.IsContractAddr(a.AccountAddress) && a.IsReceiveBlock() {
			l.n.signers[a.Hash] = a.Producer()
		}
	}
	return nil
}

func (l *listener) InsertSnapshotBlocks(chunks []*ledger.SnapshotChunk) error {
	l.n.mods++
	cl := l.cl
	for _, c := range chunks {
		b := c.SnapshotBlock
		if b == nil {
			continue
		}
		core.Count("snapshot_inserts", 1)
		core.Logf("%s S+ %d %s by %s content %d", l.n.name, b.Height, b.Hash, cl.who(b.Producer()), len(b.SnapshotContent))
		if l.n.top != nil && (b.Height != l.n.top.Height+1 || b.PrevHash != l.n.top.Hash || !b.Timestamp.After(*l.n.top.Timestamp)) {
			core.Fail("snapshot-link", "%s: snapshot block %d %s (prev %s, %s) follows %d %s (%s)", l.n.name, b.Height, b.Hash, b.PrevHash, b.Timestamp.UTC(), l.n.top.Height, l.n.top.Hash, l.n.top.Timestamp.UTC())
		}
		l.n.top = b
		cl.seenSnapshot(l.n, l.inc, b)
	}
	l.n.lock = cl.irreversible(l.n.top)
	return nil
}

func (l *listener) DeleteAccountBlocks(blocks []*ledger.AccountBlock) error {
	l.n.dels++
	l.n.mods++
	core.Count("account_deletes", int64(len(blocks)))
	for _, b := range blocks {
		core.Logf("%s - %s %d %s", l.n.name, b.AccountAddress, b.Height, b.Hash)
	}
	return nil
}

func (l *listener) DeleteSnapshotBlocks(chunks []*ledger.SnapshotChunk) error {
	l.n.dels++
	l.n.mods++
	for i := len(chunks) - 1; i >= 0; i-- {
		b := chunks[i].SnapshotBlock
		if b == nil {
			continue
		}
		core.Count("snapshot_deletes", 1)
		core.Logf("%s S- %d %s", l.n.name, b.Height, b.Hash)
		if f := l.n.lock; f != nil && f.Height >= b.Height {
			core.Fail("finality-rollback", "%s removes snapshot block %d %s although block %d %s is irreversible: %d producers followed it in its period", l.n.name, b.Height, b.Hash, f.Height, f.Hash, l.cl.need)
		}
		if f := l.n.final; f != nil && f.Height >= b.Height {
			// an earlier rollback kept the block but removed the blocks that made it irreversible
			core.Count("finality_retracted", 1)
			core.Logf("%s removes snapshot block %d %s which it once reported as irreversible", l.n.name, b.Height, b.Hash)
			l.n.final = nil
		}
		l.n.top = l.cl.headers[b.PrevHash]
	}
	if l.n.top != nil && len(chunks) < 100 { // a long removal comes in several parts
		l.n.lock = l.cl.irreversible(l.n.top)
	}
	return nil
}

// seenSnapshot: b entered the ledger of some node.
func (cl *cluster) seenSnapshot(n *cnode, inc *core.Node, b *ledger.SnapshotBlock) {
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	if k := cl.forgedSnaps[string(b.Signature)]; k != "" {
		core.Fail("accepted-forgery", "%s accepts a forged snapshot block (%s): %d %s", n.name, k, b.Height, b.Hash)
	}
	if cl.headers[b.Hash] == nil && b.Producer() == n.addr && cl.c.Params["nolive"] == 0 {
		// a producer makes at most one block for a slot in one life of its process
		k := slot{b.Timestamp.Unix(), inc.Tag}
		if o := cl.slots[k]; o != nil {
			core.Fail("double-slot", "%s made two blocks for its slot at %s: %d %s and %d %s", n.name, b.Timestamp.UTC(), o.Height, o.Hash, b.Height, b.Hash)
		}
		cl.slots[k] = b
		core.Count("produced", 1)
	}
	cl.headers[b.Hash] = b
}

// irreversible returns the first block of the latest period of the chain below top in which enough producers
// made blocks.
func (cl *cluster) irreversible(top *ledger.SnapshotBlock) *ledger.SnapshotBlock {
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	for b := top; b != nil && b.Height > uint64(cl.need); {
		idx := (b.Timestamp.Unix() - genesisTime) / cl.plan
		by := map[types.Address]bool{}
		first := b
		for ; b != nil && b.Height > 1 && (b.Timestamp.Unix()-genesisTime)/cl.plan == idx; b = cl.headers[b.PrevHash] {
			by[b.Producer()] = true
			first = b
		}
		if len(by) >= cl.need {
			return first
		}
	}
	return nil
}

type slot struct {
	ts  int64
	inc uint32
}

func (cl *cluster) who(a types.Address) string {
	for _, n := range cl.nodes {
		if n.addr == a {
			return n.name
		}
	}
	for _, u := range cl.users {
		if u.addr == a {
			return "u" + string(rune('0'+u.i))
		}
	}
	return a.Hex()
}
