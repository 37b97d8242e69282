package clustersim

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
)

func init() {
	core.Sims["cluster"] = core.Sim{Gen: gen, Run: run}
}

// act performs one step of the time line.
func (cl *cluster) act(op core.Op) {
	n := cl.nodes[int(op.B)%len(cl.nodes)]
	switch op.K {
	case "tx":
		cl.client(n, op)
	case "crash": // c: downtime in ms, silent if odd
		if n.n.IsDead || cl.down[n.i] > 0 {
			return
		}
		core.Injected("process_crash", 1)
		cl.crash(n, op.C%2 == 1)
		cl.down[n.i]++
		cl.after(op.C, func() {
			cl.down[n.i]--
			core.Logf("%s boots", n.name)
			cl.boot(n)
		})
	case "wipe": // the node comes back with an empty disk
		if n.n.IsDead || cl.down[n.i] > 0 {
			return
		}
		core.Injected("disk_replaced", 1)
		cl.crash(n, op.C%2 == 1)
		n.dir = core.NewDir(n.name)
		cl.down[n.i]++
		cl.after(op.C, func() {
			cl.down[n.i]--
			core.Logf("%s boots with an empty disk", n.name)
			cl.boot(n)
		})
	case "stop": // clean stop and start
		if !n.up || n.n.IsDead || cl.down[n.i] > 0 {
			return
		}
		core.Injected("restart", 1)
		cl.down[n.i]++
		inc, v := n.n, n.v
		go func() {
			done := make(chan struct{})
			inc.Go(func() {
				v.Stop()
				close(done)
			})
			t := time.NewTimer(60 * time.Second)
			select {
			case <-done:
				core.Logf("%s stopped", n.name)
			case <-inc.Dead:
			case <-t.C:
				core.Count("stop_hangs", 1)
				if core.Verbose {
					buf := make([]byte, 8<<20)
					println(string(buf[:runtime.Stack(buf, true)]))
				}
			}
			if !inc.IsDead {
				cl.crash(n, false)
			}
			time.Sleep(time.Duration(op.C) * time.Millisecond)
			cl.down[n.i]--
			cl.boot(n)
		}()
	case "part": // b: set of nodes on one side, c: duration in ms
		set := uint(op.B)
		core.Injected("partition", 1)
		core.Logf("partition %b", set)
		cl.cut(set, true)
		cl.after(op.C, func() {
			core.Logf("heal %b", set)
			cl.cut(set, false)
		})
	case "cut1": // one direction of one link
		a, b := cl.nodes[int(op.B/16)%len(cl.nodes)], cl.nodes[int(op.B%16)%len(cl.nodes)]
		if a == b {
			return
		}
		core.Injected("one_way_cut", 1)
		core.Logf("cut %s -> %s", a.name, b.name)
		cl.cuts[a.i][b.i]++
		cl.applyCuts()
		cl.after(op.C, func() {
			cl.cuts[a.i][b.i]--
			cl.applyCuts()
		})
	case "slow":
		a, b := cl.nodes[int(op.B/16)%len(cl.nodes)], cl.nodes[int(op.B%16)%len(cl.nodes)]
		if a == b {
			return
		}
		core.Injected("slow_link", 1)
		d := time.Duration(op.R%3000) * time.Millisecond
		cl.net.Slow(a.ip, b.ip, d, 0)
		cl.after(op.C, func() { cl.net.Slow(a.ip, b.ip, 0, 0) })
	case "reset":
		a, b := cl.nodes[int(op.B/16)%len(cl.nodes)], cl.nodes[int(op.B%16)%len(cl.nodes)]
		if a == b {
			return
		}
		core.Injected("connection_reset", int64(cl.net.Reset(a.ip, b.ip)))
	case "skew": // c: offset in ms
		core.Injected("clock_jump", 1)
		n.offset = op.C * 1e6
		runtime.SimClockOffset(n.n.Tag, n.offset)
	case "freeze":
		if n.n.IsDead || n.frozen {
			return
		}
		core.Injected("stall", 1)
		core.Logf("%s stalls", n.name)
		inc := n.n
		n.frozen = true
		runtime.SimFreeze(inc.Tag, true)
		cl.after(op.C, func() {
			n.frozen = false
			if !inc.IsDead {
				runtime.SimFreeze(inc.Tag, false)
				core.Logf("%s continues", n.name)
			}
		})
	case "forge":
		if !n.up || n.n.IsDead {
			return
		}
		v := n.v
		n.n.Go(func() { cl.badSnapshot(n, v, core.NewRand(op.R)) })
	}
}

func (cl *cluster) after(ms int64, f func()) {
	go func() {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		f()
	}()
}

func (cl *cluster) cut(set uint, on bool) {
	d := 1
	if !on {
		d = -1
	}
	for _, a := range cl.nodes {
		for _, b := range cl.nodes {
			if set>>uint(a.i)&1 != set>>uint(b.i)&1 {
				cl.cuts[a.i][b.i] += d
			}
		}
	}
	cl.applyCuts()
}

func (cl *cluster) applyCuts() {
	for _, a := range cl.nodes {
		for _, b := range cl.nodes {
			if a != b {
				cl.net.Cut(a.ip, b.ip, cl.cuts[a.i][b.i] > 0)
			}
		}
	}
}

func run(c *core.Case) {
	cl := newCluster(c)
	for range cl.nodes {
		cl.cuts = append(cl.cuts, make([]int, len(cl.nodes)))
	}
	late := uint(c.Params["late"]) // nodes that join only later
	for _, n := range cl.nodes {
		if late>>uint(n.i)&1 == 0 {
			if c.Params["stagger_ms"] > 0 {
				time.Sleep(time.Duration(cl.rnd.N(int(c.Params["stagger_ms"]))) * time.Millisecond)
			}
			cl.boot(n)
		} else {
			n.n = &core.Node{IsDead: true}
		}
	}
	go cl.watch()
	ops := append([]core.Op(nil), c.Ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].A < ops[j].A })
	for _, op := range ops {
		if d := time.Duration(op.A)*time.Millisecond - cl.sim(); d > 0 {
			time.Sleep(d)
		}
		cl.act(op)
	}
	if d := time.Duration(c.Params["dur_ms"])*time.Millisecond - cl.sim(); d > 0 {
		time.Sleep(d)
	}
	cl.finish()
}

// watch polls what every node claims to be final.
func (cl *cluster) watch() {
	for {
		time.Sleep(time.Duration(2000+cl.rnd.N(3000)) * time.Millisecond)
		for _, n := range cl.nodes {
			if !n.up || n.n.IsDead || n.frozen {
				continue
			}
			n, v, inc := n, n.v, n.n
			inc.Go(func() {
				h, peers := v.Chain().GetLatestSnapshotBlock().Height, v.Net().PeerCount()
				mods := n.mods
				f := v.Pool().GetIrreversibleBlock()
				fh := uint64(0)
				if f != nil {
					fh = f.Height
				}
				core.Debugf("%s height %d peers %d final %d", n.name, h, peers, fh)
				if n.n != inc || n.mods != mods || n.top == nil {
					return
				}
				cl.sawFinal(n, f)
			})
		}
	}
}

// sawFinal: the node says that f is irreversible, and its ledger did not change meanwhile.
func (cl *cluster) sawFinal(n *cnode, f *ledger.SnapshotBlock) {
	want := cl.irreversible(n.top)
	if f == nil && want == nil {
		return
	}
	if f == nil || want == nil || f.Hash != want.Hash {
		core.Fail("wrong-finality", "%s at %d reports %s as irreversible, by its ledger it is %s", n.name, n.top.Height, show(f), show(want))
	}
	n.final = f
	core.Count("final_reports", 1)
}

func show(b *ledger.SnapshotBlock) string {
	if b == nil {
		return "nothing"
	}
	return "block " + itoa(b.Height) + " " + b.Hash.Hex()
}

// split tells whether the nodes cannot agree because two of them hold irreversible blocks that exclude each
// other, from a fork that began before the faults stopped. This is a known limit of the protocol.
func (cl *cluster) split() bool {
	for _, a := range cl.nodes {
		f := cl.irreversible(a.top)
		if f == nil {
			continue
		}
		for _, b := range cl.nodes {
			x := b.top
			for x != nil && x.Height > f.Height {
				x = cl.headers[x.PrevHash]
			}
			if x == nil || x.Height < f.Height || x.Hash == f.Hash {
				continue
			}
			y := f
			for x != nil && y != nil && x.PrevHash != y.PrevHash {
				x, y = cl.headers[x.PrevHash], cl.headers[y.PrevHash]
			}
			if x == nil || y == nil {
				continue
			}
			start := x.Timestamp
			if y.Timestamp.Before(*start) {
				start = y.Timestamp
			}
			if start.UnixNano() < cl.t0+int64(cl.healedAt) {
				core.Logf("%s holds %s as irreversible, %s is on another chain since %s", a.name, show(f), b.name, start.UTC())
				return true
			}
		}
	}
	return false
}

// twin: a known limit of the code. The hash of a block that a producer makes for a contract does not cover its
// producer. Two producers on two sides of a partition can make the same block; when only one of them may receive
// for the contract at its place in the longer chain, a node that holds the other one's copy never replaces it and
// cannot switch. Returns the description of such a block in the way of a switch, or "".
func (cl *cluster) twin() string {
	for _, a := range cl.nodes {
		for _, b := range cl.nodes {
			x, y := a.top, b.top
			if x == nil || y == nil || x.Height > y.Height {
				continue
			}
			for y != nil && y.Height > x.Height {
				y = cl.headers[y.PrevHash]
			}
			if y == nil || x.Hash == y.Hash {
				continue
			}
			for x != nil && y != nil && x.Hash != y.Hash {
				x, y = cl.headers[x.PrevHash], cl.headers[y.PrevHash]
			}
			if x == nil || y == nil {
				continue
			}
			var hs []types.Hash
			for h, p := range b.signers {
				if q, ok := a.signers[h]; ok && q != p {
					hs = append(hs, h)
				}
			}
			sort.Slice(hs, func(i, j int) bool { return hs[i].Hex() < hs[j].Hex() })
			for _, h := range hs {
				var at *ledger.SnapshotBlock
				cl.on(b, 30*time.Second, func(v *vite.Vite) { at, _ = v.Chain().GetConfirmSnapshotHeaderByAbHash(h) })
				if at != nil && at.Height > x.Height {
					return fmt.Sprintf("%s made block %s of a contract, %s has it by %s in snapshot block %d after their common block %d", cl.who(a.signers[h]), h, b.name, cl.who(b.signers[h]), at.Height, x.Height)
				}
			}
		}
	}
	return ""
}

// copied: a block of a contract that a stranger has sent around under his own signature, and that some
// nodes have in their ledgers (by its producer) and others lack.
func (cl *cluster) copied() string {
	var hs []types.Hash
	for h := range cl.copies {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Hex() < hs[j].Hex() })
	for _, h := range hs {
		has, lacks := "", ""
		for _, n := range cl.nodes {
			ok := false
			cl.on(n, 30*time.Second, func(v *vite.Vite) {
				b, _ := v.Chain().GetAccountBlockByHash(h)
				ok = b != nil
			})
			if ok {
				has = n.name
			} else {
				lacks = n.name
			}
		}
		if has != "" && lacks != "" {
			return fmt.Sprintf("%s has block %s of a contract, %s lacks it", has, h, lacks)
		}
	}
	return ""
}

// heads of the ledgers of all nodes; nil entries for nodes that do not answer
func (cl *cluster) tops() []*ledger.SnapshotBlock {
	r := make([]*ledger.SnapshotBlock, len(cl.nodes))
	for i, n := range cl.nodes {
		cl.on(n, 30*time.Second, func(v *vite.Vite) { r[i] = v.Chain().GetLatestSnapshotBlock() })
	}
	return r
}

// finish: the faults stop; then the network has a bounded time to agree and go on.
func (cl *cluster) finish() {
	c := cl.c
	core.Logf("faults stop")
	cl.healed, cl.healedAt = true, cl.sim()
	for i := range cl.cuts {
		for j := range cl.cuts {
			cl.cuts[i][j] = -1000
		}
	}
	cl.applyCuts()
	for _, a := range cl.nodes {
		for _, b := range cl.nodes {
			if a != b {
				cl.net.Slow(a.ip, b.ip, 0, 0)
			}
		}
		if !a.n.IsDead {
			runtime.SimFreeze(a.n.Tag, false)
			a.frozen = false
			a.offset = 0
			runtime.SimClockOffset(a.n.Tag, 0)
		}
		a.offset = 0
	}
	for _, n := range cl.nodes {
		if n.n.IsDead && cl.down[n.i] == 0 {
			core.Logf("%s boots", n.name)
			cl.boot(n)
		}
	}
	if !cl.settle(time.Duration(c.Params["settle_s"]) * time.Second) {
		return
	}
	cl.checkLedgers()
	if k := c.Params["reboot"]; k > 0 {
		n := cl.nodes[int(c.Params["reboot_n"])%len(cl.nodes)]
		op := core.Op{K: "crash", B: int64(n.i), C: 1500}
		if k == 2 {
			op.K = "stop"
		}
		b := n.boots
		cl.act(op)
		for n.boots == b || !n.up {
			time.Sleep(500 * time.Millisecond)
		}
		if cl.settle(time.Duration(c.Params["settle_s"]) * time.Second) {
			cl.checkLedgers()
			core.Count("final_reboots", 1)
		}
	}
}

// settle waits until all nodes have the same chain and have extended it; false if the run does not promise that.
func (cl *cluster) settle(limit time.Duration) bool {
	c := cl.c
	t0 := cl.sim()
	var max0 uint64
	agreed := 0
	why := ""
	for agreed < 2 {
		time.Sleep(5 * time.Second)
		tops := cl.tops()
		var lo, hi *ledger.SnapshotBlock
		ok := true
		for i, b := range tops {
			if b == nil {
				ok = false
				why = cl.nodes[i].name + " does not answer"
				continue
			}
			if lo == nil || b.Height < lo.Height {
				lo = b
			}
			if hi == nil || b.Height > hi.Height {
				hi = b
			}
		}
		if ok {
			if max0 == 0 {
				max0 = hi.Height
			}
			for _, n := range cl.nodes {
				var h *types.Hash
				cl.on(n, 30*time.Second, func(v *vite.Vite) { h, _ = v.Chain().GetSnapshotHashByHeight(lo.Height) })
				if h == nil || *h != lo.Hash {
					ok = false
					why = "the chains differ at height " + itoa(lo.Height)
				}
			}
			if ok && hi.Height-lo.Height > 4 {
				ok = false
				why = "the heights differ: " + itoa(lo.Height) + " and " + itoa(hi.Height)
			}
			if ok && lo.Height < max0+5 {
				ok = false
				why = "no new blocks after height " + itoa(max0)
			}
		}
		if ok {
			agreed++
		} else {
			agreed = 0
		}
		if cl.sim()-t0 > limit {
			for i, b := range cl.tops() {
				if b != nil {
					core.Logf("%s at %d %s (%s) by %s", cl.nodes[i].name, b.Height, b.Hash, b.Timestamp.UTC(), cl.who(b.Producer()))
				}
			}
			if c.Params["nolive"] != 0 {
				core.Count("not_settled", 1)
				cl.checkLedgers()
				return false
			}
			if cl.split() {
				cl.checkLedgers()
				core.Fail("no-agreement", "%v after the faults stopped: %s; irreversible blocks on two chains that parted while the faults were active", limit, why)
			}
			cl.checkLedgers() // a more specific reason, if there is one
			if t := cl.copied(); t != "" {
				core.Fail("no-agreement", "%v after the faults stopped: %s; a stranger has sent around a copy of a contract's block: %s", limit, why, t)
			}
			if t := cl.twin(); t != "" {
				core.Fail("no-agreement", "%v after the faults stopped: %s; same block by two producers: %s", limit, why, t)
			}
			core.Fail("no-agreement", "%v after the faults stopped: %s", limit, why)
		}
	}
	core.Count("settle_ms", int64((cl.sim()-t0)/time.Millisecond))
	core.Logf("agreed")
	for i, b := range cl.tops() {
		if b != nil {
			core.Logf("%s at %d %s", cl.nodes[i].name, b.Height, b.Hash)
		}
	}
	return true
}

func itoa(x uint64) string { return strconv.FormatUint(x, 10) }

// checkLedgers replays the ledger of every node and compares it with the node's answers, the schedule and the
// other nodes.
func (cl *cluster) checkLedgers() {
	var ws []*world
	for _, n := range cl.nodes {
		var w *world
		for try := 0; try < 6; try++ {
			w = cl.readLedger(n)
			if w == nil {
				continue
			}
			cl.replay(w)
			if cl.compare(w) {
				break
			}
			time.Sleep(300 * time.Millisecond)
		}
		if w == nil {
			core.Count("ledger_unreadable", 1)
			continue
		}
		ws = append(ws, w)
		core.Count("blocks", int64(len(w.blocks)))
		core.Count("snapshots", int64(len(w.snaps)))
		for _, b := range w.all {
			if k := cl.isForged(b); k != "" {
				core.Fail("accepted-forgery", "%s contains a forged block (%s): %s %d %s", n.name, k, b.AccountAddress, b.Height, b.Hash)
			}
		}
		cl.schedule(w)
	}
	cl.replicas(ws)
	cl.lost(ws)
}

func sortedHashes(m map[types.Hash]*ledger.AccountBlock) []types.Hash {
	var r []types.Hash
	for h := range m {
		r = append(r, h)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Hex() < r[j].Hex() })
	return r
}

// rival: the client made another block for the same place of its chain, or for a place this block depends on
func (b *book) rival(a *accepted) bool {
	for _, o := range b.accepted {
		if o.addr == a.addr && o.height == a.height && o.hash != a.hash {
			return true
		}
	}
	for _, o := range b.accepted {
		if (o.hash == a.prev || o.hash == a.from) && b.rival(o) {
			return true
		}
	}
	return false
}

// lost: what became of the transactions that nodes accepted from clients.
func (cl *cluster) lost(ws []*world) {
	calm := cl.c.Params["calm"] != 0
	for _, w := range ws {
		for _, a := range cl.book.accepted {
			h := w.heads[a.addr]
			switch {
			case w.blocks[a.hash] != nil && w.confirmed[a.hash] != 0:
				core.Count("tx_confirmed", 1)
			case w.blocks[a.hash] != nil:
				core.Count("tx_unconfirmed", 1)
				if calm && !cl.book.rival(a) {
					core.Fail("tx-lost", "%s accepted %s %d %s (%s) of %s at %v; it is still unconfirmed on %s", cl.nodes[a.node].name, cl.who(a.addr), a.height, a.hash, a.kind, cl.who(a.addr), a.at, w.n.name)
				}
			case h != nil && h.Height >= a.height || a.height > 1 && w.blocks[a.prev] == nil || a.from != (types.Hash{}) && w.blocks[a.from] == nil:
				core.Count("tx_superseded", 1) // the client made competing blocks through several nodes
			case cl.book.rival(a):
				core.Count("tx_rival", 1) // the same, and the pools hold on to the other one
			default:
				core.Count("tx_lost", 1)
				core.Logf("%s lost %s %d %s %s by n%d at %v", w.n.name, cl.who(a.addr), a.height, a.hash, a.kind, a.node, a.at)
				if calm {
					core.Fail("tx-lost", "%s accepted %s %d %s (%s) at %v; %s does not have it", cl.nodes[a.node].name, cl.who(a.addr), a.height, a.hash, a.kind, a.at, w.n.name)
				}
			}
		}
		for _, s := range sortedHashes(w.sends) {
			b := w.sends[s]
			if _, ok := w.recv[s]; !ok && types.IsContractAddr(b.ToAddress) {
				if types.IsBuiltinContractAddr(b.ToAddress) {
					core.Logf("%s pending at %s: %s confirmed at %d", w.n.name, b.ToAddress, s, w.confirmed[s])
					core.Count("builtin_pending", 1)
					if calm {
						core.Fail("never-received", "%s: %s, sent to the built-in contract %s and confirmed in snapshot block %d, is not received at %d", w.n.name, s, b.ToAddress, w.confirmed[s], w.snaps[len(w.snaps)-1].Height)
					}
				} else {
					core.Count("contract_pending", 1)
				}
			}
		}
	}
}
