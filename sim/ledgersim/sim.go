package ledgersim

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm_db"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
	"github.com/vitelabs/go-vite/v2/zzverif/simfs"
)

const genesisTime = 1558411200

type version struct {
	snaps   []*snap
	durable bool
}

type world struct {
	c    *sim.Case
	node *sim.Node
	ch   chain.Chain
	m    *model
	rnd  *sim.Rand // world randomness that is not part of the ops (checks)

	users     []types.Address
	contracts []types.Address // created so far (any branch)
	builtin   []types.Address
	tokens    []types.TokenTypeId
	gids      []types.Gid

	vers    []version // since the last known durable point
	target  [][]*snap // states the operation in progress may leave behind
	badNext map[types.Hash]bool

	deadCh  chan string
	opIdx   int
	ghost   []*blk // blocks that were removed: must not be visible
	ghostSb []*ledger.SnapshotBlock
	plugins bool
	stopped bool

	// concurrent readers
	readers    bool
	flushing   int  // flushes in progress
	idle       bool // nothing but time passes
	ev         *events
	bootN      int
	states     []*state // retained versions
	stSnaps    []int    // number of snapshots per version
	delEpoch   int      // incremented around deletes (odd = in progress)
	curVer     int
	crashN     int
	rolledBack int
	degraded   bool
	recovering bool
	gaveUp     bool
	deferred   []deferredRead
}

var theWorld *world

type verifierStub struct{ w *world }

func (v *verifierStub) VerifyABsProducer(abs map[types.Gid][]*ledger.AccountBlock) ([]*ledger.AccountBlock, error) {
	var out []*ledger.AccountBlock
	for _, l := range abs {
		for _, b := range l {
			if v.w.badNext[b.Hash] {
				out = append(out, b)
			}
		}
	}
	return out, nil
}
func (v *verifierStub) VerifySnapshotProducer(block *ledger.SnapshotBlock) (bool, error) {
	return true, nil
}
func (v *verifierStub) VerifyAccountProducer(block *ledger.AccountBlock) (bool, error) {
	return true, nil
}

var upgradePoints map[uint64]bool

func setupGlobals(c *sim.Case) {
	quota.InitQuotaConfig(true, true)
	upgrade.CleanupUpgradeBox()
	box := upgrade.NewEmptyUpgradeBox()
	var b upgrade.UpgradeBox = box
	upgradePoints = map[uint64]bool{}
	up := uint64(c.Params["upgrade"])
	for v := uint32(1); v <= 13; v++ {
		h := uint64(1)
		if v == 13 && up > 0 {
			h = up
			upgradePoints[h] = true
		}
		b = b.AddPoint(v, h)
	}
	if err := upgrade.InitUpgradeBox(b); err != nil {
		sim.Bug("upgrade box: %v", err)
	}
}

// run f in the node; returns "" or why the node died
func (w *world) in(f func()) string {
	done := make(chan struct{})
	n := w.node
	w.gaveUp = false
	n.Go(func() {
		fin := false
		defer func() {
			if fin || w.gaveUp {
				close(done)
			}
		}()
		f()
		fin = true
	})
	var late <-chan time.Time
	if w.c.Params["events"] > 0 {
		t := time.NewTimer(20 * time.Minute)
		defer t.Stop()
		late = t.C
	}
	select {
	case <-done:
		if n.IsDead {
			return n.Why
		}
		return ""
	case <-n.Dead:
		return n.Why
	case <-late:
		if w.c.Params["stall"] > 0 {
			sim.Fail("stuck", "op %d: the ledger does not answer any more after a subscriber stopped reading", w.opIdx)
		}
		sim.Fail("stuck", "op %d: the ledger does not answer any more", w.opIdx)
	}
	return ""
}

// giveUp ends the goroutine the harness runs in the node: the disk failed a read the harness needs
func (w *world) giveUp() {
	w.gaveUp = true
	runtime.Goexit()
}

func (w *world) boot(dir string) (err error, died string) {
	w.node = sim.Boot("node", dir)
	w.node.OnPanic = func(n *sim.Node, msg string) {
		if w.degraded {
			n.Crash(0, nil, msg)
			return
		}
		sim.Fail("panic", "op %d: the node died: %s", w.opIdx, msg)
	}
	w.armFaults()
	var ch chain.Chain
	died = w.in(func() {
		x := chain.NewChain(dir, &config.Chain{VmLogAll: true, OpenPlugins: w.plugins}, config.MockGenesis())
		if err = x.Init(); err != nil {
			return
		}
		x.SetConsensus(&verifierStub{w}, core.NewTimeIndex(time.Unix(genesisTime, 0), 75*time.Second))
		err = x.Start()
		x.SetCacheLevelForConsensus(uint32(w.c.Params["cachelevel"]))
		ch = x
	})
	w.ch = ch
	w.stopped = false
	return
}

// ------------------------------------------------------------------ blocks

func (w *world) isContract(a types.Address) bool { return types.IsContractAddr(a) }

func u64b(x uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, x)
	return b
}

var keyPool = [][]byte{[]byte("zzk"), []byte("zzk1"), []byte("zzk\x00"), []byte("zzk1\xff\xff"), []byte("zzlonglonglonglonglonglonglong32"), []byte("zzm\x00\x00"), []byte("zz\xff"), []byte("zzq7"), []byte("zzq70"), []byte("zzq71\x00\x01\x02\x03\x04\x05\x06\x07\x08")}

func (w *world) fill(b *blk, vdb interfaces.VmDb, r *sim.Rand) {
	n := r.Pick(3, 4, 2, 1)
	for i := 0; i < n; i++ {
		k := keyPool[r.N(len(keyPool))]
		var v []byte
		switch r.Pick(5, 2, 1, 1) {
		case 0:
			v = u64b(r.U64())
		case 1:
			v = nil
		case 2:
			v = append([]byte{0}, u64b(r.U64())...)
		case 3:
			v = make([]byte, r.Range(20, 300))
			v[0] = byte(r.U64())
			copy(v[1:], u64b(r.U64()))
		}
		k = append([]byte(nil), k...)
		if err := vdb.SetValue(k, append([]byte(nil), v...)); err != nil {
			sim.Bug("SetValue: %v", err)
		}
		dup := false
		for j := range b.stor {
			if string(b.stor[j][0]) == string(k) {
				b.stor[j][1] = v
				dup = true
			}
		}
		if !dup {
			b.stor = append(b.stor, [2][]byte{k, v})
		}
	}
	nb := r.Pick(2, 5, 1)
	for i := 0; i < nb; i++ {
		t := w.tokens[r.N(len(w.tokens))]
		v := new(big.Int).SetUint64(r.U64() >> uint(r.N(64)))
		if r.P(1, 8) {
			v = big.NewInt(0)
		}
		if r.P(1, 8) {
			v.Lsh(v, 100)
		}
		vdb.SetBalance(&t, v)
		b.bal[t] = v
	}
}

func (w *world) newVmDb(a types.Address, prev types.Hash) interfaces.VmDb {
	l := w.m.top().sb
	h := l.Hash
	p := prev
	ad := a
	vdb, err := vm_db.NewVmDb(w.ch, &ad, &h, &p)
	if err != nil {
		sim.Bug("NewVmDb: %v", err)
	}
	return vdb
}

func (w *world) latest(a types.Address) (uint64, types.Hash) {
	x := w.m.state().acct(w.m, a)
	if len(x.blks) > 0 {
		l := x.blks[len(x.blks)-1].ab
		return l.Height, l.Hash
	}
	if b := w.m.baseAcct[a]; b != nil && b.base > 0 {
		return b.base, b.blks[len(b.blks)-1].ab.Hash
	}
	return 0, types.Hash{}
}

func (w *world) anyTarget(r *sim.Rand) types.Address {
	switch r.Pick(6, 4, 2) {
	case 1:
		var live []types.Address
		for _, a := range w.contracts {
			if w.m.state().metas[a] != nil {
				live = append(live, a)
			}
		}
		if len(live) > 0 {
			return live[r.N(len(live))]
		}
	case 2:
		return w.builtin[r.N(len(w.builtin))]
	}
	return w.users[r.N(len(w.users))]
}

func (w *world) mkSend(from types.Address, r *sim.Rand, create bool) (*blk, interfaces.VmDb) {
	h, prev := w.latest(from)
	vdb := w.newVmDb(from, prev)
	b := &blk{bal: map[types.TokenTypeId]*big.Int{}}
	w.fill(b, vdb, r)
	ab := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: from, Height: h + 1, PrevHash: prev,
		Amount: new(big.Int).SetUint64(r.U64() >> uint(r.N(60)+1)), TokenId: w.tokens[r.N(len(w.tokens))], PublicKey: pub(from), Fee: big.NewInt(0),
		Data: append([]byte{1}, u64b(r.U64())...), Signature: []byte("sig")}
	ab.QuotaUsed = 21 + uint64(r.N(5))
	ab.Quota = ab.QuotaUsed // always so without proof of work
	if create {
		ab.BlockType = ledger.BlockTypeSendCreate
		ab.ToAddress = types.CreateContractAddress(from.Bytes(), u64b(h+1), prev.Bytes(), ab.Data)
		meta := &ledger.ContractMeta{Gid: w.gids[r.N(len(w.gids))], SendConfirmedTimes: byte(r.N(3)), QuotaRatio: 10, SeedConfirmedTimes: byte(r.N(2))}
		vdb.SetContractMeta(ab.ToAddress, meta)
		b.meta = map[types.Address]*ledger.ContractMeta{ab.ToAddress: meta}
	} else {
		ab.ToAddress = w.anyTarget(r)
	}
	vdb.Finish()
	ab.Hash = ab.ComputeHash()
	for _, m := range b.meta {
		m2 := *m
		m2.CreateBlockHash = ab.Hash
		b.meta[ab.ToAddress] = &m2
	}
	b.ab = cp(ab)
	b.sends = []*ledger.AccountBlock{b.ab}
	return b, &vmab{vdb, ab}
}

// vmab carries the block handed to the chain next to its write set
type vmab struct {
	interfaces.VmDb
	ab *ledger.AccountBlock
}

func pub(a types.Address) []byte { return crypto.Hash256(a.Bytes()) }

func (w *world) mkRecv(to types.Address, send *ledger.AccountBlock, r *sim.Rand) (*blk, interfaces.VmDb) {
	h, prev := w.latest(to)
	vdb := w.newVmDb(to, prev)
	b := &blk{bal: map[types.TokenTypeId]*big.Int{}}
	w.fill(b, vdb, r)
	ab := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: to, Height: h + 1, PrevHash: prev, FromBlockHash: send.Hash,
		PublicKey: pub(to), Fee: big.NewInt(0), Amount: big.NewInt(0), Data: append([]byte{2}, u64b(r.U64())...), Signature: []byte("sig")}
	ab.QuotaUsed = 21 + uint64(r.N(5))
	ab.Quota = ab.QuotaUsed // always so without proof of work
	if !w.isContract(to) && r.P(1, 12) {
		ab.BlockType = ledger.BlockTypeReceiveError
	}
	if w.isContract(to) {
		if send.BlockType == ledger.BlockTypeSendCreate {
			b.code = append([]byte{0x60}, u64b(r.U64())...)
			vdb.SetContractCode(append([]byte(nil), b.code...))
		}
		nl := r.Pick(3, 2, 1)
		for i := 0; i < nl; i++ {
			lg := &ledger.VmLog{Topics: []types.Hash{types.DataHash(u64b(uint64(r.N(4))))}, Data: u64b(r.U64())}
			vdb.AddLog(lg)
			b.logs = append(b.logs, lg)
		}
		if nl > 0 {
			ab.LogHash = vdb.GetLogListHash()
		}
		ns := r.Pick(4, 3, 2)
		for i := 0; i < ns; i++ {
			sd := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: to, ToAddress: w.anyTarget(r), Amount: new(big.Int).SetUint64(r.U64() >> 20),
				TokenId: w.tokens[r.N(len(w.tokens))], Fee: big.NewInt(0), Data: append([]byte{3}, u64b(r.U64())...)}
			sd.Hash = sd.ComputeSendHash(ab, uint8(i))
			ab.SendBlockList = append(ab.SendBlockList, sd)
		}
	}
	vdb.Finish()
	ab.Hash = ab.ComputeHash()
	b.ab = cp(ab)
	b.sends = b.ab.SendBlockList
	return b, &vmab{vdb, ab}
}

func (w *world) insert(b *blk, v interfaces.VmDb) {
	x := v.(*vmab)
	var err error
	died := w.in(func() {
		err = w.ch.InsertAccountBlock(&interfaces.VmAccountBlock{AccountBlock: x.ab, VmDb: x.VmDb})
	})
	if died != "" {
		w.recoverNow()
		return
	}
	if err != nil && w.degraded {
		return
	}
	if err != nil {
		sim.Fail("insert-rejected", "op %d: inserting a valid account block failed: %v", w.opIdx, err)
	}
	w.m.addUnconf(b)
	w.changed(change{blks: []*blk{b}})
	w.newVersion()
}

func (w *world) newVersion() {
	if !w.readers {
		return
	}
	w.m.shared = true
	w.m.dirty()
	w.states = append(w.states, w.m.state())
	w.stSnaps = append(w.stSnaps, len(w.m.snaps))
	w.curVer = len(w.states) - 1
	for i := 0; i < w.curVer-60; i++ {
		w.states[i] = nil
	}
}

func (w *world) doSnap(op sim.Op) {
	r := sim.NewRand(op.R)
	n := len(w.m.unconf)
	if op.A > 0 && n > 0 {
		n = int(uint64(op.A) % uint64(n+1))
	}
	prev := w.m.top().sb
	ts := prev.Timestamp.Add(time.Duration(1+op.B%40) * time.Second)
	sc := ledger.SnapshotContent{}
	for _, b := range w.m.unconf[:n] {
		sc[b.ab.AccountAddress] = &ledger.HashHeight{Hash: b.ab.Hash, Height: b.ab.Height}
	}
	sb := &ledger.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, PublicKey: pub(w.users[r.N(2)]), Signature: []byte("sig"), Timestamp: &ts, SnapshotContent: sc, Version: uint32(r.N(3))}
	if r.P(1, 2) {
		sb.Seed = r.U64()>>1 + 1
	}
	sh := types.DataHash(u64b(r.U64()))
	sb.SeedHash = &sh
	sb.Hash = sb.ComputeHash()
	mine := *sb
	mine.SnapshotContent = ledger.SnapshotContent{}
	for a, hh := range sc {
		mine.SnapshotContent[a] = &ledger.HashHeight{Hash: hh.Hash, Height: hh.Height}
	}

	// which of the remaining blocks must be dropped
	rest := w.m.unconf[n:]
	w.badNext = map[types.Hash]bool{}
	if op.C > 0 {
		for _, b := range rest {
			if w.isContract(b.ab.AccountAddress) && r.P(1, 4) {
				w.badNext[b.ab.Hash] = true
			}
		}
	}
	var want []*blk
	if upgradePoints[sb.Height] {
		want = append([]*blk(nil), rest...)
	} else {
		want = deps(rest, func(b *blk) bool {
			return b.ab.BlockType == ledger.BlockTypeReceiveError || w.badNext[b.ab.Hash]
		})
	}
	nm := &model{snaps: w.m.snaps, unconf: w.m.unconf}
	nm.pushSnap(&mine, n)
	w.target = [][]*snap{nm.snaps}
	var got []*ledger.AccountBlock
	var err error
	died := w.in(func() { got, err = w.ch.InsertSnapshotBlock(sb) })
	if died != "" {
		w.recoverNow()
		return
	}
	if err != nil && w.degraded {
		return
	}
	if err != nil {
		sim.Fail("insert-rejected", "op %d: inserting a valid snapshot block failed: %v", w.opIdx, err)
	}
	gs := map[types.Hash]bool{}
	for _, g := range got {
		gs[g.Hash] = true
	}
	for _, b := range want {
		if !gs[b.ab.Hash] {
			sim.Fail("invalid-kept", "op %d: after snapshot %d the unconfirmed block %s/%d must be dropped (it or what it depends on is no longer valid) but was not", w.opIdx, sb.Height, b.ab.AccountAddress, b.ab.Height)
		}
	}
	if len(gs) != len(want) {
		sim.Fail("valid-dropped", "op %d: after snapshot %d the ledger dropped %d unconfirmed blocks, expected %d", w.opIdx, sb.Height, len(gs), len(want))
	}
	w.m.pushSnap(&mine, n)
	w.changed(change{sbs: []*ledger.SnapshotBlock{&mine}})
	w.changed(change{blks: want, removed: true})
	if len(want) > 0 {
		w.rolledBack++
		w.delEpoch++
		w.m.remove(want)
		w.addGhost(want)
		w.delEpoch++
		sim.Count("invalid_blocks", int64(len(want)))
	}
	w.vers = append(w.vers, version{snaps: w.m.snaps})
	w.target = nil
	w.newVersion()
}

func (w *world) addGhost(bs []*blk) {
	w.ghost = append(w.ghost, bs...)
	if len(w.ghost) > 60 {
		w.ghost = w.ghost[len(w.ghost)-60:]
	}
}

func (w *world) hasRedo(h uint64) bool {
	_, _, s := w.ch.DBs()
	ok, err := s.Redo().HasRedo(h)
	if err != nil {
		if w.degraded {
			w.giveUp()
		}
		sim.Fail("read-error", "HasRedo(%d): %v", h, err)
	}
	return ok
}

var errNotRun = errors.New("not run")

func (w *world) doDelSb(op sim.Op) {
	top := w.m.top().sb.Height
	if top < 2 {
		return
	}
	d := uint64(op.A)%top + 1 // how many
	if d > top-1 {
		d = top - 1
	}
	to := top - d + 1
	// possible durable states on the way, in steps of 120
	old := w.m.snaps
	w.target = nil
	for t := top + 1; t > to; {
		if t > 120 && t-120 > to {
			t -= 120
		} else {
			t = to
		}
		w.target = append(w.target, old[:t-1:t-1])
	}
	keep := false
	var err error
	var chunks []*ledger.SnapshotChunk
	w.delEpoch++
	err = errNotRun
	died := w.in(func() {
		keep = w.hasRedo(to)
		if op.B == 1 {
			chunks, err = w.ch.DeleteSnapshotBlocks(old[to-1].sb.Hash)
		} else {
			chunks, err = w.ch.DeleteSnapshotBlocksToHeight(to)
		}
	})
	if died != "" {
		w.recoverNow()
		return
	}
	if err != nil && w.degraded {
		return
	}
	if err != nil {
		sim.Fail("delete-failed", "op %d: rolling back to snapshot height %d (latest %d) failed: %v", w.opIdx, to, top, err)
	}
	// the returned chunks are exactly what was removed
	wantB := map[types.Hash]bool{}
	for i := int(to - 1); i < len(old); i++ {
		if i == int(to-1) && keep {
			continue
		}
		for _, b := range old[i].blks {
			wantB[b.ab.Hash] = true
		}
	}
	for _, b := range w.m.unconf {
		wantB[b.ab.Hash] = true
	}
	h := to
	nb := 0
	for _, ck := range chunks {
		if ck.SnapshotBlock != nil {
			if h > top || ck.SnapshotBlock.Hash != old[h-1].sb.Hash {
				sim.Fail("delete-report", "op %d: rollback to %d reports snapshot %d %s out of order", w.opIdx, to, ck.SnapshotBlock.Height, ck.SnapshotBlock.Hash)
			}
			h++
		}
		for _, ab := range ck.AccountBlocks {
			if !wantB[ab.Hash] {
				sim.Fail("delete-report", "op %d: rollback to %d reports account block %s/%d which should not be removed (or twice)", w.opIdx, to, ab.AccountAddress, ab.Height)
			}
			delete(wantB, ab.Hash)
			nb++
		}
	}
	if h != top+1 || len(wantB) != 0 {
		sim.Fail("delete-report", "op %d: rollback to %d reports snapshots up to %d of %d; %d account blocks missing from the report", w.opIdx, to, h-1, top, len(wantB))
	}
	gone := change{removed: true, blks: append([]*blk(nil), w.m.unconf...)}
	for i := int(to - 1); i < len(old); i++ {
		gone.sbs = append(gone.sbs, old[i].sb)
		if i > int(to-1) || !keep {
			gone.blks = append(gone.blks, old[i].blks...)
		}
	}
	w.changed(gone)
	w.addGhost(w.m.unconf)
	for i := int(to - 1); i < len(old); i++ {
		w.ghostSb = append(w.ghostSb, old[i].sb)
		if i == int(to-1) && keep {
			continue
		}
		w.addGhost(old[i].blks)
	}
	if len(w.ghostSb) > 40 {
		w.ghostSb = w.ghostSb[len(w.ghostSb)-40:]
	}
	w.m.truncate(to, keep)
	w.rolledBack++
	w.delEpoch++
	if keep {
		sim.Count("rollback_redo", 1)
	} else {
		sim.Count("rollback_noredo", 1)
	}
	w.target = nil
	w.vers = []version{{snaps: w.m.snaps, durable: true}}
	w.newVersion()
}

func (w *world) doDelAb(op sim.Op) {
	if len(w.m.unconf) == 0 {
		return
	}
	i := int(uint64(op.A) % uint64(len(w.m.unconf)))
	b := w.m.unconf[i]
	w.rolledBack++
	want := deps(w.m.unconf, func(x *blk) bool { return x == b })
	var got []*ledger.AccountBlock
	var err error
	w.delEpoch++
	died := w.in(func() {
		if op.B == 1 {
			got, err = w.ch.DeleteAccountBlocks(b.ab.AccountAddress, b.ab.Hash)
		} else {
			got, err = w.ch.DeleteAccountBlocksToHeight(b.ab.AccountAddress, b.ab.Height)
		}
	})
	if died != "" {
		w.recoverNow()
		return
	}
	if err != nil && w.degraded {
		return
	}
	if err != nil {
		sim.Fail("delete-failed", "op %d: deleting unconfirmed block %s/%d failed: %v", w.opIdx, b.ab.AccountAddress, b.ab.Height, err)
	}
	ws := map[types.Hash]bool{}
	for _, x := range want {
		ws[x.ab.Hash] = true
	}
	for _, g := range got {
		if !ws[g.Hash] {
			sim.Fail("delete-report", "op %d: deleting %s/%d also removed %s/%d which does not depend on it", w.opIdx, b.ab.AccountAddress, b.ab.Height, g.AccountAddress, g.Height)
		}
		delete(ws, g.Hash)
	}
	if len(ws) > 0 {
		sim.Fail("delete-report", "op %d: deleting %s/%d left %d dependent blocks in the ledger", w.opIdx, b.ab.AccountAddress, b.ab.Height, len(ws))
	}
	w.m.remove(want)
	w.changed(change{removed: true, blks: want})
	w.addGhost(want)
	w.delEpoch++
	w.newVersion()
}

// ------------------------------------------------------------------ crash and recovery

func (w *world) armFaults() {
	node := w.node
	base := node.Disk.Ops
	for i := range w.c.Faults {
		f := w.c.Faults[i]
		if f.A != int64(w.opIdx) {
			continue
		}
		switch f.K {
		case "crash":
			prevOn := node.Disk.OnOp
			fired := false
			node.Disk.OnOp = func(n int, kind, path string) {
				if prevOn != nil {
					prevOn(n, kind, path)
				}
				if n-base >= int(f.B)+1 && !fired && !node.IsDead {
					// a third-party store: its creation is not crash safe, and it is not ours
					if f.A == -1 && strings.Contains(path, "/chain_meta") {
						return
					}
					fired = true
					w.crashN++
					r := sim.NewRand(f.R)
					node.Crash(int(f.C), r.U64, fmt.Sprintf("crash before disk op %d (%s %s)", n, kind, path))
					if simIsTagged(node) {
						sim.Park()
					}
				}
			}
		case "ioerr":
			hits := 0
			skip := int(f.B)
			r := sim.NewRand(f.R)
			rd := f.C >= 4 // a read fails, else a write
			node.Disk.Fault = func(n int, kind, path string, size int) (x simfs.Fault) {
				if (kind == "read" || kind == "pread") != rd || w.recovering {
					return
				}
				if skip > 0 {
					skip--
					return
				}
				if hits > 0 && f.C != 2 && f.C != 3 { // a full disk stays full
					return
				}
				hits++
				w.degraded = true
				x.Hit = true
				switch f.C {
				case 0, 4:
					x.Err = syscall.EIO
				case 1:
					x.Err, x.Short = syscall.EIO, 1+r.N(size)
				case 2:
					x.Err = syscall.ENOSPC
				default:
					x.Err, x.Short = syscall.ENOSPC, 1+r.N(size)
				}
				return
			}
		}
	}
}

func (w *world) disarm() { w.node.Disk.OnOp = nil; w.node.Disk.Fault = nil }

// recoverNow: the node is dead; boot on its image until it comes up, then match it with the model.
func (w *world) recoverNow() {
	sim.Injected("crash", 1)
	cands := append([]version(nil), w.vers...)
	for _, t := range w.target {
		cands = append(cands, version{snaps: t})
	}
	w.target = nil
	w.degraded = false
	w.recovering = true
	defer func() { w.recovering = false }()
	if w.delEpoch%2 == 1 {
		w.delEpoch++
	}
	for try := 0; ; try++ {
		dir := w.node.Dir
		w.opIdx = -1 - w.crashN // faults during recovery are addressed with negative op numbers
		err, died := w.boot(dir)
		if died != "" {
			if try > 10 {
				sim.Bug("too many recovery crashes")
			}
			sim.Injected("crash_in_recovery", 1)
			continue
		}
		if err != nil {
			sim.Fail("recovery-failed", "after a crash (%s) the ledger does not open: %v", w.node.Why, err)
		}
		break
	}
	w.disarm()
	sb := w.ch.GetLatestSnapshotBlock()
	if sb == nil {
		sim.Fail("recovery-failed", "after a crash the ledger has no latest snapshot block")
	}
	ok := false
	for i := len(cands) - 1; i >= 0; i-- {
		v := cands[i]
		if v.snaps[len(v.snaps)-1].sb.Hash == sb.Hash {
			w.m.snaps = v.snaps
			ok = true
			sim.Count("recovered_back", int64(len(cands)-1-i))
			break
		}
	}
	if !ok {
		var l []string
		for _, v := range cands {
			l = append(l, fmt.Sprintf("%d/%s", len(v.snaps), v.snaps[len(v.snaps)-1].sb.Hash.String()[:8]))
		}
		sim.Fail("durability", "after a crash the ledger is at snapshot %d/%s, which is none of the states since the last completed flush: %v", sb.Height, sb.Hash.String()[:8], l)
	}
	w.addGhost(w.m.unconf)
	w.m.unconf = nil
	w.m.dirty()
	w.vers = []version{{snaps: w.m.snaps, durable: true}}
	w.newVersion()
	sim.Logf("recovered at %d", sb.Height)
	w.startEvents()
	w.checkAll("after recovery", true)
	sim.Count("recoveries", 1)
}

func (w *world) restart(op sim.Op) {
	died := w.in(func() {
		if err := w.ch.Stop(); err != nil {
			if w.degraded {
				return
			}
			sim.Fail("stop-failed", "Stop: %v", err)
		}
		w.stopped = true
		if op.A == 1 {
			if err := w.ch.Destroy(); err != nil {
				sim.Fail("stop-failed", "Destroy: %v", err)
			}
		}
	})
	if died == "" {
		if !w.degraded {
			w.vers = []version{{snaps: w.m.snaps, durable: true}}
		}
		r := sim.NewRand(op.R)
		w.node.Crash(0, r.U64, "restart")
	}
	w.recoverNow()
	if died == "" {
		sim.Injected("crash", -1)
	}
}

// ------------------------------------------------------------------ run

func run(c *sim.Case) {
	setupGlobals(c)
	w := &world{c: c, rnd: sim.NewRand(c.Seed ^ 77), plugins: c.Params["plugins"] == 1, readers: c.Params["readers"] > 0}
	for i := 0; i < int(c.Params["users"]); i++ {
		a, err := types.GenUserAddress(crypto.Hash256([]byte(fmt.Sprint("user", i)))[:20])
		if err != nil {
			sim.Bug("%v", err)
		}
		w.users = append(w.users, a)
	}
	w.builtin = []types.Address{types.AddressQuota, types.AddressAsset}
	w.tokens = []types.TokenTypeId{ledger.ViteTokenId, types.CreateTokenTypeId([]byte("tok1")), types.CreateTokenTypeId([]byte("tok2"))}
	w.gids = []types.Gid{types.DELEGATE_GID, types.DataToGid([]byte("gidA")), types.DataToGid([]byte("gidB"))}
	theWorld = w
	w.opIdx = -1
	dir := sim.NewDir("node")
	first := true
	for {
		err, died := w.boot(dir)
		if died != "" {
			sim.Injected("crash", 1)
			dir = w.node.Dir
			w.opIdx = -1 - w.crashN
			first = false
			continue
		}
		if err != nil {
			if first {
				sim.Fail("recovery-failed", "a fresh ledger does not open: %v", err)
			}
			sim.Fail("recovery-failed", "a crash while the ledger is initialised leaves it unusable: %v", err)
		}
		break
	}
	w.disarm()
	w.readBase()
	w.vers = []version{{snaps: w.m.snaps, durable: true}}
	w.newVersion()
	if w.readers {
		w.startReaders()
	}
	w.startEvents()
	for i, op := range c.Ops {
		w.opIdx = i
		vers0 := w.vers
		w.armFaults()
		sim.Logf("op %d %s %d %d %d", i, op.K, op.A, op.B, op.C)
		r := sim.NewRand(op.R)
		switch op.K {
		case "send":
			b, v := w.mkSend(w.users[int(op.A)%len(w.users)], r, false)
			w.insert(b, v)
		case "burst": // many in a row
			w.in(func() {
				for k := int64(0); k < op.A; k++ {
					b, v := w.mkSend(w.users[r.N(len(w.users))], r, false)
					x := v.(*vmab)
					if err := w.ch.InsertAccountBlock(&interfaces.VmAccountBlock{AccountBlock: x.ab, VmDb: x.VmDb}); err != nil {
						sim.Fail("insert-rejected", "op %d: inserting a valid account block failed: %v", w.opIdx, err)
					}
					w.m.addUnconf(b)
					w.changed(change{blks: []*blk{b}})
				}
			})
		case "create":
			b, v := w.mkSend(w.users[int(op.A)%len(w.users)], r, true)
			w.contracts = append(w.contracts, b.ab.ToAddress)
			if len(w.contracts) > 12 {
				w.contracts = w.contracts[1:]
			}
			w.insert(b, v)
		case "recv":
			w.doRecv(op, r)
		case "snap":
			w.doSnap(op)
		case "delab":
			w.doDelAb(op)
		case "delsb":
			w.doDelSb(op)
		case "flush":
			died := w.in(func() { w.ch.Flusher().Flush() })
			if died != "" {
				w.recoverNow()
			} else if !w.degraded {
				w.vers = []version{{snaps: w.m.snaps, durable: true}}
			}
		case "flushbg": // while the next operations go on
			w.flushing++
			w.node.Go(func() { w.ch.Flusher().Flush(); w.flushing-- })
		case "sleep":
			w.idle = w.flushing == 0
			d := time.Duration(op.A) * time.Millisecond
			if d < 0 && w.ev != nil { // until filters are looked after
				d = filterLife - time.Since(w.ev.start)%filterLife - time.Duration(r.N([]int{3, 20, 80, 400}[r.N(4)]))*time.Microsecond
			}
			died := w.in(func() { time.Sleep(d) })
			w.idle = false
			if died != "" {
				w.recoverNow()
			}
		case "restart":
			w.restart(op)
		case "check":
			if w.ev != nil {
				w.checkEvents()
			}
			w.checkAll("check", op.A == 1)
		}
		w.opIdx = i
		if w.degraded && !w.node.IsDead {
			// a disk error happened: what memory holds is not judged, what a restart finds is
			w.vers = append(append([]version(nil), vers0...), w.vers...)
			w.node.Crash(0, nil, "restart after a disk error")
		}
		if w.node.IsDead {
			w.recoverNow()
		}
		w.disarm()
		w.settle()
		w.sig()
	}
	w.opIdx = len(c.Ops)
	for i := 0; w.flushing > 0 && i < 10000; i++ {
		w.in(func() { time.Sleep(time.Millisecond) })
	}
	w.checkEvents()
	w.checkAll("end", true)
	w.restart(sim.Op{A: 0})
	w.checkAll("end after restart", true)
}

func (w *world) sig() {
	n := len(w.m.snaps)
	if n > 50 {
		n = 50 + n/50
	}
	u := len(w.m.unconf)
	if u > 12 {
		u = 12
	}
	road := 0
	for _, hs := range w.m.state().road {
		road += len(hs)
	}
	if road > 10 {
		road = 10
	}
	sim.State(sim.Sig(n, u, road, len(w.m.state().metas), len(w.vers) > 1, w.crashN > 0))
}

func (w *world) doRecv(op sim.Op, r *sim.Rand) {
	st := w.m.state()
	var cand []types.Address
	for _, l := range [][]types.Address{w.users, w.contracts, w.builtin} {
		for _, a := range l {
			if len(st.road[a]) > 0 && (!w.isContract(a) || types.IsBuiltinContractAddr(a) || st.metas[a] != nil) {
				cand = append(cand, a)
			}
		}
	}
	if len(cand) == 0 {
		return
	}
	a := cand[int(uint64(op.A)%uint64(len(cand)))]
	// candidates on the road in the order they were sent; a contract takes its create first
	var l []*ledger.AccountBlock
	walk := func(b *blk) {
		for _, s := range b.sends {
			if s.ToAddress == a && st.road[a][s.Hash] {
				l = append(l, s)
			}
		}
	}
	for _, sn := range w.m.snaps {
		for _, b := range sn.blks {
			walk(b)
		}
	}
	for _, b := range w.m.unconf {
		walk(b)
	}
	if len(l) == 0 {
		return
	}
	s := l[int(uint64(op.B)%uint64(len(l)))]
	if w.isContract(a) && !types.IsBuiltinContractAddr(a) {
		for _, x := range l {
			if x.BlockType == ledger.BlockTypeSendCreate {
				s = x
			}
		}
	}
	b, v := w.mkRecv(a, s, r)
	w.insert(b, v)
}

func init() {
	sim.Sims["ledger"] = sim.Sim{Gen: gen, Run: run}
}

var _ = os.Getenv

// cp is an independent copy of a block
func cp(b *ledger.AccountBlock) *ledger.AccountBlock {
	l := b.SendBlockList
	x := *b
	x.SendBlockList = nil
	y := x.Copy()
	for _, s := range l {
		y.SendBlockList = append(y.SendBlockList, cp(s))
	}
	return y
}
