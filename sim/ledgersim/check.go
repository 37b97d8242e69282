package ledgersim

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"sort"
	"time"

	"github.com/golang/snappy"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

func simIsTagged(n *sim.Node) bool { return runtime.SimTag() == n.Tag }

func abStr(b *ledger.AccountBlock) string {
	if b == nil {
		return "<none>"
	}
	p, err := b.Serialize()
	if err != nil {
		return "unserializable: " + err.Error()
	}
	return fmt.Sprintf("%s/%d %s %x", b.AccountAddress, b.Height, b.Hash, p)
}

func sbStr(b *ledger.SnapshotBlock, content bool) string {
	if b == nil {
		return "<none>"
	}
	ts := int64(0)
	if b.Timestamp != nil {
		ts = b.Timestamp.Unix()
	}
	s := fmt.Sprintf("%d %s prev=%s ts=%d seed=%d sh=%v v=%d pub=%x sig=%x", b.Height, b.Hash, b.PrevHash, ts, b.Seed, b.SeedHash, b.Version, b.PublicKey, b.Signature)
	if content {
		var l []string
		for a, hh := range b.SnapshotContent {
			l = append(l, fmt.Sprintf("%s=%d/%s", a, hh.Height, hh.Hash))
		}
		sort.Strings(l)
		s += fmt.Sprint(l)
	}
	return s
}

func metaStr(m *ledger.ContractMeta) string {
	if m == nil {
		return "<none>"
	}
	return fmt.Sprintf("%s %d %s %d %d", m.Gid, m.SendConfirmedTimes, m.CreateBlockHash, m.QuotaRatio, m.SeedConfirmedTimes)
}

func logStr(l ledger.VmLogList) string {
	s := ""
	for _, x := range l {
		s += fmt.Sprintf("%v %x;", x.Topics, x.Data)
	}
	return s
}

type ctx struct {
	w    *world
	when string
}

func (x ctx) ne(class, what string, got, want interface{}) {
	g, e := fmt.Sprint(got), fmt.Sprint(want)
	if g != e {
		i := 0
		for i < len(g) && i < len(e) && g[i] == e[i] {
			i++
		}
		cut := func(s string) string {
			if len(s) < 600 {
				return s
			}
			lo, hi := i-60, i+200
			if lo < 0 {
				lo = 0
			}
			if hi > len(s) {
				hi = len(s)
			}
			return fmt.Sprintf("%s...[%d:%d of %d]%s...", s[:120], lo, hi, len(s), s[lo:hi])
		}
		g, e = cut(g), cut(e)
		sim.Fail(class, "op %d (%s): %s is %s, expected %s", x.w.opIdx, x.when, what, g, e)
	}
}

func (x ctx) err(what string, err error) {
	if err != nil {
		if x.w.degraded { // the disk failed this read; give up on this check
			x.w.giveUp()
		}
		sim.Fail("read-error", "op %d (%s): %s: %v", x.w.opIdx, x.when, what, err)
	}
}

// readBase learns what genesis left in the accounts the sim uses.
func (w *world) readBase() {
	m := &model{baseAcct: map[types.Address]*acct{}, baseRoad: map[types.Address]map[types.Hash]bool{}}
	g := w.ch.GetLatestSnapshotBlock()
	if g == nil || g.Height != 1 {
		sim.Fail("recovery-failed", "a fresh ledger is at snapshot %v", g)
	}
	full, err := w.ch.GetSnapshotBlockByHeight(1)
	if err != nil || full == nil {
		sim.Fail("recovery-failed", "genesis snapshot block unreadable: %v", err)
	}
	m.snaps = []*snap{{sb: full}}
	for _, a := range w.builtin {
		x := &acct{stor: map[string]string{}, bal: map[types.TokenTypeId]string{}}
		h, err := w.ch.GetLatestAccountHeight(a)
		if err != nil {
			sim.Bug("%v", err)
		}
		x.base = h
		for i := uint64(1); i <= h; i++ {
			b, err := w.ch.GetAccountBlockByHeight(a, i)
			if err != nil || b == nil {
				sim.Fail("recovery-failed", "genesis account block %s/%d unreadable: %v", a, i, err)
			}
			x.blks = append(x.blks, &blk{ab: cp(b)})
		}
		for _, kv := range iterAll(w.ch.GetStorageIterator(a, nil)) {
			x.stor[kv[0]] = kv[1]
		}
		bm, err := w.ch.GetBalanceMap(a)
		if err != nil {
			sim.Bug("%v", err)
		}
		for t, v := range bm {
			x.bal[t] = v.String()
		}
		m.baseAcct[a] = x
	}
	road, err := w.ch.LoadAllOnRoad()
	if err != nil {
		sim.Bug("%v", err)
	}
	for a, l := range road {
		m.baseRoad[a] = map[types.Hash]bool{}
		for _, h := range l {
			m.baseRoad[a][h] = true
		}
	}
	w.m = m
}

func iterErr(err error) {
	if theWorld.degraded {
		theWorld.giveUp()
	}
	sim.Fail("read-error", "iterator: %v", err)
}

func iterAll(it interfaces.StorageIterator, err error) (l [][2]string) {
	if err != nil {
		iterErr(err)
	}
	if it == nil {
		return nil
	}
	defer it.Release()
	for it.Next() {
		l = append(l, [2]string{string(it.Key()), string(it.Value())})
	}
	if err := it.Error(); err != nil {
		iterErr(err)
	}
	return
}

func iterBack(it interfaces.StorageIterator, err error) (l [][2]string) {
	if err != nil {
		iterErr(err)
	}
	defer it.Release()
	for ok := it.Last(); ok; ok = it.Prev() {
		l = append(l, [2]string{string(it.Key()), string(it.Value())})
	}
	if err := it.Error(); err != nil {
		iterErr(err)
	}
	return
}

// an entry with an empty value means "deleted": every consumer skips it
func noEmpty(l [][2]string) (o [][2]string) {
	for _, x := range l {
		if x[1] != "" {
			o = append(o, x)
		}
	}
	return
}

func kvs(m map[string]string, prefix string) (l [][2]string) {
	for _, k := range sortedKeys(m) {
		if len(k) >= len(prefix) && k[:len(prefix)] == prefix && m[k] != "" {
			l = append(l, [2]string{k, m[k]})
		}
	}
	return
}

func kvStr(l [][2]string) string {
	s := ""
	for _, x := range l {
		s += fmt.Sprintf("%q=%x ", x[0], x[1])
	}
	return s
}

func (w *world) allAddrs() []types.Address {
	seen := map[types.Address]bool{}
	var l []types.Address
	for _, x := range [][]types.Address{w.users, w.contracts, w.builtin, sortedAddrs(w.m.state().accts)} {
		for _, a := range x {
			if !seen[a] {
				seen[a] = true
				l = append(l, a)
			}
		}
	}
	return l
}

func (w *world) checkAll(when string, full bool) {
	died := w.in(func() { w.checkIn(when, full) })
	if died != "" {
		w.recoverNow()
	}
	sim.Count("checks", 1)
}

func (w *world) checkIn(when string, full bool) {
	x := ctx{w, when}
	m, st, ch := w.m, w.m.state(), w.ch
	top := m.top().sb
	r := sim.NewRand(w.rnd.U64())

	// ---- snapshot chain
	x.ne("snapshot-chain", "latest snapshot block", sbStr(ch.GetLatestSnapshotBlock(), true), sbStr(top, true))
	_, bdb, sdb := ch.DBs()
	_ = bdb
	hs := []uint64{}
	if full && len(m.snaps) < 60 {
		for h := uint64(1); h <= top.Height+1; h++ {
			hs = append(hs, h)
		}
	} else {
		for i := 0; i < 8; i++ {
			hs = append(hs, uint64(r.Range(1, int(top.Height)+1)))
		}
		hs = append(hs, top.Height, top.Height+1)
	}
	for _, h := range hs {
		b, err := ch.GetSnapshotBlockByHeight(h)
		x.err("GetSnapshotBlockByHeight", err)
		hd, err := ch.GetSnapshotHeaderByHeight(h)
		x.err("GetSnapshotHeaderByHeight", err)
		hh, err := ch.GetSnapshotHashByHeight(h)
		x.err("GetSnapshotHashByHeight", err)
		if h > top.Height {
			if b != nil || hd != nil || hh != nil {
				sim.Fail("snapshot-chain", "op %d (%s): snapshot height %d is above the latest %d but is readable (%v %v %v)", w.opIdx, when, h, top.Height, b != nil, hd != nil, hh != nil)
			}
			continue
		}
		want := m.snaps[h-1].sb
		x.ne("snapshot-chain", fmt.Sprintf("snapshot block %d", h), sbStr(b, true), sbStr(want, true))
		x.ne("snapshot-chain", fmt.Sprintf("snapshot header %d", h), sbStr(hd, false), sbStr(want, false))
		x.ne("snapshot-chain", fmt.Sprintf("snapshot hash at %d", h), hh, &want.Hash)
		b, err = ch.GetSnapshotBlockByHash(want.Hash)
		x.err("GetSnapshotBlockByHash", err)
		x.ne("snapshot-chain", fmt.Sprintf("snapshot block by hash (%d)", h), sbStr(b, true), sbStr(want, true))
		n, err := ch.GetSnapshotHeightByHash(want.Hash)
		x.err("GetSnapshotHeightByHash", err)
		x.ne("snapshot-chain", "height by hash", n, h)
		ok, err := ch.IsSnapshotBlockExisted(want.Hash)
		x.err("IsSnapshotBlockExisted", err)
		x.ne("snapshot-chain", fmt.Sprintf("snapshot %d exists", h), ok, true)
		if full || r.P(1, 4) {
			ts := want.Timestamp.Add(time.Second)
			hb, err := ch.GetSnapshotHeaderBeforeTime(&ts)
			x.err("GetSnapshotHeaderBeforeTime", err)
			x.ne("snapshot-chain", fmt.Sprintf("last header before 1s after snapshot %d", h), sbStr(hb, false), sbStr(want, false))
		}
	}
	if top.Height > 1 {
		a := uint64(r.Range(1, int(top.Height)))
		b := a + uint64(r.N(20))
		if b > top.Height {
			b = top.Height
		}
		l, err := ch.GetRangeSnapshotBlocks(m.snaps[a-1].sb.Hash, m.snaps[b-1].sb.Hash)
		x.err("GetRangeSnapshotBlocks", err)
		g, e := "", ""
		for _, y := range l {
			g += sbStr(y, true) + "\n"
		}
		for h := a; h <= b; h++ {
			e += sbStr(m.snaps[h-1].sb, true) + "\n"
		}
		x.ne("snapshot-chain", fmt.Sprintf("snapshot range %d..%d", a, b), g, e)
		w.checkSubLedger(x, a, b)
		if full {
			w.checkReader(x, a, b)
		}
	}
	for _, sb := range w.ghostSb {
		if int(sb.Height) <= len(m.snaps) && m.snaps[sb.Height-1].sb.Hash == sb.Hash {
			continue
		}
		ok, err := ch.IsSnapshotBlockExisted(sb.Hash)
		x.err("IsSnapshotBlockExisted", err)
		g, err := ch.GetSnapshotBlockByHash(sb.Hash)
		x.err("GetSnapshotBlockByHash", err)
		if ok || g != nil {
			sim.Fail("ghost", "op %d (%s): snapshot %d %s was rolled back but still exists", w.opIdx, when, sb.Height, sb.Hash)
		}
	}

	// ---- accounts
	for _, a := range w.allAddrs() {
		w.checkAcct(x, a, full, r, sdb.SetCacheLevelForConsensus)
	}
	w.checkHistory(x, full, r)

	// ---- unconfirmed
	var g []string
	for _, b := range ch.GetAllUnconfirmedBlocks() {
		g = append(g, b.Hash.String())
	}
	e := hashList(m.unconf)
	x.ne("unconfirmed", "unconfirmed list", g, e)
	sc := ch.GetContentNeedSnapshot()
	wsc := map[types.Address]uint64{}
	for _, b := range m.unconf {
		wsc[b.ab.AccountAddress] = b.ab.Height
	}
	if len(sc) != len(wsc) {
		sim.Fail("unconfirmed", "op %d (%s): content to snapshot names %d accounts, expected %d", w.opIdx, when, len(sc), len(wsc))
	}
	for a, h := range wsc {
		if sc[a] == nil || sc[a].Height != h {
			sim.Fail("unconfirmed", "op %d (%s): content to snapshot for %s is %v, expected height %d", w.opIdx, when, a, sc[a], h)
		}
	}

	// ---- removed blocks are gone
	for _, b := range w.ghost {
		if st.byH[b.ab.Hash] != nil {
			continue
		}
		hl := []types.Hash{b.ab.Hash}
		for _, s := range b.sends {
			hl = append(hl, s.Hash)
		}
		for _, h := range hl {
			ok, err := ch.IsAccountBlockExisted(h)
			x.err("IsAccountBlockExisted", err)
			y, err := ch.GetAccountBlockByHash(h)
			x.err("GetAccountBlockByHash", err)
			if ok || y != nil {
				sim.Fail("ghost", "op %d (%s): account block %s/%d %s was removed but still exists", w.opIdx, when, b.ab.AccountAddress, b.ab.Height, h)
			}
		}
		if b.ab.LogHash != nil && st.logs[*b.ab.LogHash] == nil {
			l, err := ch.GetVmLogList(b.ab.LogHash)
			x.err("GetVmLogList", err)
			if len(l) > 0 {
				sim.Fail("ghost", "op %d (%s): logs of the removed block %s/%d still exist", w.opIdx, when, b.ab.AccountAddress, b.ab.Height)
			}
		}
	}

	// ---- on road
	w.checkRoad(x)
	w.checkQuota(x)

	// ---- contracts
	for _, a := range w.contracts {
		mt, err := ch.GetContractMeta(a)
		x.err("GetContractMeta", err)
		x.ne("contract-meta", "contract meta of "+a.String(), metaStr(mt), metaStr(st.metas[a]))
		if wm := st.metas[a]; wm != nil && top.Height > 1 {
			h := uint64(r.Range(1, int(top.Height)))
			mt, err := ch.GetContractMetaInSnapshot(a, h)
			x.err("GetContractMetaInSnapshot", err)
			want := "<none>"
			if c := st.conf[wm.CreateBlockHash]; c > 0 && c <= h {
				want = metaStr(wm)
			}
			x.ne("contract-meta", fmt.Sprintf("contract meta of %s in snapshot %d", a, h), metaStr(mt), want)
		}
	}
	gs := map[types.Address]string{}
	ch.IterateContracts(func(addr types.Address, meta *ledger.ContractMeta, err error) bool {
		x.err("IterateContracts", err)
		gs[addr] = metaStr(meta)
		return true
	})
	for a, mt := range st.metas {
		x.ne("contract-meta", "iterated contract "+a.String(), gs[a], metaStr(mt))
		delete(gs, a)
	}
	for a := range gs {
		sim.Fail("contract-meta", "op %d (%s): contract %s is listed but does not exist", w.opIdx, when, a)
	}
	for _, gid := range w.gids {
		l, err := ch.GetContractList(gid)
		x.err("GetContractList", err)
		got := map[types.Address]bool{}
		for _, a := range l {
			if !types.IsBuiltinContractAddr(a) {
				got[a] = true
			}
		}
		for a, mt := range st.metas {
			if mt.Gid == gid {
				if !got[a] {
					sim.Fail("contract-list", "op %d (%s): contract %s is missing from the list of its consensus group", w.opIdx, when, a)
				}
				delete(got, a)
			}
		}
		for a := range got {
			sim.Fail("contract-list", "op %d (%s): the list of a consensus group names %s, which is not a contract of that group", w.opIdx, when, a)
		}
	}
	if full {
		for h, l := range st.logs {
			h := h
			y, err := ch.GetVmLogList(&h)
			x.err("GetVmLogList", err)
			x.ne("vm-log", "log list "+h.String(), logStr(y), logStr(l))
		}
	}
}

func blocksStr(l []*ledger.AccountBlock) string {
	s := ""
	for _, b := range l {
		s += abStr(b) + "\n"
	}
	return s
}

func (w *world) checkSubLedger(x ctx, a, b uint64) {
	l, err := w.ch.GetSubLedger(a, b)
	x.err("GetSubLedger", err)
	g, e := "", ""
	for _, c := range l {
		g += sbStr(c.SnapshotBlock, true) + "\n"
		if c.SnapshotBlock != nil && c.SnapshotBlock.Height > a {
			g += blocksStr(c.AccountBlocks)
		}
	}
	for h := a; h <= b; h++ {
		e += sbStr(w.m.snaps[h-1].sb, true) + "\n"
		if h > a {
			for _, y := range w.m.snaps[h-1].blks {
				e += abStr(y.ab) + "\n"
			}
		}
	}
	x.ne("sub-ledger", fmt.Sprintf("sub ledger %d..%d", a, b), g, e)
}

// the byte stream served to other nodes decodes to exactly the blocks after a up to b
func (w *world) checkReader(x ctx, a, b uint64) {
	if b <= a || a < 1 {
		return
	}
	rd, err := w.ch.GetLedgerReaderByHeight(a+1, b)
	x.err("GetLedgerReaderByHeight", err)
	data, err := io.ReadAll(rd)
	x.err("ledger reader", err)
	rd.Close()
	g := ""
	rest := data
	for len(rest) > 0 {
		if len(rest) < 5 {
			sim.Fail("sync-stream", "op %d: %d stray bytes at the end of the ledger stream", w.opIdx, len(rest))
		}
		n := int(rest[0])<<24 | int(rest[1])<<16 | int(rest[2])<<8 | int(rest[3])
		if n < 1 || len(rest) < 4+n {
			sim.Fail("sync-stream", "op %d: the ledger stream is cut inside a record", w.opIdx)
		}
		t := rest[4]
		buf, err := snappy.Decode(nil, rest[5:4+n])
		x.err("stream record", err)
		rest = rest[4+n:]
		switch t {
		case 1:
			ab := &ledger.AccountBlock{}
			x.err("stream account block", ab.Deserialize(buf))
			g += abStr(ab) + "\n"
		default:
			sb := &ledger.SnapshotBlock{}
			x.err("stream snapshot block", sb.Deserialize(buf))
			g += sbStr(sb, true) + "\n"
		}
	}
	e := ""
	for h := a + 1; h <= b; h++ {
		for _, y := range w.m.snaps[h-1].blks {
			e += abStr(y.ab) + "\n"
		}
		e += sbStr(w.m.snaps[h-1].sb, true) + "\n"
	}
	x.ne("sync-stream", fmt.Sprintf("ledger stream %d..%d", a+1, b), g, e)
}

func (w *world) checkAcct(x ctx, a types.Address, full bool, r *sim.Rand, _ func(uint32)) {
	m, st, ch := w.m, w.m.state(), w.ch
	ac := st.acct(m, a)
	top := ac.base + uint64(len(ac.blks))
	h, err := ch.GetLatestAccountHeight(a)
	x.err("GetLatestAccountHeight", err)
	x.ne("account-chain", "latest height of "+a.String(), h, top)
	lb, err := ch.GetLatestAccountBlock(a)
	x.err("GetLatestAccountBlock", err)
	want := "<none>"
	if len(ac.blks) > 0 {
		want = abStr(ac.blks[len(ac.blks)-1].ab)
	} else if ac.base > 0 {
		want = abStr(m.baseAcct[a].blks[ac.base-1].ab)
	}
	x.ne("account-chain", "latest block of "+a.String(), abStr(lb), want)
	var idx []int
	if full && len(ac.blks) < 40 {
		for i := range ac.blks {
			idx = append(idx, i)
		}
	} else {
		for i := 0; i < 5 && len(ac.blks) > 0; i++ {
			idx = append(idx, r.N(len(ac.blks)))
		}
	}
	for _, i := range idx {
		b := ac.blks[i]
		hh := ac.base + uint64(i) + 1
		y, err := ch.GetAccountBlockByHeight(a, hh)
		x.err("GetAccountBlockByHeight", err)
		x.ne("account-chain", fmt.Sprintf("account block %s/%d", a, hh), abStr(y), abStr(b.ab))
		y, err = ch.GetAccountBlockByHash(b.ab.Hash)
		x.err("GetAccountBlockByHash", err)
		x.ne("account-chain", fmt.Sprintf("account block by hash %s/%d", a, hh), abStr(y), abStr(b.ab))
		hp, err := ch.GetAccountBlockHashByHeight(a, hh)
		x.err("GetAccountBlockHashByHeight", err)
		x.ne("account-chain", fmt.Sprintf("account block hash %s/%d", a, hh), hp, &b.ab.Hash)
		ok, err := ch.IsAccountBlockExisted(b.ab.Hash)
		x.err("IsAccountBlockExisted", err)
		x.ne("account-chain", fmt.Sprintf("account block %s/%d exists", a, hh), ok, true)
		n, err := ch.GetConfirmedTimes(b.ab.Hash)
		x.err("GetConfirmedTimes", err)
		wn := uint64(0)
		if c := st.conf[b.ab.Hash]; c > 0 {
			wn = m.top().sb.Height + 1 - c
		}
		x.ne("confirmation", fmt.Sprintf("confirmed times of %s/%d", a, hh), n, wn)
		cs, err := ch.GetConfirmSnapshotHeaderByAbHash(b.ab.Hash)
		x.err("GetConfirmSnapshotHeaderByAbHash", err)
		wc := "<none>"
		if c := st.conf[b.ab.Hash]; c > 0 {
			wc = sbStr(m.snaps[c-1].sb, false)
		}
		x.ne("confirmation", fmt.Sprintf("confirming snapshot of %s/%d", a, hh), sbStr(cs, false), wc)
		for _, s := range b.sends {
			y, err := ch.GetAccountBlockByHash(s.Hash)
			x.err("GetAccountBlockByHash", err)
			x.ne("account-chain", fmt.Sprintf("send block %s of %s/%d", s.Hash, a, hh), abStr(y), abStr(s))
			d, err := ch.GetCallDepth(s.Hash)
			x.err("GetCallDepth", err)
			x.ne("call-depth", fmt.Sprintf("call depth of %s sent by %s/%d", s.Hash, a, hh), d, st.depth[s.Hash])
			rc := st.recv[s.Hash]
			ok, err := ch.IsReceived(s.Hash)
			x.err("IsReceived", err)
			x.ne("received", fmt.Sprintf("received flag of %s sent by %s/%d", s.Hash, a, hh), ok, rc != nil)
			y, err = ch.GetReceiveAbBySendAb(s.Hash)
			x.err("GetReceiveAbBySendAb", err)
			wr := "<none>"
			if rc != nil {
				wr = abStr(rc.ab)
			}
			x.ne("received", fmt.Sprintf("receive block of %s sent by %s/%d", s.Hash, a, hh), abStr(y), wr)
		}
	}
	for i := uint64(1); i <= 2; i++ {
		y, err := ch.GetAccountBlockByHeight(a, top+i)
		x.err("GetAccountBlockByHeight", err)
		hp, err := ch.GetAccountBlockHashByHeight(a, top+i)
		x.err("GetAccountBlockHashByHeight", err)
		if y != nil || hp != nil {
			sim.Fail("ghost", "op %d (%s): account %s is at height %d but height %d is readable", w.opIdx, x.when, a, top, top+i)
		}
	}
	if len(ac.blks) > 1 {
		hi := r.Range(1, len(ac.blks))
		cnt := r.Range(1, 10)
		y, err := ch.GetAccountBlocksByHeight(a, ac.base+uint64(hi), uint64(cnt))
		x.err("GetAccountBlocksByHeight", err)
		e := ""
		for i := 0; i < cnt; i++ {
			k := hi - 1 - i
			if k >= 0 {
				e += abStr(ac.blks[k].ab) + "\n"
			} else if kk := int(ac.base) + k; kk >= 0 && ac.base > 0 {
				e += abStr(m.baseAcct[a].blks[kk].ab) + "\n"
			}
		}
		x.ne("account-chain", fmt.Sprintf("blocks of %s from %d down", a, ac.base+uint64(hi)), blocksStr(y), e)
	}
	var g, e []string
	for _, b := range ch.GetUnconfirmedBlocks(a) {
		g = append(g, b.Hash.String())
	}
	for _, b := range m.unconf {
		if b.ab.AccountAddress == a {
			e = append(e, b.ab.Hash.String())
		}
	}
	x.ne("unconfirmed", "unconfirmed blocks of "+a.String(), g, e)

	// state
	for _, t := range w.tokens {
		b, err := ch.GetBalance(a, t)
		x.err("GetBalance", err)
		wb := ac.bal[t]
		if wb == "" {
			wb = "0"
		}
		x.ne("balance", fmt.Sprintf("balance of %s in %s", a, t), b, wb)
	}
	bm, err := ch.GetBalanceMap(a)
	x.err("GetBalanceMap", err)
	for t, v := range bm {
		wb := ac.bal[t]
		if wb == "" {
			wb = "0"
		}
		x.ne("balance", fmt.Sprintf("balance map of %s, token %s", a, t), v, wb)
	}
	for t, v := range ac.bal {
		if v != "0" && bm[t] == nil {
			sim.Fail("balance", "op %d (%s): balance map of %s lacks token %s (%s)", w.opIdx, x.when, a, t, v)
		}
	}
	for _, k := range keyPool {
		v, err := ch.GetValue(a, k)
		x.err("GetValue", err)
		x.ne("storage", fmt.Sprintf("value of %s at %q", a, k), fmt.Sprintf("%x", v), fmt.Sprintf("%x", ac.stor[string(k)]))
	}
	px := []string{"", "zz", "zzk", "zzk1", "zzq7"}[r.N(5)]
	x.ne("storage", fmt.Sprintf("iteration over %s prefix %q", a, px), kvStr(iterAll(ch.GetStorageIterator(a, []byte(px)))), kvStr(kvs(ac.stor, px)))
	code, err := ch.GetContractCode(a)
	x.err("GetContractCode", err)
	x.ne("code", "code of "+a.String(), fmt.Sprintf("%x", code), fmt.Sprintf("%x", ac.code))
}

func (w *world) checkHistory(x ctx, full bool, r *sim.Rand) {
	m, st, ch := w.m, w.m.state(), w.ch
	_, _, sdb := ch.DBs()
	n := 4
	if full {
		n = 12
	}
	addrs := w.allAddrs()
	for i := 0; i < n; i++ {
		h := m.top().sb.Height
		if i > 0 {
			h = uint64(r.Range(1, int(h)))
		} else {
			// what the node keeps in memory of the contracts that decide elections and quota
			for _, a := range w.builtin {
				for _, k := range keyPool {
					v, err := sdb.GetSnapshotValue(h, a, k)
					x.err("GetSnapshotValue", err)
					e, _ := at(st.acct(m, a).hist[string(k)], h)
					x.ne("history", fmt.Sprintf("value of %s at %q in the latest snapshot %d", a, k, h), fmt.Sprintf("%x", v), fmt.Sprintf("%x", e))
				}
			}
		}
		hash := m.snaps[h-1].sb.Hash
		for _, t := range w.tokens {
			var res [2]map[types.Address]*big.Int
			for lv := uint32(0); lv < 2; lv++ {
				ch.SetCacheLevelForConsensus(lv)
				bm, err := ch.GetConfirmedBalanceList(addrs, t, hash)
				x.err("GetConfirmedBalanceList", err)
				res[lv] = bm
				for _, a := range addrs {
					v, _ := at(st.acct(m, a).hbal[t], h)
					if v == "" {
						v = "0"
					}
					g := "0"
					if bm[a] != nil {
						g = bm[a].String()
					}
					x.ne("history", fmt.Sprintf("balance of %s in %s at snapshot %d (cache %d)", a, t, h, lv), g, v)
				}
			}
			if t != w.tokens[0] {
				break
			}
		}
		ch.SetCacheLevelForConsensus(uint32(w.c.Params["cachelevel"]))
		for j := 0; j < 4; j++ {
			a := addrs[r.N(len(addrs))]
			if j == 0 {
				a = w.builtin[r.N(len(w.builtin))]
			}
			ac := st.acct(m, a)
			for q := 0; q < 4; q++ {
				k := keyPool[r.N(len(keyPool))]
				v, err := sdb.GetSnapshotValue(h, a, k)
				x.err("GetSnapshotValue", err)
				e, _ := at(ac.hist[string(k)], h)
				x.ne("history", fmt.Sprintf("value of %s at %q in snapshot %d", a, k, h), fmt.Sprintf("%x", v), fmt.Sprintf("%x", e))
			}
			all := map[string]string{}
			for k, l := range ac.hist {
				if v, ok := at(l, h); ok && v != "" {
					all[k] = v
				}
			}
			px := []string{"", "zz", "zzk", "zzk1", "zzq7"}[r.N(5)]
			db, err := sdb.NewStorageDatabase(hash, a)
			x.err("NewStorageDatabase", err)
			x.ne("history", fmt.Sprintf("iteration over %s prefix %q in snapshot %d", a, px, h), kvStr(noEmpty(iterAll(db.NewStorageIterator([]byte(px))))), kvStr(kvs(all, px)))
			back := noEmpty(iterBack(db.NewStorageIterator([]byte(px))))
			for i, j := 0, len(back)-1; i < j; i, j = i+1, j-1 {
				back[i], back[j] = back[j], back[i]
			}
			x.ne("history", fmt.Sprintf("backward iteration over %s prefix %q in snapshot %d", a, px, h), kvStr(back), kvStr(kvs(all, px)))
		}
	}
}

func (w *world) checkRoad(x ctx) {
	st, ch := w.m.state(), w.ch
	road, err := ch.LoadAllOnRoad()
	x.err("LoadAllOnRoad", err)
	seen := map[types.Address]bool{}
	for a, l := range road {
		seen[a] = true
		dup := map[types.Hash]bool{}
		for _, h := range l {
			if dup[h] {
				sim.Fail("on-road", "op %d (%s): %s is on the road to %s twice", w.opIdx, x.when, h, a)
			}
			dup[h] = true
			if !st.road[a][h] {
				why := "it does not exist"
				if st.recv[h] != nil {
					why = "it was received"
				}
				sim.Fail("on-road", "op %d (%s): %s is on the road to %s but %s", w.opIdx, x.when, h, a, why)
			}
		}
		for h := range st.road[a] {
			if !dup[h] {
				sim.Fail("on-road", "op %d (%s): the unreceived send %s to %s is not on the road", w.opIdx, x.when, h, a)
			}
		}
	}
	for a, hs := range st.road {
		if len(hs) > 0 && !seen[a] {
			sim.Fail("on-road", "op %d (%s): %d unreceived sends to %s are not on the road", w.opIdx, x.when, len(hs), a)
		}
	}
	for _, a := range w.users {
		hs := st.road[a]
		got := map[types.Hash]bool{}
		for p := 0; ; p++ {
			l, err := ch.GetOnRoadBlocksByAddr(a, p, 3)
			x.err("GetOnRoadBlocksByAddr", err)
			for _, b := range l {
				if got[b.Hash] || !hs[b.Hash] {
					sim.Fail("on-road", "op %d (%s): page %d of the sends to %s lists %s wrongly", w.opIdx, x.when, p, a, b.Hash)
				}
				got[b.Hash] = true
			}
			if len(l) == 0 {
				break
			}
		}
		if len(got) != len(hs) {
			sim.Fail("on-road", "op %d (%s): the pages of sends to %s list %d of %d", w.opIdx, x.when, a, len(got), len(hs))
		}
	}
	// the optional summary keeps no exact account of unconfirmed contract sends nor of rollbacks
	// (see DESIGN.md); without them it must be exact
	if w.plugins && w.rolledBack == 0 && len(w.m.unconf) == 0 {
		w.checkRoadInfo(x)
	}
}

func (w *world) checkRoadInfo(x ctx) {
	st := w.m.state()
	for _, a := range w.users {
		info, err := w.ch.GetAccountOnRoadInfo(a)
		x.err("GetAccountOnRoadInfo", err)
		want := map[types.TokenTypeId]*big.Int{}
		cnt := map[types.TokenTypeId]uint64{}
		for h := range st.road[a] {
			s := st.sends[h]
			if s == nil {
				continue
			}
			t := s.ab.TokenId
			if want[t] == nil {
				want[t] = big.NewInt(0)
			}
			want[t].Add(want[t], s.ab.Amount)
			cnt[t]++
		}
		if info == nil {
			if len(want) > 0 {
				sim.Fail("on-road-info", "op %d (%s): no on-road summary for %s", w.opIdx, x.when, a)
			}
			continue
		}
		for t, v := range want {
			g := info.TokenBalanceInfoMap[t]
			if g == nil || g.TotalAmount.Cmp(v) != 0 || g.Number != cnt[t] {
				sim.Fail("on-road-info", "op %d (%s): on-road summary of %s in %s is %+v, expected %v in %d blocks", w.opIdx, x.when, a, t, g, v, cnt[t])
			}
		}
		for t, g := range info.TokenBalanceInfoMap {
			if want[t] == nil && (g.Number != 0 || g.TotalAmount.Sign() != 0) {
				sim.Fail("on-road-info", "op %d (%s): on-road summary of %s in %s is %+v, expected nothing", w.opIdx, x.when, a, t, g)
			}
		}
	}
}

var _ = bytes.Equal

// checkQuota: the quota an account used is a function of the blocks in the ledger: those of the last 74
// snapshots and the unconfirmed ones. Every node must compute the same, whatever it went through.
func (w *world) checkQuota(x ctx) {
	m := w.m
	var global types.QuotaInfo
	use := map[types.Address]map[int]types.QuotaInfo{} // address -> distance from the end
	add := func(d int, b *blk) {
		if use[b.ab.AccountAddress] == nil {
			use[b.ab.AccountAddress] = map[int]types.QuotaInfo{}
		}
		q := use[b.ab.AccountAddress][d]
		q.BlockCount++
		q.QuotaTotal += b.ab.Quota
		q.QuotaUsedTotal += b.ab.QuotaUsed
		use[b.ab.AccountAddress][d] = q
		if d > 0 {
			global.BlockCount++
			global.QuotaTotal += b.ab.Quota
			global.QuotaUsedTotal += b.ab.QuotaUsed
		}
	}
	for _, b := range m.unconf {
		add(0, b)
	}
	for i := 1; i < 75 && i < len(m.snaps); i++ {
		for _, b := range m.snaps[len(m.snaps)-i].blks {
			add(i, b)
		}
	}
	for _, a := range w.allAddrs() {
		got := w.ch.GetQuotaUsedList(a)
		if len(got) == 0 {
			sim.Fail("quota", "op %d (%s): the list of the quota used by %s is empty", w.opIdx, x.when, a)
		}
		if len(got) > 75 {
			got = got[len(got)-75:]
		}
		for d := 0; d < 75; d++ {
			var g types.QuotaInfo
			if d < len(got) {
				g = got[len(got)-1-d]
			}
			if g != use[a][d] {
				sim.Fail("quota", "op %d (%s): quota used by %s in snapshot %d (-%d) is %v, expected %v", w.opIdx, x.when, a, len(m.snaps)+1-d, d, g, use[a][d])
			}
		}
	}
	x.ne("quota", "the quota used by all accounts in confirmed blocks", w.ch.GetGlobalQuota().QuotaUsedTotal, global.QuotaUsedTotal)
}
