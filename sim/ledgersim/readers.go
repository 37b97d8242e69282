package ledgersim

import (
	"fmt"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

// startReaders runs readers next to the writer and the flusher. A read that overlaps no removal must
// give the answer of one of the ledger versions that existed while it ran.
func (w *world) startReaders() {
	for i := 0; i < int(w.c.Params["readers"]); i++ {
		r := sim.NewRand(w.c.Seed*31 + uint64(i))
		w.node.Go(func() {
			for !w.stopped {
				w.read1(r)
				if w.idle {
					time.Sleep(time.Duration(r.N(60)) * time.Millisecond)
				} else if r.P(1, 3) {
					time.Sleep(time.Duration(r.N(2000)) * time.Microsecond)
				}
			}
		})
	}
}

func (w *world) read1(r *sim.Rand) {
	v0, e0 := w.curVer, w.delEpoch
	st0 := w.states[v0]
	h0 := w.stSnaps[v0]
	snaps := w.m.snaps
	if e0%2 == 1 || w.stopped || len(snaps) < h0 {
		return
	}
	var got, what string
	var want func(st *state) string
	addrs := w.users
	if r.P(1, 3) {
		addrs = w.builtin
	}
	a := addrs[r.N(len(addrs))]
	if un := w.m.unconf; len(un) > 0 && r.P(1, 2) { // what was just written
		a = un[r.N(len(un))].ab.AccountAddress
	}
	fail := func(err error) {
		if err != nil && w.delEpoch == e0 {
			sim.Fail("concurrent-read", "a read next to a flush failed: %s: %v", what, err)
		}
	}
	// an account block that existed when the read began
	var ab *blk
	if x := st0.accts[a]; x != nil && len(x.blks) > 0 {
		ab = x.blks[r.N(len(x.blks))]
		if r.P(1, 2) {
			ab = x.blks[len(x.blks)-1]
		}
	}
	bal := func(st *state, t types.TokenTypeId) string {
		v := ""
		if x := st.accts[a]; x != nil {
			v = x.bal[t]
		} else if b := w.m.baseAcct[a]; b != nil {
			v = b.bal[t]
		}
		if v == "" {
			v = "0"
		}
		return v
	}
	switch r.N(15) {
	case 9:
		what = "balances"
		m, err := w.ch.GetBalanceMap(a)
		fail(err)
		for _, t := range w.tokens {
			if v := m[t]; v != nil {
				got += v.String() + " "
			} else {
				got += "0 "
			}
		}
		want = func(st *state) (s string) {
			for _, t := range w.tokens {
				s += bal(st, t) + " "
			}
			return
		}
	case 10:
		if ab == nil || len(ab.sends) == 0 {
			return
		}
		s := ab.sends[r.N(len(ab.sends))]
		what = "receive block"
		b, err := w.ch.GetReceiveAbBySendAb(s.Hash)
		fail(err)
		got = abStr(b)
		want = func(st *state) string {
			if x := st.recv[s.Hash]; x != nil {
				return abStr(x.ab)
			}
			return abStr(nil)
		}
	case 11:
		if ab == nil {
			return
		}
		what = "confirming snapshot"
		b, err := w.ch.GetConfirmSnapshotHeaderByAbHash(ab.ab.Hash)
		fail(err)
		got = "0"
		if b != nil {
			got = fmt.Sprint(b.Height)
		}
		want = func(st *state) string { return fmt.Sprint(st.conf[ab.ab.Hash]) }
	case 12:
		if ab == nil {
			return
		}
		what = "existence of a block"
		ok, err := w.ch.IsAccountBlockExisted(ab.ab.Hash)
		fail(err)
		got = fmt.Sprint(ok)
		want = func(*state) string { return "true" }
	case 13:
		if ab == nil || ab.ab.LogHash == nil {
			return
		}
		what = "logs"
		l, err := w.ch.GetVmLogList(ab.ab.LogHash)
		fail(err)
		got = logStr(l)
		e := logStr(ab.logs)
		want = func(*state) string { return e }
	case 14:
		what = "code"
		b, err := w.ch.GetContractCode(a)
		fail(err)
		got = fmt.Sprintf("%x", b)
		want = func(st *state) string {
			if x := st.accts[a]; x != nil {
				return fmt.Sprintf("%x", x.code)
			}
			if b := w.m.baseAcct[a]; b != nil {
				return fmt.Sprintf("%x", b.code)
			}
			return ""
		}
	case 0:
		t := w.tokens[r.N(len(w.tokens))]
		what = "balance"
		b, err := w.ch.GetBalance(a, t)
		fail(err)
		got = fmt.Sprint(b)
		want = func(st *state) string { return bal(st, t) }
	case 1:
		k := keyPool[r.N(len(keyPool))]
		what = fmt.Sprintf("value %q", k)
		v, err := w.ch.GetValue(a, k)
		fail(err)
		got = fmt.Sprintf("%x", v)
		want = func(st *state) string {
			if x := st.accts[a]; x != nil {
				return fmt.Sprintf("%x", x.stor[string(k)])
			}
			if b := w.m.baseAcct[a]; b != nil {
				return fmt.Sprintf("%x", b.stor[string(k)])
			}
			return ""
		}
	case 2:
		if ab == nil {
			return
		}
		what = "account block by hash"
		b, err := w.ch.GetAccountBlockByHash(ab.ab.Hash)
		fail(err)
		got = abStr(b)
		want = func(*state) string { return abStr(ab.ab) }
	case 3:
		if ab == nil {
			return
		}
		what = "account block by height"
		b, err := w.ch.GetAccountBlockByHeight(a, ab.ab.Height)
		fail(err)
		got = abStr(b)
		want = func(*state) string { return abStr(ab.ab) }
	case 4:
		h := uint64(r.Range(1, h0))
		what = fmt.Sprintf("snapshot block %d", h)
		b, err := w.ch.GetSnapshotBlockByHeight(h)
		fail(err)
		got = sbStr(b, true)
		s := sbStr(snaps[h-1].sb, true)
		want = func(*state) string { return s }
	case 5:
		what = "latest account block"
		b, err := w.ch.GetLatestAccountHeight(a)
		fail(err)
		got = fmt.Sprint(b)
		want = func(st *state) string {
			n := uint64(0)
			if b := w.m.baseAcct[a]; b != nil {
				n = b.base
			}
			if x := st.accts[a]; x != nil {
				n += uint64(len(x.blks))
			}
			return fmt.Sprint(n)
		}
	case 6:
		px := []string{"", "zz", "zzk", "zzk1", "zzq7"}[r.N(5)]
		what = fmt.Sprintf("iteration with prefix %q", px)
		it, err := w.ch.GetStorageIterator(a, []byte(px))
		fail(err)
		var l [][2]string
		for it.Next() {
			l = append(l, [2]string{string(it.Key()), string(it.Value())})
		}
		fail(it.Error())
		it.Release()
		got = kvStr(l)
		want = func(st *state) string {
			if x := st.accts[a]; x != nil {
				return kvStr(kvs(x.stor, px))
			}
			if b := w.m.baseAcct[a]; b != nil {
				return kvStr(kvs(b.stor, px))
			}
			return ""
		}
	case 7:
		if ab == nil || len(ab.sends) == 0 {
			return
		}
		s := ab.sends[r.N(len(ab.sends))]
		what = "received flag"
		ok, err := w.ch.IsReceived(s.Hash)
		fail(err)
		got = fmt.Sprint(ok)
		want = func(st *state) string { return fmt.Sprint(st.recv[s.Hash] != nil) }
	case 8:
		h := uint64(r.Range(1, h0))
		k := keyPool[r.N(len(keyPool))]
		what = fmt.Sprintf("value %q in snapshot %d", k, h)
		_, _, sdb := w.ch.DBs()
		v, err := sdb.GetSnapshotValue(h, a, k)
		fail(err)
		got = fmt.Sprintf("%x", v)
		e := ""
		if x := st0.accts[a]; x != nil {
			e, _ = at(x.hist[string(k)], h)
		} else if b := w.m.baseAcct[a]; b != nil {
			e = b.stor[string(k)]
		}
		want = func(*state) string { return fmt.Sprintf("%x", e) }
	}
	if w.stopped || w.delEpoch != e0 {
		return
	}
	// the operation in progress may already be visible: its version is only added when it returns
	sim.Count("reads", 1)
	for v := v0; v <= w.curVer; v++ {
		if w.states[v] == nil {
			return // too far back to tell
		}
		if want(w.states[v]) == got {
			return
		}
	}
	w.deferred = append(w.deferred, deferredRead{from: v0, upto: w.curVer + 1, epoch: e0, what: fmt.Sprintf("%s of %s", what, a), got: got, want: want, first: want(st0)})
}

type deferredRead struct {
	from, upto       int
	epoch            int
	what, got, first string
	want             func(st *state) string
}

// settle decides reads that may have seen the operation that was in progress.
func (w *world) settle() {
	l := w.deferred
	w.deferred = nil
	for _, d := range l {
		if d.epoch != w.delEpoch {
			continue
		}
		good := false
		for v := d.from; v <= d.upto && v < len(w.states) && !good; v++ {
			good = w.states[v] == nil || d.want(w.states[v]) == d.got
		}
		if good {
			continue
		}
		sim.Fail("concurrent-read", "op %d: a concurrent read of %s gave %s, which is the answer of no version that existed while it ran (it started at %s)", w.opIdx, d.what, d.got, d.first)
	}
}
