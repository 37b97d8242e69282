// Package ledgersim drives the real ledger store (chain: index, state, redo and block stores, flusher,
// caches, plugins) on a simulated disk under the seeded scheduler and compares every observable answer
// with a reference model: a list of snapshots, each confirming a list of account blocks, plus the list
// of blocks not confirmed yet. All state is the fold of the write sets of those blocks.
package ledgersim

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

type blk struct {
	ab    *ledger.AccountBlock // private copy
	stor  [][2][]byte
	bal   map[types.TokenTypeId]*big.Int
	code  []byte
	meta  map[types.Address]*ledger.ContractMeta
	logs  ledger.VmLogList
	sends []*ledger.AccountBlock // what it puts on the road (itself or its send list)
}

type snap struct {
	sb   *ledger.SnapshotBlock
	blks []*blk
}

type hv struct {
	h uint64
	v string
}

type acct struct {
	blks []*blk
	base uint64 // blocks from genesis
	stor map[string]string
	bal  map[types.TokenTypeId]string
	code string
	hist map[string][]hv
	hbal map[types.TokenTypeId][]hv
}

type sendInfo struct {
	ab   *ledger.AccountBlock
	host *blk
}

type state struct {
	accts map[types.Address]*acct
	metas map[types.Address]*ledger.ContractMeta
	logs  map[types.Hash]ledger.VmLogList
	road  map[types.Address]map[types.Hash]bool
	recv  map[types.Hash]*blk // send hash -> receive
	sends map[types.Hash]*sendInfo
	depth map[types.Hash]uint16
	conf  map[types.Hash]uint64 // block hash (incl. sends of receives) -> snapshot height
	byH   map[types.Hash]*blk
}

type model struct {
	snaps  []*snap
	unconf []*blk

	baseAcct map[types.Address]*acct // what genesis left for the tracked accounts
	baseRoad map[types.Address]map[types.Hash]bool

	st     *state
	shared bool
	alive  map[*blk]bool
}

func (m *model) top() *snap { return m.snaps[len(m.snaps)-1] }

func (m *model) dirty() { m.st = nil }

func (s *state) acct1(m *model, a types.Address, add bool) *acct {
	x := s.accts[a]
	if x == nil {
		x = &acct{stor: map[string]string{}, bal: map[types.TokenTypeId]string{}, hist: map[string][]hv{}, hbal: map[types.TokenTypeId][]hv{}}
		if b := m.baseAcct[a]; b != nil {
			x.base = b.base
			x.code = b.code
			for k, v := range b.stor {
				x.stor[k] = v
				x.hist[k] = []hv{{1, v}}
			}
			for k, v := range b.bal {
				x.bal[k] = v
				x.hbal[k] = []hv{{1, v}}
			}
		}
		if add {
			s.accts[a] = x
		}
	}
	return x
}

// acct is read-only: readers share states
func (s *state) acct(m *model, a types.Address) *acct { return s.acct1(m, a, false) }

func (s *state) apply(m *model, b *blk) {
	a := s.acct1(m, b.ab.AccountAddress, true)
	a.blks = append(a.blks, b)
	for _, kv := range b.stor {
		if len(kv[1]) == 0 {
			delete(a.stor, string(kv[0]))
		} else {
			a.stor[string(kv[0])] = string(kv[1])
		}
	}
	for t, v := range b.bal {
		a.bal[t] = v.String()
	}
	if b.code != nil {
		a.code = string(b.code)
	}
	for addr, meta := range b.meta {
		s.metas[addr] = meta
	}
	if b.ab.LogHash != nil {
		s.logs[*b.ab.LogHash] = b.logs
	}
	s.byH[b.ab.Hash] = b
	if b.ab.IsReceiveBlock() {
		s.recv[b.ab.FromBlockHash] = b
		delete(s.road[b.ab.AccountAddress], b.ab.FromBlockHash)
	}
	for _, sd := range b.sends {
		if s.road[sd.ToAddress] == nil {
			s.road[sd.ToAddress] = map[types.Hash]bool{}
		}
		s.road[sd.ToAddress][sd.Hash] = true
		s.sends[sd.Hash] = &sendInfo{ab: sd, host: b}
	}
	if b.ab.IsReceiveBlock() {
		for _, sd := range b.sends {
			s.depth[sd.Hash] = s.depth[b.ab.FromBlockHash] + 1
		}
	}
}

func (m *model) state() *state {
	if m.st != nil {
		return m.st
	}
	s := &state{accts: map[types.Address]*acct{}, metas: map[types.Address]*ledger.ContractMeta{}, logs: map[types.Hash]ledger.VmLogList{},
		road: map[types.Address]map[types.Hash]bool{}, recv: map[types.Hash]*blk{}, sends: map[types.Hash]*sendInfo{}, depth: map[types.Hash]uint16{},
		conf: map[types.Hash]uint64{}, byH: map[types.Hash]*blk{}}
	for a, hs := range m.baseRoad {
		s.road[a] = map[types.Hash]bool{}
		for h := range hs {
			s.road[a][h] = true
		}
	}
	for _, sn := range m.snaps {
		tk := map[types.Address]map[string]bool{}
		tb := map[types.Address]map[types.TokenTypeId]bool{}
		for _, b := range sn.blks {
			s.apply(m, b)
			addr := b.ab.AccountAddress
			if tk[addr] == nil {
				tk[addr] = map[string]bool{}
				tb[addr] = map[types.TokenTypeId]bool{}
			}
			for _, kv := range b.stor {
				tk[addr][string(kv[0])] = true
			}
			for t := range b.bal {
				tb[addr][t] = true
			}
			s.conf[b.ab.Hash] = sn.sb.Height
			for _, sd := range b.sends {
				s.conf[sd.Hash] = sn.sb.Height
			}
		}
		for addr, ks := range tk {
			a := s.accts[addr]
			for k := range ks {
				a.hist[k] = append(a.hist[k], hv{sn.sb.Height, a.stor[k]})
			}
		}
		for addr, ks := range tb {
			a := s.accts[addr]
			for k := range ks {
				a.hbal[k] = append(a.hbal[k], hv{sn.sb.Height, a.bal[k]})
			}
		}
	}
	for _, b := range m.unconf {
		s.apply(m, b)
	}
	m.st = s
	return s
}

func at(l []hv, h uint64) (string, bool) {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].h <= h {
			return l[i].v, true
		}
	}
	return "", false
}

func (m *model) addUnconf(b *blk) {
	m.unconf = append(m.unconf[:len(m.unconf):len(m.unconf)], b)
	if m.shared {
		m.dirty() // readers hold the old state
	}
	if m.st != nil {
		m.st.apply(m, b)
	}
}

// deps returns the blocks of list that depend on the first one (itself included), in order.
func deps(list []*blk, first func(*blk) bool) (out []*blk) {
	addrs := map[types.Address]bool{}
	hashes := map[types.Hash]bool{}
	for _, b := range list {
		bad := first(b) || addrs[b.ab.AccountAddress] || (b.ab.IsReceiveBlock() && hashes[b.ab.FromBlockHash])
		if bad {
			out = append(out, b)
			addrs[b.ab.AccountAddress] = true
			for _, s := range b.sends {
				hashes[s.Hash] = true
			}
		}
	}
	return
}

func (m *model) remove(bs []*blk) {
	del := map[*blk]bool{}
	for _, b := range bs {
		del[b] = true
	}
	var l []*blk
	for _, b := range m.unconf {
		if !del[b] {
			l = append(l, b)
		}
	}
	m.unconf = l
	m.dirty()
}

func (m *model) pushSnap(sb *ledger.SnapshotBlock, n int) {
	c := m.unconf[:n:n]
	m.snaps = append(m.snaps[:len(m.snaps):len(m.snaps)], &snap{sb: sb, blks: c})
	m.unconf = append([]*blk(nil), m.unconf[n:]...)
	m.dirty()
}

// truncate drops every snapshot from height h on; keepFirst: what the first dropped one confirmed
// becomes unconfirmed again.
func (m *model) truncate(h uint64, keepFirst bool) {
	i := int(h - 1)
	first := m.snaps[i].blks
	m.snaps = m.snaps[:i:i]
	m.unconf = nil
	if keepFirst {
		m.unconf = append([]*blk(nil), first...)
	}
	m.dirty()
}

func hashList(bs []*blk) (l []string) {
	for _, b := range bs {
		l = append(l, b.ab.Hash.String())
	}
	return
}

func sortedAddrs(mm map[types.Address]*acct) (l []types.Address) {
	for a := range mm {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Compare(l[j]) < 0 })
	return
}

func sortedKeys(mm map[string]string) (l []string) {
	for k := range mm {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

var _ = fmt.Sprint
