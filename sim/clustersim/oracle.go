package clustersim

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
)

// ---- queries about single blocks ----

// queries compares what the node answers about every block of its ledger with the replayed ledger.
func (cl *cluster) queries(w *world, v *vite.Vite) (errs []string) {
	c := v.Chain()
	bad := func(f string, a ...interface{}) { errs = append(errs, fmt.Sprintf(f, a...)) }
	one := func(b *ledger.AccountBlock, within types.Hash) {
		if b.IsSendBlock() {
			r, ok := w.recv[b.Hash]
			got, err := c.IsReceived(b.Hash)
			if err != nil || got != ok {
				bad("IsReceived(%s) is %v (%v), the ledger says %v", b.Hash, got, err, ok)
			}
			rb, err := c.GetReceiveAbBySendAb(b.Hash)
			if err != nil || (rb != nil) != ok || rb != nil && rb.Hash != r {
				bad("GetReceiveAbBySendAb(%s) does not return %s (%v)", b.Hash, r, err)
			}
		}
		h := w.confirmed[within]
		sb, err := c.GetConfirmSnapshotHeaderByAbHash(b.Hash)
		if err != nil || (sb != nil) != (h != 0) || sb != nil && sb.Height != h {
			bad("GetConfirmSnapshotHeaderByAbHash(%s) does not return snapshot block %d (%v)", b.Hash, h, err)
		}
		if g, err := c.GetAccountBlockByHash(b.Hash); err != nil || g == nil || g.Hash != b.Hash {
			bad("GetAccountBlockByHash(%s) does not return the block (%v)", b.Hash, err)
		}
	}
	for _, b := range w.all {
		one(b, b.Hash)
		for _, s := range b.SendBlockList {
			one(s, b.Hash)
		}
		if g, err := c.GetAccountBlockByHeight(b.AccountAddress, b.Height); err != nil || g == nil || g.Hash != b.Hash {
			bad("GetAccountBlockByHeight(%s, %d) does not return %s (%v)", b.AccountAddress, b.Height, b.Hash, err)
		}
		if b.LogHash != nil {
			core.Count("vm_logs", 1)
			l, err := c.GetVmLogList(b.LogHash)
			if err != nil || len(l) == 0 {
				bad("no logs for block %s %d %s (%v)", b.AccountAddress, b.Height, b.Hash, err)
			}
		}
	}
	for _, a := range w.order {
		h := w.heads[a]
		g, err := c.GetLatestAccountBlock(a)
		if err != nil || (g == nil) != (h == nil) || g != nil && g.Hash != h.Hash {
			bad("GetLatestAccountBlock(%s) is not the last block of the ledger (%v)", a, err)
		}
	}
	for _, s := range w.snaps {
		if g, err := c.GetSnapshotBlockByHash(s.Hash); err != nil || g == nil || g.Hash != s.Hash || g.Height != s.Height {
			bad("GetSnapshotBlockByHash(%s) does not return the block (%v)", s.Hash, err)
		}
		if g, err := c.GetSnapshotHeaderByHeight(s.Height); err != nil || g == nil || g.Hash != s.Hash {
			bad("GetSnapshotHeaderByHeight(%d) does not return %s (%v)", s.Height, s.Hash, err)
		}
	}
	return errs
}

// ---- equality of replicas ----

type digest struct {
	n     *cnode
	key   string // what the state is a function of
	lines map[string]string
}

func iterate(it interfaces.StorageIterator) string {
	defer it.Release()
	var sb strings.Builder
	for it.Next() {
		fmt.Fprintf(&sb, "%x=%x ", it.Key(), it.Value())
	}
	if err := it.Error(); err != nil {
		fmt.Fprintf(&sb, "error %v", err)
	}
	return sb.String()
}

func (w *world) contracts() (r []types.Address) {
	r = append(r, types.BuiltinContracts...)
	for _, a := range w.order {
		if types.IsContractAddr(a) && !types.IsBuiltinContractAddr(a) {
			r = append(r, a)
		}
	}
	return
}

// atSnapshot takes everything the node says about the state at a confirmed snapshot block.
func (cl *cluster) atSnapshot(w *world, sb *ledger.SnapshotBlock) *digest {
	d := &digest{n: w.n, key: sb.Hash.Hex(), lines: map[string]string{}}
	dels, stale := w.n.dels, false
	ok := cl.on(w.n, 5*time.Minute, func(v *vite.Vite) {
		c := v.Chain()
		if h, err := c.GetSnapshotHashByHeight(sb.Height); err != nil || h == nil || *h != sb.Hash {
			stale = true
			return
		}
		_, _, state := c.DBs()
		put := func(k string, x interface{}, err error) {
			if err != nil {
				d.lines[k] = "error " + err.Error()
			} else {
				d.lines[k] = fmt.Sprint(x)
			}
		}
		for _, a := range w.contracts() {
			s, err := state.NewStorageDatabase(sb.Hash, a)
			if err != nil {
				put("storage of "+a.Hex(), nil, err)
				continue
			}
			it, err := s.NewStorageIterator(nil)
			if err != nil {
				put("storage of "+a.Hex(), nil, err)
				continue
			}
			put("storage of "+a.Hex(), iterate(it), nil)
			m, err := c.GetContractMetaInSnapshot(a, sb.Height)
			if m != nil {
				put("meta of "+a.Hex(), *m, err)
			}
		}
		bl, err := c.GetConfirmedBalanceList(w.order, ledger.ViteTokenId, sb.Hash)
		if err != nil {
			put("balances", nil, err)
		}
		for a, x := range bl {
			put("balance of "+a.Hex(), z(x), nil)
			if want := w.viteAt[sb.Height][a]; z(want).Cmp(z(x)) != 0 && w.n.dels == dels {
				core.Fail("wrong-state", "%s: GetConfirmedBalanceList at snapshot block %d gives %s %v, its blocks give %v", w.n.name, sb.Height, a, x, z(want))
			}
		}
		for _, gid := range []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID} {
			rl, err := c.GetRegisterList(sb.Hash, gid)
			var s []string
			for _, r := range rl {
				s = append(s, fmt.Sprint(*r))
			}
			sort.Strings(s)
			put("registrations "+gid.String(), s, err)
		}
		vl, err := c.GetVoteList(sb.Hash, types.SNAPSHOT_GID)
		var s []string
		for _, r := range vl {
			s = append(s, fmt.Sprint(*r))
		}
		sort.Strings(s)
		put("votes", s, err)
		put("seed", c.GetRandomSeed(sb.Hash, 25), nil)
	})
	if !ok || stale || w.n.dels != dels {
		core.Count("replica_reads_discarded", 1)
		return nil
	}
	return d
}

// atHead takes everything the node says about its latest state; nil when it changes meanwhile.
func (cl *cluster) atHead(w *world) *digest {
	d := &digest{n: w.n, lines: map[string]string{}}
	mods := w.n.mods
	ok := cl.on(w.n, 5*time.Minute, func(v *vite.Vite) {
		c := v.Chain()
		key := func() string {
			var hs []string
			for _, b := range c.GetAllUnconfirmedBlocks() {
				hs = append(hs, b.Hash.Hex())
			}
			sort.Strings(hs)
			return c.GetLatestSnapshotBlock().Hash.Hex() + strings.Join(hs, "")
		}
		d.key = key()
		put := func(k string, x interface{}, err error) {
			if err != nil {
				d.lines[k] = "error " + err.Error()
			} else {
				d.lines[k] = fmt.Sprint(x)
			}
		}
		for _, a := range w.order {
			bm, err := c.GetBalanceMap(a)
			var ts []types.TokenTypeId
			for t := range bm {
				ts = append(ts, t)
			}
			sortTokens(ts)
			s := ""
			for _, t := range ts {
				if bm[t].Sign() != 0 {
					s += t.Hex() + "=" + bm[t].String() + " "
				}
			}
			put("balances of "+a.Hex(), s, err)
			put("quota used of "+a.Hex(), c.GetQuotaUsedList(a), nil)
			q, err := c.GetQuotaUnused(a)
			put("quota unused of "+a.Hex(), q, err)
		}
		put("global quota", c.GetGlobalQuota(), nil)
		for _, a := range w.contracts() {
			it, err := c.GetStorageIterator(a, nil)
			if err != nil {
				put("storage of "+a.Hex(), nil, err)
			} else {
				put("storage of "+a.Hex(), iterate(it), nil)
			}
			code, err := c.GetContractCode(a)
			put("code of "+a.Hex(), code, err)
		}
		road, err := c.LoadAllOnRoad()
		var s []string
		for a, hs := range road {
			for _, h := range hs {
				s = append(s, a.Hex()+h.Hex())
			}
		}
		sort.Strings(s)
		put("unreceived", s, err)
		for _, gid := range []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID} {
			al, err := c.GetContractList(gid)
			var s []string
			for _, a := range al {
				s = append(s, a.Hex())
			}
			sort.Strings(s)
			put("contracts of "+gid.String(), s, err)
		}
		if key() != d.key {
			d = nil
		}
	})
	if !ok || w.n.mods != mods {
		return nil
	}
	return d
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func sameDigest(what string, a, b *digest) {
	if a == nil || b == nil || a.key != b.key {
		return
	}
	core.Count("replica_comparisons_"+what, 1)
	var ks []string
	for k := range a.lines {
		ks = append(ks, k)
	}
	for k := range b.lines {
		if _, ok := a.lines[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if x, y := a.lines[k], b.lines[k]; x != y {
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			if i > 60 {
				i -= 60
			} else {
				i = 0
			}
			core.Fail("replicas-differ", "%s and %s have the same ledger but not the same state (%s): %s is ..%s on the first and ..%s on the second", a.n.name, b.n.name, what, k, clip(x[i:]), clip(y[i:]))
		}
	}
}

// replicas: nodes with the same blocks have the same state.
func (cl *cluster) replicas(ws []*world) {
	if len(ws) < 2 {
		return
	}
	// a snapshot block all of them have
	var sb *ledger.SnapshotBlock
	for i, w := range ws {
		if i == 0 {
			sb = w.snaps[len(w.snaps)-1]
			continue
		}
		for sb.Height > uint64(len(w.snaps)) || w.snaps[sb.Height-1].Hash != sb.Hash {
			sb = ws[0].snaps[sb.Height-2]
		}
	}
	// all are asked about the same accounts
	seen := map[types.Address]bool{}
	var order []types.Address
	for _, w := range ws {
		for _, a := range w.order {
			if !seen[a] {
				seen[a] = true
				order = append(order, a)
			}
		}
	}
	for _, w := range ws {
		w.order = order
	}
	at := []uint64{sb.Height, 1 + uint64(cl.rnd.N(int(sb.Height)))}
	for _, h := range at {
		var first *digest
		for _, w := range ws {
			d := cl.atSnapshot(w, ws[0].snaps[h-1])
			if d == nil {
				continue
			}
			if first == nil {
				first = d
			}
			sameDigest("at a snapshot", first, d)
		}
	}
	for try := 0; try < 3; try++ {
		by := map[string]*digest{}
		for _, w := range ws {
			d := cl.atHead(w)
			if d == nil {
				continue
			}
			if o := by[d.key]; o != nil {
				sameDigest("head", o, d)
			} else {
				by[d.key] = d
			}
		}
		time.Sleep(700 * time.Millisecond)
	}
}

// ---- the schedule of producers ----

type cand struct {
	name string
	addr types.Address
	bal  *big.Int
	rate int
}

// sched computes who may produce when from the snapshot blocks of a ledger, the registrations and votes at
// the snapshot block an election is based on, and the replayed balances.
type sched struct {
	w    *world
	v    *vite.Vite
	g    int64 // genesis time
	info *types.ConsensusGroupInfo
	plan int64
	gid  types.Gid
	memo map[uint64][]types.Address
}

func (s *sched) index(b *ledger.SnapshotBlock) uint64 {
	return uint64((b.Timestamp.Unix() - s.g) / s.plan)
}

// before returns the last snapshot block whose time is before t
func (s *sched) before(t int64) *ledger.SnapshotBlock {
	var r *ledger.SnapshotBlock
	for _, b := range s.w.snaps {
		if b.Timestamp.Unix() >= t {
			break
		}
		r = b
	}
	return r
}

func byBalance(c []*cand) {
	sort.SliceStable(c, func(i, j int) bool {
		if x := c[i].bal.Cmp(c[j].bal); x != 0 {
			return x > 0
		}
		return c[i].name < c[j].name
	})
}

// members returns the producers of period i in order.
func (s *sched) members(i uint64) []types.Address {
	if m, ok := s.memo[i]; ok {
		return m
	}
	t := s.g + 1
	if s.gid != types.SNAPSHOT_GID {
		// elections of a contract group look back 75 seconds
		if x := s.g + int64(i)*s.plan - 75; x >= s.g {
			t = x
		}
	} else if i >= 2 {
		t = s.g + int64(i-1)*s.plan
	}
	proof := s.before(t)
	if proof == nil {
		return nil
	}
	c := s.v.Chain()
	regs, err := c.GetRegisterList(proof.Hash, s.gid)
	votes, err2 := c.GetVoteList(proof.Hash, s.gid)
	if s.w.n.dels != s.w.dels {
		// the ledger was rolled back meanwhile: the caller gives up
		s.memo[i] = nil
		return nil
	}
	if err != nil || err2 != nil {
		core.Fail("query", "%s: registrations and votes at %d: %v %v", s.w.n.name, proof.Height, err, err2)
	}
	var cs []*cand
	for _, r := range regs {
		x := &cand{name: r.Name, addr: r.BlockProducingAddress, bal: new(big.Int), rate: -1}
		for _, o := range votes {
			if o.SbpName == r.Name {
				x.bal.Add(x.bal, z(s.w.viteAt[proof.Height][o.VoteAddr]))
			}
		}
		cs = append(cs, x)
	}
	byBalance(cs)
	seed := s.seed(proof)
	n := int(s.info.NodeCount)
	if len(cs) > n {
		b := cs[n:]
		if len(cs) > int(s.info.RandRank) {
			b = cs[n:s.info.RandRank]
		}
		a := append([]*cand(nil), cs[:n]...)
		b = append([]*cand(nil), b...)
		if s.gid == types.SNAPSHOT_GID {
			a, b = s.rates(proof, a, b)
		}
		cs = s.lots(proof, seed, a, b)
		byBalance(cs)
	}
	rnd := rand.New(rand.NewSource(s.number(proof, seed, cs)))
	var r []types.Address
	for _, k := range rnd.Perm(len(cs)) {
		r = append(r, cs[k].addr)
	}
	s.memo[i] = r
	return r
}

// seed: the sum of the latest published random numbers of up to 25 producers in 600 blocks
func (s *sched) seed(proof *ledger.SnapshotBlock) uint64 {
	var sum uint64
	seen := map[types.Address]bool{}
	for h := int64(proof.Height); h >= 1 && h >= int64(proof.Height)-600 && len(seen) < 25; h-- {
		b := s.w.snaps[h-1]
		if b.Seed != 0 && !seen[b.Producer()] {
			seen[b.Producer()] = true
			sum += b.Seed
		}
	}
	return sum
}

func (s *sched) number(proof *ledger.SnapshotBlock, seed uint64, cs []*cand) int64 {
	x := new(big.Int).SetUint64(seed)
	if seed == 0 {
		for _, c := range cs {
			x.Add(x, c.bal)
		}
	}
	x.Add(x, new(big.Int).SetUint64(proof.Height))
	x.Add(x, new(big.Int).SetBytes(s.gid.Bytes()))
	return x.Int64()
}

// rates exchanges up to two of the elected with the worst record against runners-up with a good one.
func (s *sched) rates(proof *ledger.SnapshotBlock, a, b []*cand) ([]*cand, []*cand) {
	pi := s.index(proof)
	if pi < 3 {
		return a, b
	}
	rate := s.record(pi - 2)
	if len(rate) < 2 {
		return a, b
	}
	for _, l := range [][]*cand{a, b} {
		for _, c := range l {
			if r, ok := rate[c.addr]; ok {
				c.rate = r
			}
		}
		byBalance(l)
		sort.SliceStable(l, func(i, j int) bool { return l[i].rate > l[j].rate })
	}
	var out []int // indices into a, worst last
	for i := len(a) - 2; i < len(a); i++ {
		if a[i].rate >= 0 && a[i].rate < 800000 {
			out = append(out, i)
		}
	}
	var in []int
	for i := range b {
		if b[i].rate > 800000 && len(in) < 2 {
			in = append(in, i)
		}
	}
	for k := 0; k < len(out) && k < len(in); k++ {
		i, j := out[len(out)-1-k], in[k]
		a[i], b[j] = b[j], a[i]
		core.Count("schedule_rate_exchanges", 1)
	}
	return a, b
}

// record: blocks produced per million slots over the 48 periods up to pi
func (s *sched) record(pi uint64) map[types.Address]int {
	exp, fact := map[types.Address]int{}, map[types.Address]int{}
	for k := uint64(0); k < 48 && k <= pi; k++ {
		e, f := s.period(pi - k)
		for a, n := range e {
			exp[a] += n
		}
		for a, n := range f {
			fact[a] += n
			exp[a] += 0
		}
	}
	r := map[types.Address]int{}
	for a, n := range exp {
		switch {
		case n == 0:
			r[a] = -1
		default:
			r[a] = fact[a] * 1000000 / n
		}
	}
	return r
}

// period: slots and blocks of every producer; a period without blocks counts for nobody
func (s *sched) period(i uint64) (exp, fact map[types.Address]int) {
	exp, fact = map[types.Address]int{}, map[types.Address]int{}
	from, to := s.g+int64(i)*s.plan, s.g+int64(i+1)*s.plan
	for _, b := range s.w.snaps[1:] {
		if t := b.Timestamp.Unix(); t >= from && t < to {
			fact[b.Producer()]++
		}
	}
	if len(fact) == 0 {
		return
	}
	for _, m := range s.members(i) {
		exp[m] += int(s.info.PerCount) * int(s.info.Repeat)
	}
	return
}

// lots draws some of the producers at random.
func (s *sched) lots(proof *ledger.SnapshotBlock, seed uint64, a, b []*cand) []*cand {
	if len(b) == 0 {
		return a
	}
	byBalance(a)
	byBalance(b)
	n, l := int(s.info.NodeCount), len(a)+len(b)
	x := s.number(proof, seed, append(append([]*cand(nil), a...), b...))
	rc := int(s.info.RandCount)
	if n/3 <= rc {
		rc = n / 3
	}
	top := n - rc
	var r []*cand
	if top*(l-n) > rc*n {
		r1, r2 := rand.New(rand.NewSource(x)), rand.New(rand.NewSource(x+1))
		for _, k := range r1.Perm(n)[:top] {
			r = append(r, a[k])
		}
		for _, k := range r2.Perm(l - n)[:rc] {
			r = append(r, b[k])
		}
		core.Count("schedule_lots", 1)
		return r
	}
	for _, k := range rand.New(rand.NewSource(x)).Perm(l)[:n] {
		if k >= n {
			r = append(r, b[k-n])
		} else {
			r = append(r, a[k])
		}
	}
	core.Count("schedule_lots", 1)
	return r
}

// slots of period i: start time -> producer
func (s *sched) slots(i uint64) map[int64]types.Address {
	r := map[int64]types.Address{}
	ms := s.members(i)
	t := s.g + int64(i)*s.plan
	for k := 0; k < int(s.info.Repeat); k++ {
		for j := 0; j < int(s.info.NodeCount); j++ {
			for p := 0; p < int(s.info.PerCount); p++ {
				if j < len(ms) {
					r[t] = ms[j]
				}
				t += s.info.Interval
			}
		}
	}
	return r
}

// schedule checks the producers of all snapshot blocks of the ledger, and the node's own idea of the schedule.
func (cl *cluster) schedule(w *world) {
	dels := w.dels
	cl.on(w.n, 5*time.Minute, func(v *vite.Vite) {
		c := v.Chain()
		gs := w.snaps[0]
		info, err := c.GetConsensusGroup(gs.Hash, types.SNAPSHOT_GID)
		if err != nil {
			core.Bug("consensus group: %v", err)
		}
		s := &sched{w: w, v: v, g: gs.Timestamp.Unix(), info: info, gid: types.SNAPSHOT_GID, memo: map[uint64][]types.Address{}}
		s.plan = info.Interval * int64(info.NodeCount) * info.PerCount * int64(info.Repeat)
		top := w.snaps[len(w.snaps)-1]
		last := s.index(top)
		for i := uint64(0); i <= last; i++ {
			sl := s.slots(i)
			for _, b := range w.snaps[1:] {
				if s.index(b) != i {
					continue
				}
				if p := sl[b.Timestamp.Unix()]; p != b.Producer() && w.n.dels == dels {
					core.Fail("wrong-producer", "%s contains snapshot block %d %s of %s by %s, but the slot belongs to %s", w.n.name, b.Height, b.Hash, b.Timestamp.UTC(), cl.who(b.Producer()), cl.who(p))
				}
			}
			ev, _, err := v.Consensus().API().ReadByIndex(types.SNAPSHOT_GID, i)
			if err != nil && w.n.dels == dels {
				core.Fail("wrong-schedule", "%s: no schedule for period %d: %v", w.n.name, i, err)
			}
			if w.n.dels != dels {
				return // the ledger was rolled back meanwhile
			}
			got := map[int64]types.Address{}
			for _, e := range ev {
				got[e.Stime.Unix()] = e.Address
			}
			for t, p := range sl {
				if got[t] != p {
					core.Fail("wrong-schedule", "%s schedules %s in period %d at %d; the ledger (%d blocks) gives %s", w.n.name, cl.who(got[t]), i, t-s.g, len(w.snaps), cl.who(p))
				}
			}
			if len(got) != len(sl) {
				core.Fail("wrong-schedule", "%s schedules %d slots in period %d, the ledger gives %d", w.n.name, len(got), i, len(sl))
			}
			core.Count("schedule_periods", 1)
		}
		if !cl.contractSchedule(s, top) {
			return
		}
		if last == 0 {
			return
		}
		st, err := v.Consensus().SBPReader().PeriodStats(0, last-1)
		if err != nil && w.n.dels == dels {
			core.Fail("wrong-schedule", "%s: PeriodStats(0, %d): %v", w.n.name, last-1, err)
		}
		at := map[uint64]map[types.Address][2]uint64{}
		for _, p := range st {
			m := map[types.Address][2]uint64{}
			for a, x := range p.Stats {
				m[a] = [2]uint64{x.BlockNum, x.ExceptedBlockNum}
			}
			at[p.Index] = m
		}
		for i := uint64(0); i < last; i++ {
			exp, fact := s.period(i)
			as := map[types.Address]bool{}
			for a := range exp {
				as[a] = true
			}
			for a := range fact {
				as[a] = true
			}
			for a := range at[i] {
				as[a] = true
			}
			for a := range as {
				if x := at[i][a]; x[0] != uint64(fact[a]) || x[1] != uint64(exp[a]) {
					if w.n.dels != dels {
						return
					}
					core.Fail("wrong-schedule", "%s counts %d blocks of %d slots of %s in period %d; the ledger has %d of %d", w.n.name, x[0], x[1], cl.who(a), i, fact[a], exp[a])
				}
			}
		}
	})
}

// contractSchedule checks the node's idea of who may receive for contracts; false: the ledger changed meanwhile.
func (cl *cluster) contractSchedule(b *sched, top *ledger.SnapshotBlock) bool {
	w, v := b.w, b.v
	info, err := v.Chain().GetConsensusGroup(w.snaps[0].Hash, types.DELEGATE_GID)
	if err != nil {
		core.Bug("consensus group: %v", err)
	}
	s := &sched{w: w, v: v, g: b.g, info: info, gid: types.DELEGATE_GID, memo: map[uint64][]types.Address{}}
	s.plan = info.Interval * int64(info.NodeCount) * info.PerCount * int64(info.Repeat)
	for i := uint64(0); i <= s.index(top); i++ {
		sl := s.slots(i)
		ev, _, err := v.Consensus().ReadByIndex(types.DELEGATE_GID, i)
		if w.n.dels != w.dels {
			return false
		}
		if err != nil {
			core.Fail("wrong-schedule", "%s: no contract schedule for period %d: %v", w.n.name, i, err)
		}
		got := map[int64]types.Address{}
		for _, e := range ev {
			got[e.Stime.Unix()] = e.Address
		}
		for t, p := range sl {
			if got[t] != p {
				core.Fail("wrong-schedule", "%s lets %s receive for contracts in period %d at %d; the ledger (%d blocks) gives %s", w.n.name, cl.who(got[t]), i, t-s.g, len(w.snaps), cl.who(p))
			}
		}
		if len(got) != len(sl) {
			core.Fail("wrong-schedule", "%s has %d contract slots in period %d, the ledger gives %d", w.n.name, len(got), i, len(sl))
		}
		core.Count("contract_schedule_periods", 1)
	}
	return true
}
