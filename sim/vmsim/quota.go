package vmsim

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

// The quota of an account is a function of the ledger: of what is staked for it as of the last snapshot, of what all
// accounts used in the last 74 snapshots (congestion) and of what its own blocks used in them and since. This file is
// that function, computed from the blocks themselves; nothing of package quota but its three tables is used.

const (
	qWindow  = 75
	qBlock   = 1000000
	qSection = 280
	qGap     = 21000 * 74
)

// the tables of stakes, difficulties and congestion, as they are on the network
var (
	qStake, qDiff []*big.Int
	qCong         map[uint64]*big.Int
)

const qTables = "ed8662c8eae57809"

type qdb uint64

func (g qdb) GetGlobalQuota() types.QuotaInfo                                 { return types.QuotaInfo{QuotaUsedTotal: uint64(g)} }
func (qdb) GetQuotaUsedList(types.Address) []types.QuotaInfo                  { return nil }
func (qdb) GetUnconfirmedBlocks(types.Address) []*ledger.AccountBlock         { return nil }
func (qdb) GetLatestAccountBlock(types.Address) (*ledger.AccountBlock, error) { return nil, nil }
func (qdb) GetConfirmedTimes(types.Hash) (uint64, error)                      { return 0, nil }

func loadQuotaTables() {
	h := sha256.New()
	qStake, qDiff, qCong = []*big.Int{new(big.Int)}, []*big.Int{new(big.Int)}, map[uint64]*big.Int{}
	for i := uint64(1); i <= 3571; i++ {
		x, err := quota.CalcStakeAmountByQuota(i * qSection)
		if err != nil {
			sim.Fail("quota-table", "no stake gives a quota of %d: %v", i*qSection, err)
		}
		y, err := quota.CalcPoWDifficulty(qdb(0), i*qSection, types.Quota{}, 10)
		if err != nil {
			sim.Fail("quota-table", "no difficulty gives a quota of %d: %v", i*qSection, err)
		}
		fmt.Fprint(h, x, y, ";")
		qStake, qDiff = append(qStake, x), append(qDiff, y)
	}
	for i := uint64(51); i <= 500; i++ {
		q, _, _ := quota.CalcQc(qdb(i*qGap), 10)
		qCong[i] = q
		fmt.Fprint(h, q, ";")
	}
	if s := hex.EncodeToString(h.Sum(nil)[:8]); s != qTables {
		sim.Fail("quota-table", "the tables of stakes, difficulties and congestion are not those of the network (%s)", s)
	}
}

// qSnap is what a snapshot confirmed
type qSnap struct {
	hash types.Hash
	use  map[types.Address]types.QuotaInfo
}

type quotaBook struct {
	unconf []*ledger.AccountBlock // copies, in the order of insertion
	all    map[types.Hash]*ledger.AccountBlock
	hist   []qSnap // by height; hist[0] is the genesis snapshot
	staked map[types.Hash]map[types.Address]*big.Int
}

func (q *quotaBook) global() (n uint64) {
	for i := 1; i < qWindow && i < len(q.hist); i++ {
		for _, u := range q.hist[len(q.hist)-i].use {
			n += u.QuotaUsedTotal
		}
	}
	return
}

// congested is x as it counts under the present load
func (q *quotaBook) congested(x *big.Int) *big.Int {
	i := (q.global() + qGap - 1) / qGap
	if i < 51 {
		return x
	}
	if i > 500 {
		i = 500
	}
	y := new(big.Int).Mul(x, qCong[i])
	return y.Div(y, big.NewInt(1e18))
}

func section(l []*big.Int, x *big.Int) uint64 {
	return uint64(sort.Search(len(l), func(i int) bool { return l[i].Cmp(x) > 0 })-1) * qSection
}

func (q *quotaBook) powQuota(d *big.Int) uint64 {
	if d == nil || d.Sign() <= 0 {
		return 0
	}
	return section(qDiff, q.congested(d))
}

func use(u types.QuotaInfo, b *ledger.AccountBlock) types.QuotaInfo {
	u.BlockCount++
	u.QuotaTotal += b.Quota
	u.QuotaUsedTotal += b.QuotaUsed
	return u
}

// quotaState of an account
type quotaState struct {
	perSnap, snapCur, cur, avg, release uint64
	invalid, blocked, pow               bool
}

func (w *world) quotaOf(a types.Address) (s quotaState) {
	q := w.q
	if x := w.stakedFor(a); x.Sign() > 0 {
		s.perSnap = section(qStake, q.congested(x))
	}
	var used, n uint64
	from := len(q.hist) - qWindow + 1
	if from < 1 {
		from = 1
	}
	for _, e := range q.hist[from:] {
		u := e.use[a]
		used, n = used+u.QuotaUsedTotal, n+u.BlockCount
		if s.snapCur += s.perSnap; s.snapCur >= u.QuotaTotal {
			s.snapCur -= u.QuotaTotal
		} else {
			s.snapCur = 0
		}
	}
	s.snapCur += s.perSnap
	var now types.QuotaInfo
	for _, b := range q.unconf {
		if b.AccountAddress == a {
			now = use(now, b)
			s.pow = s.pow || len(b.Nonce) > 0
		}
	}
	if used, n = used+now.QuotaUsedTotal, n+now.BlockCount; n > 0 {
		s.avg = used / n
	}
	if types.IsContractAddr(a) {
		last, err := w.ch.GetLatestAccountBlock(a)
		w.must(err, "latest block")
		if last != nil && last.BlockType == ledger.BlockTypeReceiveError {
			t := uint64(0)
			if h := w.confirmHeight(last.Hash); h > 0 {
				t = uint64(len(q.hist)) - h + 1
			}
			if t < 75 {
				s.blocked, s.release = true, 75-t
			}
		}
	}
	if now.QuotaTotal > s.snapCur {
		s.invalid = true
	} else if !s.blocked {
		s.cur = s.snapCur - now.QuotaTotal
	}
	return
}

// stakedFor an account as of the last snapshot
func (w *world) stakedFor(a types.Address) *big.Int {
	got, err := w.ch.GetStakeBeneficialAmount(a)
	w.must(err, "stake for an account")
	if m := w.q.staked[w.q.hist[len(w.q.hist)-1].hash]; m != nil {
		x := m[a]
		if x == nil {
			x = new(big.Int)
		}
		if x.Cmp(got) != 0 {
			w.fail("quota-stake", "%s is staked for %s as of the last snapshot, the ledger says %s", x, a, got)
		}
	}
	return got
}

// checkQuotas: what the node tells about the quota of everyone
func (w *world) checkQuotas() {
	if w.q == nil || w.node.IsDead {
		return
	}
	died := w.in(func() {
		if g, x := w.ch.GetGlobalQuota().QuotaUsedTotal, w.q.global(); g != x {
			w.fail("quota-global", "the last snapshots used %d quota, the node says %d", x, g)
		}
		for _, a := range w.accounts {
			s := w.quotaOf(a)
			_, g, err := w.ch.GetStakeQuota(a)
			if s.invalid {
				sim.Count("quota_overdrawn", 1)
				if err == nil {
					w.fail("quota", "the unconfirmed blocks of %s use more than it has, but the node reports a quota of %d", a, g.Current())
				}
				continue
			}
			w.must(err, "quota")
			if l := len(w.ch.GetQuotaUsedList(a)); l != len(w.q.hist) && l != qWindow {
				w.fail("quota", "the node looks at %d snapshots at height %d", l, len(w.q.hist))
			}
			if g.Current() != s.cur || g.SnapshotCurrent() != s.snapCur || g.StakeQuotaPerSnapshotBlock() != s.perSnap || g.Avg() != s.avg || g.Blocked() != s.blocked || g.BlockReleaseHeight() != s.release {
				w.fail("quota", "the quota of %s (%s) is %+v, the node says %+v", a, short(a), s, *g)
			}
		}
		sim.Count("quotas_compared", int64(len(w.accounts)))
		if i := w.q.global() / qGap; i > 50 {
			sim.Count("quota_congested", 1)
			if i > 75 {
				sim.Count("quota_congested_much", 1)
			}
		}
	})
	if died != "" {
		w.recoverNow()
	}
}

// resync with the chain after a rollback, a restart or dropped blocks
func (w *world) quotaResync() {
	q := w.q
	if q == nil {
		return
	}
	died := w.in(func() {
		q.unconf = nil
		for _, b := range w.ch.GetAllUnconfirmedBlocks() {
			x := q.all[b.Hash]
			if x == nil {
				w.fail("quota-blocks", "the ledger holds an unconfirmed block of %s that was never inserted", b.AccountAddress)
			}
			q.unconf = append(q.unconf, x)
		}
		top := w.ch.GetLatestSnapshotBlock().Height
		var l []qSnap
		for h := uint64(1); h <= top; h++ {
			sb, err := w.ch.GetSnapshotHeaderByHeight(h)
			w.must(err, "snapshot")
			if int(h) <= len(q.hist) && q.hist[h-1].hash == sb.Hash {
				l = append(l, q.hist[h-1])
				continue
			}
			e := qSnap{sb.Hash, map[types.Address]types.QuotaInfo{}}
			if h > 1 {
				cs, err := w.ch.GetSubLedger(h-1, h)
				w.must(err, "what a snapshot confirmed")
				for _, b := range cs[len(cs)-1].AccountBlocks {
					e.use[b.AccountAddress] = use(e.use[b.AccountAddress], b)
				}
			}
			l = append(l, e)
		}
		q.hist = l
	})
	if died != "" {
		sim.Bug("died while reading: %s", died)
	}
}

// content of the next snapshot: everything, or what a producer had that does not know the last blocks of some accounts
func (w *world) content(l []*ledger.AccountBlock, unknown func(b *ledger.AccountBlock) bool) (c ledger.SnapshotContent, in map[types.Hash]bool) {
	c, in = make(ledger.SnapshotContent), map[types.Hash]bool{}
	out, lost := map[types.Address]bool{}, map[types.Hash]bool{}
	for _, b := range l {
		drop := out[b.AccountAddress] || b.IsReceiveBlock() && lost[b.FromBlockHash] || unknown != nil && unknown(b)
		if drop {
			out[b.AccountAddress] = true
			lost[b.Hash] = true
			for _, s := range b.SendBlockList {
				lost[s.Hash] = true
			}
			continue
		}
		in[b.Hash] = true
		c[b.AccountAddress] = &ledger.HashHeight{Height: b.Height, Hash: b.Hash}
	}
	return
}

// snapped: a snapshot was inserted, which dropped the blocks inv
func (w *world) snapped(sb *ledger.SnapshotBlock, in map[types.Hash]bool, inv []*ledger.AccountBlock) {
	q := w.q
	e := qSnap{sb.Hash, map[types.Address]types.QuotaInfo{}}
	var left []*ledger.AccountBlock
	for _, b := range q.unconf {
		if in[b.Hash] {
			e.use[b.AccountAddress] = use(e.use[b.AccountAddress], b)
		} else {
			left = append(left, b)
		}
	}
	q.hist = append(q.hist, e)
	if len(left) == 0 {
		m := map[types.Address]*big.Int{}
		st, _ := w.stakes(w.pre[types.AddressQuota])
		for _, s := range st {
			if m[s.benef] == nil {
				m[s.benef] = new(big.Int)
			}
			m[s.benef].Add(m[s.benef], s.amount)
		}
		q.staked[sb.Hash] = m
	} else {
		sim.Injected("partial_snapshot", 1)
	}
	q.unconf = nil
	bad, lost, sum := map[types.Address]bool{}, map[types.Hash]bool{}, map[types.Address]uint64{}
	want := map[types.Hash]bool{}
	for _, b := range left {
		a := b.AccountAddress
		drop := bad[a] || b.IsReceiveBlock() && (lost[b.FromBlockHash] || b.BlockType == ledger.BlockTypeReceiveError)
		if !drop {
			if len(b.Nonce) > 0 { // the work counts as it does under the new load
				p := q.powQuota(b.Difficulty)
				if b.Quota = 0; b.QuotaUsed > p {
					b.Quota = b.QuotaUsed - p
				}
			}
			sum[a] += b.Quota
			drop = sum[a] > w.quotaOf(a).snapCur
		}
		if !drop {
			q.unconf = append(q.unconf, b)
			continue
		}
		bad[a], lost[b.Hash], want[b.Hash] = true, true, true
		for _, s := range b.SendBlockList {
			lost[s.Hash] = true
		}
	}
	for _, b := range inv {
		if !want[b.Hash] {
			w.fail("valid-dropped", "snapshot %d dropped %s/%d, which its account has the quota for", sb.Height, b.AccountAddress, b.Height)
		}
		delete(want, b.Hash)
	}
	if len(want) > 0 {
		w.fail("invalid-kept", "%d blocks their accounts no longer have the quota for stayed after snapshot %d", len(want), sb.Height)
	}
	sim.Count("quota_dropped", int64(len(inv)))
}

// ------------------------------------------------------------------ transactions

const noCost = ^uint64(0)

// cost of a transaction of a user; noCost: not modelled
func (w *world) costOf(m *interfaces.IncomingMessage) uint64 {
	n := uint64(len(m.Data))
	switch {
	case m.BlockType == ledger.BlockTypeReceive:
		return 21000
	case m.BlockType == ledger.BlockTypeSendCreate:
		return 31000 + 28*n
	case *m.ToAddress == types.AddressQuota:
		me, err := abi.ABIQuota.MethodById(m.Data)
		if err != nil {
			return noCost
		}
		for _, x := range []string{"Delegate", "Agent", "Callback"} {
			if strings.Contains(me.Name, x) {
				return 115500
			}
		}
		return 105000
	case isBuiltin(*m.ToAddress):
		return noCost
	case w.isContract(*m.ToAddress):
		return (21000 + 28*n) * uint64(w.created[*m.ToAddress].Data[createHead-1]) / 10
	}
	return 21000 + 28*n
}

// generate the block of m, with work of the given difficulty (nil: none), and judge what the quota allows
func (w *world) generate(m *interfaces.IncomingMessage, d *big.Int) (res *interfaces.GenResult, err error) {
	a := m.AccountAddress
	g := w.generator(a)
	if d == nil {
		res, err = g.GenerateWithMessage(m, &a, sign)
	} else {
		var b, from *ledger.AccountBlock
		if b, err = generator.IncomingMessageToBlock(g.GetVMDB(), m); err != nil {
			return
		}
		if b.IsReceiveBlock() {
			from, err = w.ch.GetAccountBlockByHash(b.FromBlockHash)
			w.must(err, "send block")
		}
		b.Difficulty, b.Nonce = new(big.Int).Set(d), []byte{1, 2, 3, 4, 5, 6, 7, 8}
		if res, err = g.GenerateWithBlock(b, from); err == nil && res.VMBlock != nil {
			x := res.VMBlock.AccountBlock
			x.Signature, x.PublicKey, _ = sign(x.Hash.Bytes())
		}
	}
	if w.q == nil {
		return
	}
	s := w.quotaOf(a)
	p := w.q.powQuota(d)
	cost := w.costOf(m)
	total := s.cur + p
	if total > qBlock {
		total = qBlock
	}
	var b *ledger.AccountBlock
	e := err
	if err == nil {
		e = res.Err
		if res.VMBlock != nil {
			b = res.VMBlock.AccountBlock
		}
	}
	what := fmt.Sprintf("%s, quota %d, by work %d, cost %d", a, s.cur, p, cost)
	switch {
	case s.invalid:
		if b != nil {
			w.fail("quota-overdrawn", "%s: made though the unconfirmed blocks use more quota than the account has", what)
		}
	case d != nil && s.pow:
		sim.Count("pow_twice", 1)
		if b != nil {
			w.fail("quota-pow-twice", "%s: a second block with work between two snapshots", what)
		}
	case cost == noCost:
	case cost > total:
		sim.Count("quota_short", 1)
		if b != nil {
			w.fail("quota-overdrawn", "%s: made without the quota for it", what)
		}
		if e != util.ErrOutOfQuota && e != types.ErrVmRunPanic {
			sim.Count("quota_short_other", 1)
		}
	default:
		if e == util.ErrOutOfQuota || e == util.ErrCalcPoWTwice || e == util.ErrInvalidUnconfirmedQuota {
			w.fail("quota-refused", "%s: refused: %v", what, e)
		}
		if b == nil {
			break
		}
		sim.Count("quota_exact", 1)
		x := uint64(0)
		if cost > p {
			x = cost - p
		}
		if b.QuotaUsed != cost || b.Quota != x {
			w.fail("quota-charged", "%s: charged %d, of which by stake %d instead of %d", what, b.QuotaUsed, b.Quota, x)
		}
	}
	if err == types.ErrVmRunPanic && (s.invalid || d != nil && s.pow) {
		err = nil
		res = &interfaces.GenResult{Err: util.ErrOutOfQuota}
	}
	return
}

// contractQuota: what a contract is charged for executing a call
func (w *world) contractQuota(s quotaState, send, b *ledger.AccountBlock) {
	if send.BlockType == ledger.BlockTypeSendCreate || b.BlockType == ledger.BlockTypeReceiveError {
		if b.Quota != 0 || b.QuotaUsed != 0 {
			w.fail("quota-charged", "contract %s is charged %d for a creation or for nothing", b.AccountAddress, b.QuotaUsed)
		}
		return
	}
	if b.Quota != b.QuotaUsed {
		w.fail("quota-charged", "contract %s is charged %d for a call that used %d", b.AccountAddress, b.Quota, b.QuotaUsed)
	}
	if status(b) == 2 {
		return
	}
	if s.blocked || s.invalid || b.QuotaUsed > s.cur || b.QuotaUsed > qBlock {
		w.fail("quota-overdrawn", "contract %s used %d for a call, its quota is %+v", b.AccountAddress, b.QuotaUsed, s)
	}
	if min := 21000 + 40*confirms(w.created[b.AccountAddress]); b.QuotaUsed < min {
		w.fail("quota-charged", "contract %s is charged %d for a call, the least is %d", b.AccountAddress, b.QuotaUsed, min)
	}
}

// ------------------------------------------------------------------ workload

func (w *world) difficulty(r *sim.Rand) *big.Int {
	i := r.Range(1, 120)
	if r.P(1, 4) {
		i = r.Range(1, 3571)
	}
	d := new(big.Int).Set(qDiff[i])
	switch r.N(4) {
	case 0:
		d.Sub(d, big.NewInt(1))
	case 1:
		d.Add(d, big.NewInt(int64(r.N(1e6))))
	}
	if d.Sign() <= 0 {
		d.SetInt64(1)
	}
	return d
}

// squeeze an account: while its blocks wait, the quota they need goes away
func (w *world) squeeze(r *sim.Rand) {
	u := w.user(r)
	if l := w.stakeList(); r.P(2, 3) {
		// what is staked for it is taken back
		var due *stake
		h := w.ch.GetLatestSnapshotBlock().Height
		contract := r.P(1, 3)
		for _, s := range l {
			if s.id != nil && !s.isDeleg && types.IsContractAddr(s.benef) == contract && (due == nil || s.exp < due.exp) {
				due = s
			}
		}
		if due == nil {
			if cs := w.contracts(); contract && len(cs) > 0 {
				u = cs[r.N(len(cs))]
			}
			w.sendPow(&interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: w.users[r.N(len(w.users))], ToAddress: &types.AddressQuota, TokenId: &viteId, Amount: qStake[r.Range(100, 2000)], Data: pack(abi.ABIQuota, "StakeForQuota", u)}, nil)
			return
		}
		if due.exp > h {
			w.empty(int(due.exp-h), 1)
		}
		u = due.benef
		if r.P(1, 2) {
			// not all of it
			w.sendPow(&interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: w.users[r.N(len(w.users))], ToAddress: &types.AddressQuota, TokenId: &viteId, Amount: new(big.Int).Add(vite18(134), qStake[r.Range(1, 150)]), Data: pack(abi.ABIQuota, "StakeForQuota", u)}, nil)
		}
		if !w.send(due.owner, types.AddressQuota, viteId, new(big.Int), pack(abi.ABIQuota, "CancelQuotaStaking", *due.id)) {
			return
		}
		if contract {
			for i := r.N(4); i >= 0 && !w.node.IsDead; i-- {
				w.send(w.user(r), u, viteId, big.NewInt(int64(r.N(1000))), make([]byte, 4+r.N(60)))
			}
			w.snap(1)
			w.snap(1)
		}
		w.snap(1)
		w.drain(u, r)
		w.takeUp(types.AddressQuota, r, true)
	} else {
		// others load the network
		w.drain(u, r)
		for i := r.N(4); i >= 0 && !w.node.IsDead; i-- {
			w.flood(r, 60)
		}
	}
	if !w.node.IsDead {
		sim.Count("squeezes", 1)
		w.snapPart(1, func(b *ledger.AccountBlock) bool { return b.AccountAddress == u })
	}
}

// takeUp: what waits for a, or what comes from it, is received
func (w *world) takeUp(a types.Address, r *sim.Rand, all bool) {
	for _, s := range w.heads() {
		if w.node.IsDead {
			return
		}
		if s.ToAddress == a || s.AccountAddress == a && !all {
			if all || r.P(3, 4) {
				w.receive(s)
				if !all && !types.IsContractAddr(s.ToAddress) && r.P(1, 2) && !w.node.IsDead {
					w.send(s.ToAddress, w.user(r), viteId, big.NewInt(int64(r.N(1000))), nil)
				}
			}
		}
	}
}

// drain: u uses what it has, and others build on it
func (w *world) drain(u types.Address, r *sim.Rand) {
	if types.IsContractAddr(u) {
		for i := r.N(4); i >= 0 && !w.node.IsDead; i-- {
			w.takeUp(u, r, false)
		}
		return
	}
	for i := r.N(6); i >= 0 && !w.node.IsDead; i-- {
		w.spendBy(u, r)
	}
	for i := r.N(3); i > 0 && !w.node.IsDead; i-- {
		switch r.N(3) {
		case 0:
			w.create(u, viteId, new(big.Int), w.plainContract(r))
		default:
			w.send(u, w.user(r), viteId, big.NewInt(int64(r.N(1000))), nil)
		}
	}
	if r.P(1, 2) {
		w.takeUp(u, r, false)
	}
}

// spend: a transaction that costs about what there is
func (w *world) spend(r *sim.Rand) { w.spendBy(w.user(r), r) }

func (w *world) spendBy(u types.Address, r *sim.Rand) {
	to := w.user(r)
	unit, base := uint64(28), uint64(21000)
	mult := uint64(10)
	if cs := w.contracts(); len(cs) > 0 && r.P(1, 3) {
		to = cs[r.N(len(cs))]
		mult = uint64(w.created[to].Data[createHead-1])
	}
	var d *big.Int
	var have uint64
	died := w.in(func() {
		have = w.quotaOf(u).cur
	})
	if died != "" {
		w.recoverNow()
		return
	}
	if r.P(1, 4) {
		d = w.difficulty(r)
		have += w.q.powQuota(d)
	}
	if have > qBlock {
		have = qBlock
	}
	n := 0
	if have*10/mult > base {
		n = int((have*10/mult - base) / unit)
	}
	switch r.N(5) {
	case 0:
		n++
	case 1:
	case 2:
		n = r.N(n + 1)
	default:
		n = r.N(40)
	}
	if r.P(1, 12) {
		w.create(u, viteId, new(big.Int), w.plainContract(r))
		return
	}
	w.sendPow(&interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: u, ToAddress: &to, TokenId: &viteId, Amount: big.NewInt(int64(r.N(1000))), Data: make([]byte, n)}, d)
}

func (w *world) plainContract(r *sim.Rand) []byte {
	mult := uint8(10)
	if r.P(2, 3) {
		mult = uint8(r.Range(10, 100))
	}
	conf := uint8(r.N(3))
	return util.GetCreateContractData(w.contract(r, conf > 0, conf > 0), 1, conf, 0, mult, types.DELEGATE_GID)
}

// flood the network with the quota of one account
func (w *world) flood(r *sim.Rand, n int) {
	u := w.user(r)
	for i := 0; i < n && !w.node.IsDead; i++ {
		to := w.users[0]
		k := (qBlock - 21000) / 28
		if !w.sendPow(&interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: u, ToAddress: &to, TokenId: &viteId, Amount: big.NewInt(1), Data: make([]byte, k)}, nil) {
			return
		}
	}
}

// restake changes what backs an account
func (w *world) restake(r *sim.Rand) {
	u, ben := w.user(r), w.user(r)
	if cs := w.contracts(); len(cs) > 0 && r.P(1, 3) {
		ben = cs[r.N(len(cs))]
	}
	if l := w.stakeList(); len(l) > 0 && r.P(1, 2) {
		w.cancelStake(l[r.N(len(l))], u, r)
		return
	}
	i := []int{1, 2, 5, 74, 75, 76, 150, 300, 1000, 2000}[r.N(10)]
	x := new(big.Int).Set(qStake[i])
	switch r.N(3) {
	case 0:
		x.Sub(x, big.NewInt(1))
	case 1:
		x.Add(x, big.NewInt(int64(r.N(1e9))))
	}
	if min := vite18(134); x.Cmp(min) < 0 {
		x = min
	}
	w.sendPow(&interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: u, ToAddress: &types.AddressQuota, TokenId: &viteId, Amount: x, Data: pack(abi.ABIQuota, "StakeForQuota", ben)}, nil)
}

// genesisStake of a user: from nothing to more than any account can use
func (w *world) genesisStake(i int) *big.Int {
	r := sim.NewRand(w.c.Seed*31 + uint64(i))
	if i < int(w.c.Params["rich"]) {
		return vite18(20000000)
	}
	k := []int{0, 1, 10, 75, 80, 500, 3571}[r.N(7)]
	x := new(big.Int).Set(qStake[k])
	if k > 0 && r.P(1, 3) {
		x.Sub(x, big.NewInt(1))
	}
	return x
}
