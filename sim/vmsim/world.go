// Package vmsim runs the real ledger, generator, virtual machine and built-in contracts of one node under
// a seeded schedule of transactions, contract executions, snapshots, rollbacks, restarts and crashes, and
// checks the books of the built-in contracts after every block.
package vmsim

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"runtime"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/util"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

const genesisTime = 1558411200
const day = 86400

var viteId = ledger.ViteTokenId

func vite18(n int64) *big.Int {
	return new(big.Int).Mul(big.NewInt(n), new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
}

type token struct {
	id    types.TokenTypeId
	dec   int
	owner types.Address
}

// payout is a reward granted by the governance contract
type payout struct {
	name              string
	days              bool // a payment, for the days from..to
	from, to          uint64
	amount            *big.Int
	height, confirmed uint64 // of the block that executed it, and of the snapshot it was executed as of
}

type dump map[string][]byte

type world struct {
	c       *sim.Case
	node    *sim.Node
	ch      chain.Chain
	gen     *config.Genesis
	flooded bool
	storied bool

	users    []types.Address
	accounts []types.Address // every account with a balance
	builtin  []types.Address
	tokens   []token // genesis tokens other than VITE
	sbp      *sbpStub

	opIdx  int
	crashN int
	now    int64 // time of the next snapshot
	depth  int

	// derived from the chain; rebuilt after a rollback or restart
	road     map[types.Address][]*ledger.AccountBlock // unreceived sends per destination, per sender in order
	blocks   map[types.Hash]bool                      // receive blocks on the chain
	sends    map[types.Hash]*ledger.AccountBlock
	feeBurnt *big.Int // fees kept (not refunded)
	unconf   map[types.Address]bool

	pre     map[types.Address]dump                           // storage of the built-in contracts
	bal     map[types.Address]map[types.TokenTypeId]*big.Int // balances
	paid    map[types.Hash]*payout                           // by receive block
	digests map[types.Hash]uint64
	gaveUp  bool
	dex     *dexBook

	recvRetry map[types.Hash]int
	dexOn     bool
	q         *quotaBook

	wentDeep bool
	created  map[types.Address]*ledger.AccountBlock // user contracts and the transactions that create them
	codes    map[types.Address][]byte               // what their creation returned
	from     map[types.Hash]types.Hash
	parent   map[types.Hash]types.Hash // transaction sent by a contract -> the one it was executing
}

func (w *world) fail(class, f string, a ...interface{}) {
	sim.Fail(class, "op %d: "+f, append([]interface{}{w.opIdx}, a...)...)
}

// ------------------------------------------------------------------ consensus stub

type sbpStub struct {
	seed uint64
	idx  core.TimeIndex
}

var sbpNames = []string{"s1", "s2", "s11", "s1.1", "s3"}

func mix(a ...uint64) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, x := range a {
		binary.BigEndian.PutUint64(b[:], x)
		h.Write(b[:])
	}
	return sim.NewRand(h.Sum64()).U64()
}

func (s *sbpStub) dayStat(i uint64) *core.DayStats {
	d := &core.DayStats{Index: i, Stats: map[string]*core.SbpStats{}}
	sum := new(big.Int)
	for k, n := range sbpNames {
		r := sim.NewRand(mix(s.seed, i, uint64(k)))
		if r.P(1, 5) {
			continue // did not run that day
		}
		x := &core.SbpStats{Index: uint64(k), Name: n, ExceptedBlockNum: uint64(r.N(4000))}
		if x.ExceptedBlockNum > 0 {
			x.BlockNum = uint64(r.N(int(x.ExceptedBlockNum) + 1))
		}
		v := new(big.Int).Mul(vite18(int64(r.N(5000000))), big.NewInt(1))
		v.Add(v, big.NewInt(int64(r.N(1e9))))
		x.VoteCnt = &core.BigInt{Int: v}
		sum.Add(sum, v)
		d.BlockTotal += x.BlockNum
		d.Stats[n] = x
	}
	d.VoteSum = &core.BigInt{Int: sum}
	return d
}

func (s *sbpStub) DayStats(a, b uint64) ([]*core.DayStats, error) {
	if a > b || b-a > 2000 {
		return nil, fmt.Errorf("bad range %d-%d", a, b)
	}
	var l []*core.DayStats
	for i := a; i <= b; i++ {
		l = append(l, s.dayStat(i))
	}
	return l, nil
}
func (s *sbpStub) GetDayTimeIndex() core.TimeIndex { return s.idx }
func (s *sbpStub) HourStats(a, b uint64) ([]*core.HourStats, error) {
	return nil, fmt.Errorf("no stats")
}
func (s *sbpStub) GetHourTimeIndex() core.TimeIndex { return s.idx }
func (s *sbpStub) PeriodStats(a, b uint64) ([]*core.PeriodStats, error) {
	return nil, fmt.Errorf("no stats")
}
func (s *sbpStub) GetPeriodTimeIndex() core.TimeIndex { return s.idx }
func (s *sbpStub) GetSuccessRateByHour(uint64) (map[types.Address]int32, error) {
	return nil, fmt.Errorf("no stats")
}
func (s *sbpStub) GetNodeCount() int { return 3 }

type verifierStub struct{}

func (verifierStub) VerifyABsProducer(abs map[types.Gid][]*ledger.AccountBlock) ([]*ledger.AccountBlock, error) {
	return nil, nil
}
func (verifierStub) VerifySnapshotProducer(*ledger.SnapshotBlock) (bool, error) { return true, nil }
func (verifierStub) VerifyAccountProducer(*ledger.AccountBlock) (bool, error)   { return true, nil }

// ------------------------------------------------------------------ genesis and boot

func userAddr(i int) types.Address {
	a, err := types.GenUserAddress(crypto.Hash256([]byte(fmt.Sprint("vm user", i)))[:20])
	if err != nil {
		sim.Bug("%v", err)
	}
	return a
}

func tti(s string) types.TokenTypeId {
	t, err := types.HexToTokenTypeId(s)
	if err != nil {
		sim.Bug("%v", err)
	}
	return t
}

func (w *world) genesis() {
	g := config.MockGenesis()
	gov := types.AddressGovernance
	vi := g.AssetInfo.TokenInfoMap[viteId.Hex()]
	vi.Owner = gov
	rich := *g.GenesisAccountAddress
	total := vite18(1000000000)
	bal := map[string]map[string]*big.Int{}
	q := &config.QuotaContractInfo{StakeInfoMap: map[string][]*config.StakeInfo{}, StakeBeneficialMap: map[string]*big.Int{}}
	staked := new(big.Int)
	for i, u := range w.users {
		u := u
		bal[u.Hex()] = map[string]*big.Int{viteId.Hex(): vite18(20000000)}
		total.Sub(total, vite18(20000000))
		if w.q != nil {
			x := w.genesisStake(i)
			if x.Sign() > 0 {
				q.StakeInfoMap[rich.Hex()] = append(q.StakeInfoMap[rich.Hex()], &config.StakeInfo{Amount: x, ExpirationHeight: 259200, Beneficiary: &u})
				q.StakeBeneficialMap[u.Hex()] = x
				staked.Add(staked, x)
			}
			continue
		}
		q.StakeInfoMap[rich.Hex()] = append(q.StakeInfoMap[rich.Hex()], &config.StakeInfo{Amount: vite18(1000000), ExpirationHeight: 259200, Beneficiary: &u})
		q.StakeBeneficialMap[u.Hex()] = vite18(1000000)
		staked.Add(staked, vite18(1000000))
	}
	for _, u := range []types.Address{types.AddressDexFund, types.AddressDexTrade} {
		u := u
		q.StakeInfoMap[rich.Hex()] = append(q.StakeInfoMap[rich.Hex()], &config.StakeInfo{Amount: vite18(50000000), ExpirationHeight: 259200, Beneficiary: &u})
		q.StakeBeneficialMap[u.Hex()] = vite18(50000000)
		staked.Add(staked, vite18(50000000))
	}
	total.Sub(total, staked)
	// tokens
	mk := func(id types.TokenTypeId, name, sym string, dec int, owner types.Address) {
		unit := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil)
		each := new(big.Int).Mul(big.NewInt(10000000), unit)
		sup := new(big.Int).Mul(each, big.NewInt(int64(len(w.users))))
		g.AssetInfo.TokenInfoMap[id.Hex()] = &config.TokenInfo{TokenName: name, TokenSymbol: sym, TotalSupply: sup, Decimals: uint8(dec), Owner: owner,
			MaxSupply: new(big.Int).Mul(sup, big.NewInt(1000)), IsReIssuable: true}
		for _, u := range w.users {
			bal[u.Hex()][id.Hex()] = each
		}
		w.tokens = append(w.tokens, token{id, dec, owner})
	}
	mk(tti("tti_564954455820434f494e69b5"), "Vite Coin", "VX", 18, w.users[0])
	mk(types.CreateTokenTypeId([]byte("TA")), "Token A", "TKA", 18, w.users[1])
	mk(types.CreateTokenTypeId([]byte("TB")), "Token B", "TKB", 6, w.users[2%len(w.users)])
	mk(types.CreateTokenTypeId([]byte("TC")), "Token C", "TKC", 2, w.users[1])
	// block producers
	gi := g.GovernanceInfo
	s := gi.ConsensusGroupInfoMap["00000000000000000001"]
	s.RegisterConditionParam.StakeHeight = uint64([]int{1, 20, 90}[w.c.Params["regheight"]%3])
	reg := map[string]*config.RegistrationInfo{}
	his := map[string]string{}
	n := 2
	for i := 0; i < n; i++ {
		a := userAddr(100 + i)
		st := w.users[i%len(w.users)]
		reg[sbpNames[i]] = &config.RegistrationInfo{BlockProducingAddress: &a, StakeAddress: &st, Amount: vite18(100000), ExpirationHeight: 3, RewardTime: 1, HistoryAddressList: []types.Address{a}}
		his[a.Hex()] = sbpNames[i]
	}
	gi.RegistrationInfoMap = map[string]map[string]*config.RegistrationInfo{"00000000000000000001": reg}
	gi.HisNameMap = map[string]map[string]string{"00000000000000000001": his}
	reged := vite18(int64(n) * 100000)
	total.Sub(total, reged)
	bal[types.AddressQuota.Hex()] = map[string]*big.Int{viteId.Hex(): staked}
	bal[gov.Hex()] = map[string]*big.Int{viteId.Hex(): reged}
	bal[rich.Hex()] = map[string]*big.Int{viteId.Hex(): total}
	g.AccountBalanceMap = bal
	g.QuotaInfo = q
	own := w.users[0]
	g.DexFundInfo = &config.DexFundContractInfo{Owner: &own}
	w.gen = g
	w.builtin = []types.Address{types.AddressQuota, types.AddressGovernance, types.AddressAsset, types.AddressDexFund, types.AddressDexTrade}
	w.accounts = append(append(append([]types.Address(nil), w.users...), w.builtin...), rich)
}

func (w *world) genesisCopy() *config.Genesis {
	b, err := json.Marshal(w.gen)
	if err != nil {
		sim.Bug("%v", err)
	}
	g := new(config.Genesis)
	if err := json.Unmarshal(b, g); err != nil {
		sim.Bug("%v", err)
	}
	return g
}

func setupGlobals(c *sim.Case) {
	vm.InitVMConfig(false, true, c.Params["quota"] == 0, false, "")
	upgrade.CleanupUpgradeBox()
	var b upgrade.UpgradeBox = upgrade.NewEmptyUpgradeBox()
	for v := uint32(1); v <= 13; v++ {
		b = b.AddPoint(v, 1)
	}
	if err := upgrade.InitUpgradeBox(b); err != nil {
		sim.Bug("upgrade box: %v", err)
	}
}

// in runs f in the node; it returns why the node died, or ""
func (w *world) in(f func()) string {
	done := make(chan struct{})
	n := w.node
	w.gaveUp = false
	n.Go(func() {
		fin := false
		defer func() {
			if fin || w.gaveUp {
				close(done)
			}
		}()
		f()
		fin = true
	})
	select {
	case <-done:
		if n.IsDead {
			return n.Why
		}
		return ""
	case <-n.Dead:
		return n.Why
	}
}

func (w *world) boot(dir string) (err error, died string) {
	w.node = sim.Boot("node", dir)
	w.node.OnPanic = func(n *sim.Node, msg string) { w.fail("panic", "the node died: %s", msg) }
	w.armFaults()
	var ch chain.Chain
	died = w.in(func() {
		x := chain.NewChain(dir, &config.Chain{VmLogAll: true}, w.genesisCopy())
		if err = x.Init(); err != nil {
			return
		}
		x.SetConsensus(verifierStub{}, core.NewTimeIndex(time.Unix(genesisTime, 0), 75*time.Second))
		err = x.Start()
		ch = x
	})
	w.ch = ch
	return
}

func (w *world) armFaults() {
	node := w.node
	base := node.Disk.Ops
	for i := range w.c.Faults {
		f := w.c.Faults[i]
		if f.A != int64(w.opIdx) || f.K != "crash" {
			continue
		}
		prevOn := node.Disk.OnOp
		fired := false
		node.Disk.OnOp = func(n int, kind, path string) {
			if prevOn != nil {
				prevOn(n, kind, path)
			}
			if n-base >= int(f.B)+1 && !fired && !node.IsDead {
				fired = true
				w.crashN++
				r := sim.NewRand(f.R)
				node.Crash(int(f.C), r.U64, fmt.Sprintf("crash before disk op %d (%s)", n, kind))
				if runtime.SimTag() == node.Tag {
					sim.Park()
				}
			}
		}
	}
}

func (w *world) disarm() { w.node.Disk.OnOp = nil }

func (w *world) recoverNow() {
	sim.Injected("crash", 1)
	for try := 0; ; try++ {
		dir := w.node.Dir
		w.opIdx = -1 - w.crashN
		err, died := w.boot(dir)
		if died != "" {
			if try > 10 {
				sim.Bug("too many recovery crashes")
			}
			sim.Injected("crash_in_recovery", 1)
			continue
		}
		if err != nil {
			w.fail("recovery-failed", "after a crash the ledger does not open: %v", err)
		}
		break
	}
	w.disarm()
	w.rebuild("recovery")
	sim.Count("recoveries", 1)
}

func (w *world) restart() {
	died := w.in(func() {
		if err := w.ch.Stop(); err != nil {
			w.fail("stop-failed", "Stop: %v", err)
		}
	})
	if died == "" {
		w.node.Crash(0, nil, "restart")
	}
	w.recoverNow()
	if died == "" {
		sim.Injected("crash", -1)
		sim.Injected("restart", 1)
	}
}

// ------------------------------------------------------------------ reading the chain

func (w *world) must(err error, what string) {
	if err != nil {
		w.fail("read-error", "%s: %v", what, err)
	}
}

func (w *world) storage(a types.Address) dump {
	it, err := w.ch.GetStorageIterator(a, nil)
	w.must(err, "storage of "+a.String())
	defer it.Release()
	d := dump{}
	for it.Next() {
		if len(it.Value()) > 0 {
			d[string(it.Key())] = append([]byte(nil), it.Value()...)
		}
	}
	w.must(it.Error(), "storage of "+a.String())
	return d
}

func (w *world) balances(a types.Address) map[types.TokenTypeId]*big.Int {
	m, err := w.ch.GetBalanceMap(a)
	w.must(err, "balances of "+a.String())
	o := map[types.TokenTypeId]*big.Int{}
	for k, v := range m {
		if v.Sign() != 0 {
			o[k] = new(big.Int).Set(v)
		}
	}
	return o
}

func isBuiltin(a types.Address) bool { return types.IsBuiltinContractAddr(a) }

// absorb a block of the chain into the derived state
func (w *world) absorb(b *ledger.AccountBlock) {
	put := func(s *ledger.AccountBlock) {
		w.sends[s.Hash] = s
		w.noteCreate(s)
		w.road[s.ToAddress] = append(w.road[s.ToAddress], s)
	}
	if b.IsSendBlock() {
		put(b)
		return
	}
	w.blocks[b.Hash] = true
	if l := w.road[b.AccountAddress]; b.FromBlockHash != (types.Hash{}) {
		for i, s := range l {
			if s.Hash == b.FromBlockHash {
				w.road[b.AccountAddress] = append(append([]*ledger.AccountBlock(nil), l[:i]...), l[i+1:]...)
				if s.Fee != nil && s.Fee.Sign() > 0 && (status(b) == 0 || s.BlockType == ledger.BlockTypeSendCreate) {
					w.feeBurnt.Add(w.feeBurnt, s.Fee)
				}
				break
			}
		}
	}
	for _, s := range b.SendBlockList {
		w.parent[s.Hash] = w.fromOf(b)
		put(s)
	}
}

func (w *world) fromOf(b *ledger.AccountBlock) types.Hash {
	if h, ok := w.from[b.Hash]; ok {
		return h
	}
	return b.FromBlockHash
}

func status(b *ledger.AccountBlock) int {
	if len(b.Data) == 33 {
		return int(b.Data[32])
	}
	return 0
}

// rebuild the derived state from the chain after a rollback or restart
func (w *world) rebuild(why string) {
	w.road, w.blocks, w.sends, w.feeBurnt = map[types.Address][]*ledger.AccountBlock{}, map[types.Hash]bool{}, map[types.Hash]*ledger.AccountBlock{}, new(big.Int)
	w.created, w.parent, w.from = map[types.Address]*ledger.AccountBlock{}, map[types.Hash]types.Hash{}, map[types.Hash]types.Hash{}
	var recvs []*ledger.AccountBlock
	died := w.in(func() {
		for i := 0; i < len(w.accounts); i++ { // contracts are found on the way
			a := w.accounts[i]
			last, err := w.ch.GetLatestAccountBlock(a)
			w.must(err, "latest block")
			if last == nil {
				continue
			}
			l, err := w.ch.GetAccountBlocksByRange(a, 1, last.Height)
			w.must(err, "account chain")
			if uint64(len(l)) != last.Height {
				w.fail("read-error", "account chain of %s has %d blocks, its latest is %d", a, len(l), last.Height)
			}
			if len(l) > 1 && l[0].Height > l[1].Height {
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
			}
			for _, b := range l {
				if b.IsReceiveBlock() {
					recvs = append(recvs, b)
				}
				x := *b
				if b.IsReceiveBlock() {
					w.from[b.Hash] = b.FromBlockHash
					x.FromBlockHash = types.Hash{}
				}
				w.absorb(&x)
			}
		}
	})
	if died != "" {
		sim.Bug("died while reading: %s", died)
	}
	for _, b := range recvs {
		x := *b
		x.SendBlockList = nil
		if x.FromBlockHash != (types.Hash{}) {
			if w.sends[x.FromBlockHash] == nil {
				w.fail("orphan-receive", "%s/%d receives %s, which is not on the chain after %s", b.AccountAddress, b.Height, b.FromBlockHash, why)
			}
			w.absorb(&x)
		}
	}
	w.dexReplay(recvs)
	for h := range w.paid {
		if !w.blocks[h] {
			delete(w.paid, h)
		}
	}
	w.refresh()
	w.quotaResync()
	sb := w.ch.GetLatestSnapshotBlock()
	if sb.Timestamp.Unix() > w.now {
		w.now = sb.Timestamp.Unix()
	}
	// what the ledger holds at this snapshot is what it held when the snapshot was taken
	if d, ok := w.digests[sb.Hash]; ok && len(w.unconfirmed()) == 0 {
		sim.Count("digests_compared", 1)
		if g := w.digest(); g != d {
			w.fail("rollback-mismatch", "after %s the contracts at snapshot %d differ from what they held when it was taken", why, sb.Height)
		}
	}
	w.checkBooks(why)
}

func (w *world) unconfirmed() (l []*ledger.AccountBlock) {
	died := w.in(func() { l = w.ch.GetAllUnconfirmedBlocks() })
	if died != "" {
		return nil
	}
	return
}

// refresh the cached storage and balances of everything
func (w *world) refresh() {
	w.pre, w.bal = map[types.Address]dump{}, map[types.Address]map[types.TokenTypeId]*big.Int{}
	died := w.in(func() {
		for _, a := range w.builtin {
			w.pre[a] = w.storage(a)
		}
		for _, a := range w.contracts() {
			w.pre[a] = w.storage(a)
			w.codes[a] = w.codeOf(a)
		}
		for _, a := range w.accounts {
			w.bal[a] = w.balances(a)
		}
	})
	if died != "" {
		sim.Bug("died while reading: %s", died)
	}
}

func sortedKeys(d dump) []string {
	l := make([]string, 0, len(d))
	for k := range d {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (w *world) digest() uint64 {
	h := fnv.New64a()
	cs := w.contracts()
	sort.Slice(cs, func(i, j int) bool { return bytes.Compare(cs[i][:], cs[j][:]) < 0 })
	for _, a := range append(append([]types.Address(nil), w.builtin...), cs...) {
		for _, k := range sortedKeys(w.pre[a]) {
			fmt.Fprintf(h, "%x=%x;", k, w.pre[a][k])
		}
		fmt.Fprintf(h, "%x", w.codes[a])
	}
	as := append([]types.Address(nil), w.accounts...)
	sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i][:], as[j][:]) < 0 })
	for _, a := range as {
		var l []string
		for t, v := range w.bal[a] {
			l = append(l, t.Hex()+v.String())
		}
		sort.Strings(l)
		if len(l) > 0 {
			fmt.Fprint(h, a, l)
		}
	}
	return h.Sum64()
}

func (w *world) b(a types.Address, t types.TokenTypeId) *big.Int {
	if v := w.bal[a][t]; v != nil {
		return v
	}
	return new(big.Int)
}

// ------------------------------------------------------------------ blocks

func sign(data []byte) ([]byte, ed25519.PublicKey, error) {
	return []byte("sig"), crypto.Hash256(data), nil
}

func (w *world) generator(a types.Address) interfaces.Generator {
	sb := w.ch.GetLatestSnapshotBlock()
	var prev types.Hash
	last, err := w.ch.GetLatestAccountBlock(a)
	w.must(err, "latest block")
	if last != nil {
		prev = last.Hash
	}
	g, err := generator.NewGenerator(w.ch, w.sbp, a, &sb.Hash, &prev)
	if err != nil {
		w.fail("generator", "no generator for %s: %v", a, err)
	}
	return g
}

// send a transaction of a user; false: refused before anything happened
func (w *world) send(from, to types.Address, t types.TokenTypeId, amount *big.Int, data []byte) bool {
	return w.sendMsg(&interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: from, ToAddress: &to, TokenId: &t, Amount: amount, Data: data})
}

func (w *world) sendMsg(m *interfaces.IncomingMessage) bool { return w.sendPow(m, nil) }

// sendPow sends with work of difficulty d, nil: none
func (w *world) sendPow(m *interfaces.IncomingMessage, d *big.Int) bool {
	ok := false
	from := m.AccountAddress
	died := w.in(func() {
		res, err := w.generate(m, d)
		if err != nil || res.VMBlock == nil {
			if err == types.ErrVmRunPanic {
				w.fail("vm-panic", "the virtual machine panicked on a send of %s to %v, data %x", from, m.ToAddress, m.Data)
			}
			e := err
			if e == nil {
				e = res.Err
			}
			sim.Logf("  refused: %v", e)
			sim.Count("send_refused", 1)
			return
		}
		ok = w.insert(res.VMBlock)
	})
	if died != "" {
		w.recoverNow()
		return false
	}
	if ok {
		sim.Count("sends", 1)
	}
	return ok
}

func (w *world) insert(b *interfaces.VmAccountBlock) bool {
	if err := w.ch.InsertAccountBlock(b); err != nil {
		w.fail("insert-rejected", "inserting %s/%d failed: %v", b.AccountBlock.AccountAddress, b.AccountBlock.Height, err)
	}
	if w.q != nil {
		x := cp(b.AccountBlock)
		w.q.unconf = append(w.q.unconf, x)
		w.q.all[x.Hash] = x
	}
	w.after(cp(b.AccountBlock))
	return true
}

// cp is an independent copy of a block
func cp(b *ledger.AccountBlock) *ledger.AccountBlock {
	l := b.SendBlockList
	x := *b
	x.SendBlockList = nil
	y := x.Copy()
	for _, s := range l {
		y.SendBlockList = append(y.SendBlockList, cp(s))
	}
	return y
}

// after a block was inserted: bring the caches up to date and check
func (w *world) after(b *ledger.AccountBlock) {
	a := b.AccountAddress
	send := w.sends[b.FromBlockHash]
	w.absorb(b)
	ob := w.bal[a]
	w.bal[a] = w.balances(a)
	w.checkFlow(b, send, ob, w.bal[a])
	if w.isContract(a) {
		if send == nil {
			w.fail("orphan-receive", "%s/%d receives a transaction that is not on the chain", a, b.Height)
		}
		old := w.pre[a]
		w.pre[a] = w.storage(a)
		w.contractStep(send, b, old, w.pre[a], ob)
	}
	if !isBuiltin(a) {
		return
	}
	old := w.pre[a]
	w.pre[a] = w.storage(a)
	if send == nil {
		w.fail("orphan-receive", "%s/%d receives a transaction that is not on the chain", a, b.Height)
	}
	w.checkReceive(send, b, old, w.pre[a])
}

// receive one waiting transaction; false: not possible now
func (w *world) receive(s *ledger.AccountBlock) bool {
	ok := false
	died := w.in(func() {
		to := s.ToAddress
		var res *interfaces.GenResult
		var err error
		var qs quotaState
		if isBuiltin(to) {
			n, e := w.ch.GetConfirmedTimes(s.Hash)
			w.must(e, "confirmed times")
			if n < 1 && !(to == types.AddressDexFund || to == types.AddressDexTrade) {
				return
			}
			g := w.generator(to)
			full, e := w.ch.GetAccountBlockByHash(s.Hash)
			w.must(e, "send block")
			if full == nil {
				w.fail("read-error", "send block %s is gone", s.Hash)
			}
			res, err = g.GenerateWithOnRoad(full, &to, sign, nil)
		} else if w.isContract(to) {
			if !w.ready(s) {
				return
			}
			full, e := w.ch.GetAccountBlockByHash(s.Hash)
			w.must(e, "send block")
			if full == nil {
				w.fail("read-error", "send block %s is gone", s.Hash)
			}
			if w.q != nil {
				qs = w.quotaOf(to)
			}
			res, err = w.generator(to).GenerateWithOnRoad(full, &to, sign, nil)
		} else {
			h := s.Hash
			m := &interfaces.IncomingMessage{BlockType: ledger.BlockTypeReceive, AccountAddress: to, FromBlockHash: &h}
			var d *big.Int
			if w.q != nil && s.Hash[30]%5 == 0 {
				d = w.difficulty(sim.NewRand(uint64(s.Hash[29]) + uint64(w.opIdx)))
			}
			res, err = w.generate(m, d)
		}
		if err == types.ErrVmRunPanic {
			w.fail("vm-panic", "the virtual machine panicked while %s executed a call of %s, data %x", to, s.AccountAddress, s.Data)
		}
		if err != nil {
			w.fail("receive-failed", "%s cannot receive a call of %s, data %x: %v", to, s.AccountAddress, s.Data, err)
		}
		if res.VMBlock == nil {
			if res.Err == util.ErrOutOfQuota && (to == types.AddressDexFund || to == types.AddressDexTrade) {
				sim.Count("dex_out_of_quota", 1)
				return
			}
			if isBuiltin(to) {
				w.fail("receive-failed", "%s produces no block for a call of %s, data %x: %v", to, s.AccountAddress, s.Data, res.Err)
			}
			sim.Logf("  receive refused: %v", res.Err)
			sim.Count("recv_refused", 1)
			return
		}
		if (isBuiltin(to) || w.isContract(to)) && s.Hash[31]%4 == 0 {
			// whoever executes the call gets the same result
			full, e := w.ch.GetAccountBlockByHash(s.Hash)
			w.must(e, "send block")
			res2, err2 := w.generator(to).GenerateWithOnRoad(full, &to, sign, nil)
			if err2 != nil || res2.VMBlock == nil || res2.VMBlock.AccountBlock.Hash != res.VMBlock.AccountBlock.Hash {
				w.fail("nondeterministic", "%s: executing a call of %s twice gives two results, data %x", short(to), s.AccountAddress, s.Data)
			}
			sim.Count("executed_twice", 1)
		}
		if w.q != nil && w.isContract(to) {
			w.contractQuota(qs, s, res.VMBlock.AccountBlock)
		}
		ok = w.insert(res.VMBlock)
		if ok {
			sim.Count("recvs", 1)
			if isBuiltin(to) || w.isContract(to) {
				sim.Count(fmt.Sprintf("exec_%s_%d", short(to), status(res.VMBlock.AccountBlock)), 1)
			}
		}
	})
	if died != "" {
		w.recoverNow()
		return false
	}
	return ok
}

func short(a types.Address) string {
	switch a {
	case types.AddressQuota:
		return "quota"
	case types.AddressGovernance:
		return "gov"
	case types.AddressAsset:
		return "asset"
	case types.AddressDexFund:
		return "fund"
	case types.AddressDexTrade:
		return "trade"
	}
	if types.IsContractAddr(a) {
		return "contract"
	}
	return "user"
}

// heads: the next transaction of every (sender, destination) pair that can be received now
func (w *world) heads() (l []*ledger.AccountBlock) {
	for _, a := range w.accounts {
		if a == *w.gen.GenesisAccountAddress {
			continue
		}
		seen := map[types.Address]bool{}
		for _, s := range w.road[a] {
			if seen[s.AccountAddress] {
				continue
			}
			seen[s.AccountAddress] = true
			l = append(l, s)
		}
	}
	return
}

func (w *world) snap(dt int64) { w.snapPart(dt, nil) }

// snapPart: a snapshot by a producer that does not know some blocks
func (w *world) snapPart(dt int64, unknown func(b *ledger.AccountBlock) bool) {
	dropped := false
	died := w.in(func() {
		last := w.ch.GetLatestSnapshotBlock()
		w.now = last.Timestamp.Unix() + dt
		content := make(ledger.SnapshotContent)
		for _, b := range w.ch.GetAllUnconfirmedBlocks() {
			if h := content[b.AccountAddress]; h == nil || h.Height < b.Height {
				content[b.AccountAddress] = &ledger.HashHeight{Height: b.Height, Hash: b.Hash}
			}
		}
		var in map[types.Hash]bool
		if w.q != nil {
			content, in = w.content(w.q.unconf, unknown)
		}
		t := time.Unix(w.now, 0)
		sb := &ledger.SnapshotBlock{PrevHash: last.Hash, Height: last.Height + 1, Timestamp: &t, SnapshotContent: content, PublicKey: crypto.Hash256([]byte("p")), Signature: []byte("sig")}
		sb.Hash = sb.ComputeHash()
		inv, err := w.ch.InsertSnapshotBlock(sb)
		if err != nil {
			w.fail("insert-rejected", "inserting snapshot %d failed: %v", sb.Height, err)
		}
		if w.q != nil {
			w.snapped(sb, in, inv)
			dropped = len(inv) > 0
			if len(w.q.unconf) > 0 || dropped {
				return
			}
		}
		if len(inv) > 0 {
			w.fail("valid-dropped", "snapshot %d dropped %d blocks", sb.Height, len(inv))
		}
		w.digests[sb.Hash] = w.digest()
	})
	if died != "" {
		w.recoverNow()
		return
	}
	if dropped {
		w.rebuild("dropping blocks")
	}
	sim.Count("snapshots", 1)
}

func (w *world) empty(n int, dt int64) {
	for i := 0; i < n && !w.node.IsDead; i++ {
		w.snap(dt)
	}
}

// settle: snapshots and receives until nothing is on its way
func (w *world) settle(r *sim.Rand) {
	for idle := 0; idle < 60 && (w.q == nil || idle < 4); idle++ {
		w.snap(1)
		n := 0
		for _, s := range w.heads() {
			if w.receive(s) {
				n++
			}
		}
		left := 0
		for _, l := range w.road {
			left += len(l)
		}
		if left == 0 {
			return
		}
		if n > 0 {
			idle = 0
		}
	}
}

func (w *world) rollback(k uint64) {
	died := w.in(func() {
		top := w.ch.GetLatestSnapshotBlock().Height
		if top < 3 {
			return
		}
		if k > top-2 {
			k = top - 2
		}
		if _, err := w.ch.DeleteSnapshotBlocksToHeight(top - k + 1); err != nil {
			w.fail("delete-failed", "deleting the last %d snapshots failed: %v", k, err)
		}
	})
	if died != "" {
		w.recoverNow()
		return
	}
	w.now = w.ch.GetLatestSnapshotBlock().Timestamp.Unix()
	w.rebuild(fmt.Sprintf("a rollback of %d snapshots", k))
	sim.Count("rollbacks", 1)
}

// rollbackBlocks takes back a block no snapshot has confirmed and what came after it.
func (w *world) rollbackBlocks(r *sim.Rand) {
	n := 0
	died := w.in(func() {
		l := w.ch.GetAllUnconfirmedBlocks()
		if len(l) == 0 {
			return
		}
		at := r.N(len(l))
		if r.P(1, 2) {
			at = len(l) - 1 - r.N(len(l)+1)/2
		}
		b := l[at]
		gone, err := w.ch.DeleteAccountBlocks(b.AccountAddress, b.Hash)
		if err != nil {
			w.fail("delete-failed", "deleting the unconfirmed block %s of %s failed: %v", b.Hash, b.AccountAddress, err)
		}
		n = len(gone)
	})
	if died != "" {
		w.recoverNow()
		return
	}
	if n == 0 {
		return
	}
	w.rebuild(fmt.Sprintf("a rollback of %d account blocks", n))
	sim.Count("rollbacks_unconfirmed", 1)
}

// ------------------------------------------------------------------ run

func run(c *sim.Case) {
	setupGlobals(c)
	w := &world{c: c, paid: map[types.Hash]*payout{}, digests: map[types.Hash]uint64{}, recvRetry: map[types.Hash]int{}, dexOn: c.Params["dex"] == 1, codes: map[types.Address][]byte{}}
	for i := 0; i < int(c.Params["users"]); i++ {
		w.users = append(w.users, userAddr(i))
	}
	if c.Params["quota"] == 1 {
		w.q = &quotaBook{all: map[types.Hash]*ledger.AccountBlock{}, staked: map[types.Hash]map[types.Address]*big.Int{}}
		loadQuotaTables()
	}
	w.sbp = &sbpStub{seed: c.Seed, idx: core.NewTimeIndex(time.Unix(genesisTime, 0), 24*time.Hour)}
	w.genesis()
	w.opIdx = -1
	err, died := w.boot(sim.NewDir("node"))
	if err != nil || died != "" {
		sim.Bug("boot: %v %s", err, died)
	}
	w.disarm()
	w.now = genesisTime
	w.rebuild("genesis")
	w.opIdx = -1000000
	if w.dexOn {
		w.dexSetup()
	}
	for i, op := range c.Ops {
		w.opIdx = i
		w.armFaults()
		sim.Logf("op %d %s %d %d", i, op.K, op.A, op.B)
		crashes := w.crashN
		w.do(op, sim.NewRand(op.R))
		for _, f := range c.Faults {
			if f.K == "crash" && f.A == int64(i) && w.crashN == crashes && !w.node.IsDead {
				w.crashN++
				w.node.Crash(int(f.C), sim.NewRand(f.R).U64, "crash after an operation")
			}
		}
		if w.node.IsDead {
			w.recoverNow()
		}
		w.opIdx = i
		w.disarm()
		w.checkBooks("op")
		w.checkQuotas()
		w.sig()
		runtime.Gosched()
	}
	w.opIdx = len(c.Ops)
	w.settle(sim.NewRand(c.Seed))
	w.finalChecks()
	w.restart()
}

func (w *world) do(op sim.Op, r *sim.Rand) {
	switch op.K {
	case "call":
		w.call(int(op.A), r)
	case "recv":
		l := w.heads()
		if len(l) > 0 {
			w.receive(l[int(uint64(op.A)%uint64(len(l)))])
		}
	case "pump":
		for i := int64(0); i < op.A && !w.node.IsDead; i++ {
			l := w.heads()
			if len(l) == 0 {
				return
			}
			w.receive(l[r.N(len(l))])
			if w.opIdx < 0 {
				return
			}
		}
	case "snap":
		w.snap(op.A)
	case "empty":
		w.empty(int(op.A), 1)
	case "part":
		w.snapPart(op.A, func(b *ledger.AccountBlock) bool { return r.P(1, len(w.q.unconf)+1) })
	case "squeeze":
		w.squeeze(r)
	case "flood":
		w.flood(r, int(op.A))
	case "due":
		w.due(r)
	case "settle":
		w.settle(r)
	case "delab":
		w.rollbackBlocks(r)
	case "delsb":
		w.rollback(uint64(op.A))
	case "restart":
		w.restart()
	case "sleep":
		died := w.in(func() { time.Sleep(time.Duration(op.A) * time.Millisecond) })
		if died != "" {
			w.recoverNow()
		}
	}
}

func (w *world) sig() {
	n := 0
	for _, l := range w.road {
		n += len(l)
	}
	if n > 12 {
		n = 12
	}
	var sz []int
	for _, a := range append(w.contracts(), w.builtin...) {
		k := len(w.pre[a])
		if k > 40 {
			k = 40 + k/20
		}
		sz = append(sz, k)
	}
	sim.State(sim.Sig(n, fmt.Sprint(sz), w.crashN > 0))
}

func init() { sim.Sims["vm"] = sim.Sim{Gen: gen, Run: run} }
