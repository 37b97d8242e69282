package vmsim

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

func (w *world) fund(u types.Address, name string, args ...interface{}) bool {
	return w.send(u, types.AddressDexFund, viteId, big.NewInt(0), pack(abi.ABIDexFund, name, args...))
}

func (w *world) deposit(u types.Address, t types.TokenTypeId, amount *big.Int) bool {
	return w.send(u, types.AddressDexFund, t, amount, pack(abi.ABIDexFund, abi.MethodNameDexFundDeposit))
}

func unit(dec int, n int64) *big.Int {
	return new(big.Int).Mul(big.NewInt(n), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil))
}

func (w *world) dexTime() int64 {
	if v := w.pre[types.AddressDexFund]["tts:"]; len(v) == 8 {
		return int64(binary.BigEndian.Uint64(v))
	}
	return 0
}

func (w *world) lastJob(biz int) uint64 {
	if v := w.pre[types.AddressDexFund]["ljpBId:"+string([]byte{byte(biz)})]; len(v) == 8 {
		return binary.BigEndian.Uint64(v)
	}
	return 0
}

var zeroAddr types.Address
var zeroTok types.TokenTypeId

// dexSetup opens the exchange: roles, quote tokens, deposits and markets
func (w *world) dexSetup() {
	r := sim.NewRand(w.c.Seed ^ 0x5ca1ab1e)
	own := w.users[0]
	w.fund(own, "DexAdminConfig", uint8(2|4|16|32), zeroAddr, own, own, false, own, own)
	w.settle(r)
	w.fund(own, "NotifyTime", int64(genesisTime+3*day+int64(r.N(3600))))
	w.fund(own, "TradeAdminConfig", uint8(2), zeroTok, zeroTok, false, viteId, uint8(1), uint8(0), big.NewInt(0), uint8(0), big.NewInt(0))
	w.fund(own, "TradeAdminConfig", uint8(2), zeroTok, zeroTok, false, w.tokens[2].id, uint8(4), uint8(0), big.NewInt(0), uint8(0), big.NewInt(0))
	w.settle(r)
	for _, u := range w.users {
		w.deposit(u, viteId, vite18(int64(r.Range(300000, 3000000))))
		for _, t := range w.tokens {
			w.deposit(u, t.id, unit(t.dec, int64(r.Range(100000, 3000000))))
		}
	}
	w.settle(r)
	a, b, c := w.tokens[1], w.tokens[2], w.tokens[3]
	w.fund(a.owner, "OpenNewMarket", a.id, viteId)
	w.fund(c.owner, "OpenNewMarket", c.id, viteId)
	w.fund(a.owner, "OpenNewMarket", a.id, b.id)
	w.fund(c.owner, "OpenNewMarket", c.id, b.id)
	if r.P(1, 2) {
		w.fund(own, "OpenNewMarket", w.tokens[0].id, viteId)
	}
	w.settle(r)
	if w.c.Params["tiny"] == 1 {
		for _, q := range []uint8{1, 4} {
			w.fund(own, "TradeAdminConfig", uint8(4), zeroTok, zeroTok, false, zeroTok, uint8(0), q, big.NewInt(1), uint8(0), big.NewInt(0))
		}
	}
	if r.P(1, 2) {
		w.fund(own, "TradeAdminConfig", uint8(1), a.id, viteId, true, zeroTok, uint8(0), uint8(0), big.NewInt(0), uint8(0), big.NewInt(0))
	}
	if r.P(1, 2) {
		w.fund(own, "TradeAdminConfig", uint8(16), zeroTok, zeroTok, false, zeroTok, uint8(0), uint8(0), big.NewInt(0), uint8(0), big.NewInt(0))
		w.send(own, types.AddressDexFund, w.tokens[0].id, unit(18, int64(r.Range(1000, 100000))), pack(abi.ABIDexFund, "EndorseVx"))
	}
	w.settle(r)
	if len(w.markets()) == 0 {
		sim.Bug("no market was opened")
	}
	sim.Count("markets", int64(len(w.markets())))
}

// markets on the exchange, by id
func (w *world) markets() (l []*dex.MarketInfo) {
	for k, v := range w.pre[types.AddressDexFund] {
		if len(k) == 23 && k[:3] == "mk:" {
			m := &dex.MarketInfo{}
			if err := m.DeSerialize(v); err != nil {
				w.fail("bad-record", "market record %x: %v", k, err)
			}
			if m.Valid {
				l = append(l, m)
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].MarketId < l[j].MarketId })
	return
}

func tokOf(b []byte) types.TokenTypeId { t, _ := types.BytesToTokenTypeId(b); return t }

var plainPrices = []string{"0.9", "0.95", "0.98", "0.99", "1", "1", "1", "1.01", "1.02", "1.05", "1.1"}
var oddPrices = []string{"0.333333333333", "0.56", "1.234567890123", "0.999999999999", "1.000000000001", "3.7", "0.07", "0.5", "2"}

func (w *world) price(r *sim.Rand, m *dex.MarketInfo) string {
	odd := int(w.c.Params["odd"])
	switch {
	case odd > 0 && r.P(odd, 4):
		return oddPrices[r.N(len(oddPrices))]
	case r.P(1, 60):
		return []string{"0.000000000001", "100000000000", "0.000123", "54321.5"}[r.N(4)]
	}
	return plainPrices[r.N(len(plainPrices))]
}

func (w *world) quantity(r *sim.Rand, m *dex.MarketInfo) *big.Int {
	dec := int(m.TradeTokenDecimals)
	if w.c.Params["tiny"] == 1 && r.P(1, 2) {
		return big.NewInt(int64(r.Range(1, []int{3, 20, 1000, 1000000}[r.N(4)])))
	}
	q := unit(dec, int64([]int{100, 110, 150, 200, 200, 300, 500, 1000, 4000}[r.N(9)]))
	switch r.N(4) {
	case 0:
		q.Add(q, big.NewInt(int64(r.N(100000))))
	case 1:
		q.Add(q, new(big.Int).Mod(new(big.Int).SetUint64(r.U64()), unit(dec, 50)))
	}
	return q
}

func (w *world) orderType(r *sim.Rand) uint8 {
	return []uint8{0, 0, 0, 0, 0, 0, 1, 2, 3, 4}[r.N(10)]
}

// someOrder: an order in the book
func (w *world) someOrder(r *sim.Rand) *dex.Order {
	l := w.bookOrders(w.pre[types.AddressDexTrade])
	if len(l) == 0 {
		return nil
	}
	return l[r.N(len(l))]
}

// runJobs triggers the period jobs that are due
func (w *world) runJobs(own types.Address, bizs []int, cur uint64, r *sim.Rand) {
	for _, biz := range bizs {
		for k := 0; k < 4; k++ {
			p := w.lastJob(biz) + 1
			if p == 1 && cur > 0 {
				p = cur - 1
			}
			if p >= cur {
				break
			}
			if !w.fund(own, "TriggerPeriodJob", p, uint8(biz)) {
				break
			}
			w.settle(r)
			if w.opIdx < 0 {
				return
			}
			if w.lastJob(biz) != p {
				break
			}
			sim.Count(fmt.Sprintf("job_%d", biz), 1)
		}
	}
}

// story: a user stakes and locks, takes it all back bit by bit over some days, and the release falls due
func (w *world) story(own, u types.Address, r *sim.Rand) {
	ok := func() bool { return w.opIdx >= 0 && !w.node.IsDead }
	n := r.Range(1, 3)
	for i := 0; i < n && ok(); i++ {
		w.fund(u, "StakeForMining", uint8(1), vite18(int64(r.Range(133, 300))))
	}
	if r.P(1, 2) {
		w.fund(u, "LockVxForDividend", uint8(1), vite18(int64(r.Range(100, 500))))
	}
	w.settle(r)
	if !ok() {
		return
	}
	w.empty(r.Range(599, 602), 1)
	for i := 0; i < n && ok(); i++ {
		for _, d := range w.dexStakes(w.pre[types.AddressDexFund]) {
			if addrOf(d.Address) == u {
				id, _ := types.BytesToHash(d.Id)
				w.fund(u, "CancelStakeById", id)
				if r.P(1, 4) { // twice, before the answer to the first
					w.fund(u, "CancelStakeById", id)
				}
				break
			}
		}
		if r.P(1, 2) && ok() {
			w.fund(u, "LockVxForDividend", uint8(2), vite18(int64(r.Range(10, 50))))
		}
		if !ok() {
			return
		}
		w.settle(r)
		if r.P(2, 3) && ok() {
			w.fund(own, "NotifyTime", w.dexTime()+day)
			w.settle(r)
		}
	}
	for i, k := 0, r.Range(5, 9); i < k && ok(); i++ {
		w.fund(own, "NotifyTime", w.dexTime()+day)
		w.settle(r)
	}
	if ok() {
		w.runJobs(own, []int{6, 7}, uint64(w.dexTime()-genesisTime)/day, r)
		sim.Count("stories", 1)
	}
}

func (w *world) callDex(cat int, r *sim.Rand) {
	u := w.user(r)
	ms := w.markets()
	if len(ms) == 0 {
		return
	}
	m := ms[r.N(len(ms))]
	if f := int(w.c.Params["focus"]); f > 0 && r.P(3, 4) {
		m = ms[f%len(ms)]
	}
	tr, qu := tokOf(m.TradeToken), tokOf(m.QuoteToken)
	place := func(u types.Address, side bool, ty uint8, p string, q *big.Int) {
		w.fund(u, "PlaceOrder", tr, qu, side, ty, p, q)
	}
	toks := []types.TokenTypeId{viteId, w.tokens[0].id, w.tokens[1].id, w.tokens[2].id, w.tokens[3].id}
	switch cat {
	case 4:
		switch r.Pick(60, 6, 10, 4, 4, 1) {
		case 0:
			place(u, r.P(1, 2), w.orderType(r), w.price(r, m), w.quantity(r, m))
		case 1: // several at once
			for i, n := 0, r.Range(3, 12); i < n && w.opIdx >= 0; i++ {
				place(w.user(r), r.P(1, 2), 0, w.price(r, m), w.quantity(r, m))
			}
		case 2: // cancel
			if o := w.someOrder(r); o != nil {
				by := addrOf(o.Address)
				if r.P(1, 8) {
					by = u
				}
				switch r.N(3) {
				case 0:
					w.send(by, types.AddressDexTrade, viteId, big.NewInt(0), pack(abi.ABIDexTrade, "CancelOrder", o.Id))
				case 1:
					h, _ := types.BytesToHash(o.SendHash)
					w.send(by, types.AddressDexTrade, viteId, big.NewInt(0), pack(abi.ABIDexTrade, "CancelOrderByTransactionHash", h))
				case 2:
					h, _ := types.BytesToHash(o.SendHash)
					p := zeroAddr
					if r.P(1, 3) {
						p, by = addrOf(o.Address), u
					}
					w.fund(by, "CancelOrderBySendHash", h, p, tr, qu)
				}
			}
		case 3: // by an agent
			p := w.user(r)
			w.fund(u, "PlaceAgentOrder", p, tr, qu, r.P(1, 2), w.orderType(r), w.price(r, m), w.quantity(r, m))
		case 4:
			act := uint8(1)
			if r.P(1, 3) {
				act = 2
			}
			ts, qs := []types.TokenTypeId{tr}, []types.TokenTypeId{qu}
			if m2 := ms[r.N(len(ms))]; m2.MarketId != m.MarketId && r.P(1, 2) {
				ts, qs = append(ts, tokOf(m2.TradeToken)), append(qs, tokOf(m2.QuoteToken))
			}
			w.fund(u, "ConfigMarketAgents", act, w.user(r), ts, qs)
		case 5: // more makers than one taker may take
			if w.c.Params["flood"] != 1 || w.flooded {
				return
			}
			w.flooded = true
			side := r.P(1, 2)
			p := "1.3"
			if !side {
				p = "0.7"
			}
			q := unit(int(m.TradeTokenDecimals), 210)
			for i, n := 0, r.Range(98, 104); i < n && w.opIdx >= 0; i++ {
				place(u, side, 0, p, q)
				if i%10 == 9 {
					w.settle(r)
				}
			}
			if w.opIdx < 0 {
				return
			}
			w.settle(r)
			ty := []uint8{0, 1, 3, 4}[r.N(4)]
			place(w.user(r), !side, ty, p, unit(int(m.TradeTokenDecimals), 210*110))
			w.settle(r)
		}
	case 5:
		t := toks[r.N(len(toks))]
		dec := 18
		for _, x := range w.tokens {
			if x.id == t {
				dec = x.dec
			}
		}
		amount := unit(dec, int64(r.Range(1, 5000)))
		have := new(big.Int)
		if a := w.funds(w.pre[types.AddressDexFund])[u][t]; a != nil {
			have = a.avail
		}
		if r.P(1, 4) {
			amount = new(big.Int).Add(have, big.NewInt(int64(r.N(3))-1))
			if amount.Sign() <= 0 {
				amount = big.NewInt(1)
			}
		}
		twice := r.P(1, 5)
		back := func(n int64) { // with the money it needs
			if twice = r.P(1, 3); r.P(1, 2) {
				w.deposit(u, viteId, vite18(n*2))
			}
		}
		switch r.Pick(5, 5, 3, 2, 2, 4, 3, 2, 2, 4, 4, 1, 1, 1, 1, 1) {
		case 0:
			w.deposit(u, t, unit(dec, int64(r.Range(1, 5000))))
		case 1:
			w.fund(u, "Withdraw", t, amount)
		case 2:
			w.fund(u, "Transfer", w.user(r), t, amount)
		case 3:
			w.send(u, types.AddressDexFund, t, unit(dec, int64(r.Range(1, 5000))), pack(abi.ABIDexFund, "AgentDeposit", w.user(r)))
		case 4:
			w.fund(u, "AssignedWithdraw", w.user(r), t, amount, []byte("x"))
		case 5:
			w.fund(u, "StakeForMining", uint8(1), vite18(int64(r.Range(133, 600))))
		case 6:
			back(10000)
			w.fund(u, "StakeForVIP", uint8(1))
			if twice { // before the answer to the first
				w.fund(u, "StakeForVIP", uint8(1))
			}
		case 7:
			back(1000000)
			w.fund(u, "StakeForSVIP", uint8(1))
			if twice {
				w.fund(u, "StakeForSVIP", uint8(1))
			}
		case 8:
			p := w.user(r)
			back(1000000)
			w.fund(u, "StakeForPrincipalSVIP", p)
			if twice {
				if r.P(1, 2) {
					u = w.user(r)
				}
				w.fund(u, "StakeForPrincipalSVIP", p)
			}
		case 9:
			ds := w.dexStakes(w.pre[types.AddressDexFund])
			if len(ds) > 0 {
				d := ds[r.N(len(ds))]
				by := addrOf(d.Address)
				if r.P(1, 8) {
					by = u
				}
				id, _ := types.BytesToHash(d.Id)
				w.fund(by, "CancelStakeById", id)
				if twice {
					w.fund(by, "CancelStakeById", id)
				}
			}
		case 10:
			n := vite18(int64(r.Range(1, 3000)))
			if r.P(1, 3) {
				n.Add(n, big.NewInt(int64(r.N(1e9))))
			}
			w.fund(u, "LockVxForDividend", uint8(r.Range(1, 2)), n)
		case 11:
			w.fund(u, "SwitchConfig", uint8(1), r.P(2, 3))
		case 12:
			w.fund(u, "CreateNewInviter")
		case 13:
			var codes []uint32
			for k := range w.pre[types.AddressDexFund] {
				if len(k) == 11 && k[:7] == "cd2itr:" {
					codes = append(codes, binary.BigEndian.Uint32([]byte(k[7:])))
				}
			}
			sort.Slice(codes, func(i, j int) bool { return codes[i] < codes[j] })
			if len(codes) > 0 {
				w.fund(u, "BindInviteCode", codes[r.N(len(codes))])
			}
		case 14:
			w.send(u, types.AddressDexFund, w.tokens[0].id, unit(18, int64(r.Range(1, 5000))), pack(abi.ABIDexFund, "EndorseVx"))
		case 15:
			if !w.storied {
				w.storied = true
				w.story(w.users[0], u, r)
			}
		}
	case 6:
		own := w.users[0]
		if r.P(1, 12) {
			own = u
		}
		switch r.Pick(6, 10, 2, 2, 2, 1, 1, 1, 1, 1) {
		case 0:
			dt := int64([]int{1, 60, 3600, day / 2, day, day}[r.N(6)])
			w.fund(own, "NotifyTime", w.dexTime()+dt)
		case 1: // a day passes, the jobs run
			w.fund(own, "NotifyTime", w.dexTime()+int64(r.Range(day-7200, day)))
			w.settle(r)
			if w.opIdx < 0 {
				return
			}
			cur := uint64(w.dexTime()-genesisTime) / day
			if cur < uint64(w.c.Params["latejobs"]) { // the jobs have not been switched on yet
				return
			}
			w.runJobs(own, [][]int{{1, 2, 3, 4, 5, 6, 7}, {3, 4, 5, 1, 2, 7, 6}, {1, 2, 6, 7}, {1}, {3}, {1, 3}}[r.N(6)], cur, r)
		case 2:
			mo := addrOf(m.Owner)
			if r.P(1, 8) {
				mo = u
			}
			w.fund(mo, "MarketAdminConfig", uint8([]int{2, 4, 6}[r.N(3)]), tr, qu, zeroAddr, int32(r.N(202)), int32([]int{0, 100, 200}[r.N(3)]), false)
		case 3:
			mo := addrOf(m.Owner)
			w.fund(mo, "MarketAdminConfig", uint8(8), tr, qu, zeroAddr, int32(0), int32(0), !m.Stopped)
		case 4:
			q := uint8([]int{1, 4}[r.N(2)])
			th := []*big.Int{big.NewInt(1), vite18(100), big.NewInt(1000000), big.NewInt(1000)}[r.N(4)]
			if w.c.Params["tiny"] == 1 {
				th = big.NewInt(int64(r.Range(1, 3)))
			}
			w.fund(own, "TradeAdminConfig", uint8(4), zeroTok, zeroTok, false, zeroTok, uint8(0), q, th, uint8(0), big.NewInt(0))
		case 5:
			w.fund(own, "CommonAdminConfig", uint8(1), tr, qu, r.P(1, 2), int32(0), big.NewInt(0), zeroAddr)
		case 6:
			q := int32([]int{1, 4}[r.N(2)])
			th := vite18(int64(r.Range(100, 5000)))
			if q == 4 {
				th = unit(6, int64(r.Range(100, 5000)))
			}
			w.fund(own, "CommonAdminConfig", uint8(2), zeroTok, zeroTok, false, q, th, zeroAddr)
		case 7:
			mo := addrOf(m.Owner)
			if r.P(1, 4) {
				mo = u
			}
			w.fund(mo, "MarketAdminConfig", uint8(1), tr, qu, w.user(r), int32(0), int32(0), false)
		case 8:
			stopped := len(w.pre[types.AddressDexFund]["dexStp:"]) > 0
			if stopped || r.P(1, 3) {
				w.fund(own, "DexAdminConfig", uint8(8), zeroAddr, zeroAddr, zeroAddr, !stopped, zeroAddr, zeroAddr)
			}
		case 9:
			w.fund(own, "TradeAdminConfig", uint8(1), tr, qu, r.P(1, 2), zeroTok, uint8(0), uint8(0), big.NewInt(0), uint8(0), big.NewInt(0))
		}
	}
}
