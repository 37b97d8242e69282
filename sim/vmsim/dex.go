package vmsim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

// dexBook is what the checks remember about the exchange between blocks; it is rebuilt from the chain
// after a rollback or restart.
type dexBook struct {
	grants map[string]bool // principal, agent, market
}

func grantKey(p, a types.Address, t, q types.TokenTypeId) string {
	return p.Hex() + a.Hex() + t.Hex() + q.Hex()
}

func (w *world) dexReplay(recvs []*ledger.AccountBlock) {
	w.dex = &dexBook{grants: map[string]bool{}}
	for _, b := range recvs {
		if b.AccountAddress == types.AddressDexFund && status(b) == 0 {
			if s := w.sends[b.FromBlockHash]; s != nil {
				w.noteGrant(s)
			}
		}
	}
}

func (w *world) noteGrant(send *ledger.AccountBlock) {
	if method(abi.ABIDexFund, send.Data) != "ConfigMarketAgents" {
		return
	}
	p := new(dex.ParamConfigMarketAgents)
	if abi.ABIDexFund.UnpackMethod(p, "ConfigMarketAgents", send.Data) != nil {
		return
	}
	for i := range p.TradeTokens {
		if i < len(p.QuoteTokens) {
			w.dex.grants[grantKey(send.AccountAddress, p.Agent, p.TradeTokens[i], p.QuoteTokens[i])] = p.ActionType == 1
		}
	}
}

func bi(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

// ------------------------------------------------------------------ reading the exchange's records

type account struct{ avail, locked, vxLocked, vxUnlocking, cancelling *big.Int }

func (a *account) total() *big.Int {
	t := new(big.Int).Add(a.avail, a.locked)
	t.Add(t, a.vxLocked)
	t.Add(t, a.vxUnlocking)
	return t.Add(t, a.cancelling)
}

type fundsT map[types.Address]map[types.TokenTypeId]*account

func (w *world) funds(d dump) fundsT {
	f := fundsT{}
	for k, v := range d {
		if len(k) != 3+types.AddressSize || k[:3] != "fd:" {
			continue
		}
		x := &dex.Fund{}
		if err := x.DeSerialize(v); err != nil {
			w.fail("bad-record", "fund record %x: %v", k, err)
		}
		a := addrOf([]byte(k[3:]))
		f[a] = map[types.TokenTypeId]*account{}
		for _, c := range x.Accounts {
			t := tokOf(c.Token)
			if f[a][t] != nil {
				w.fail("double-account", "%s has two accounts for token %s on the exchange", a, t)
			}
			f[a][t] = &account{bi(c.Available), bi(c.Locked), bi(c.VxLocked), bi(c.VxUnlocking), bi(c.CancellingStake)}
		}
	}
	return f
}

func (w *world) dexStakes(d dump) (l []*dex.DelegateStakeInfo) {
	full := map[string][]byte{} // the key has the last 29 bytes of the id only
	m, _ := w.stakes(w.pre[types.AddressQuota])
	for _, s := range m {
		if s.id != nil {
			full[string(s.id.Bytes()[3:])] = s.id.Bytes()
		}
	}
	for k, v := range d {
		if len(k) >= 20 && k[:3] == "ds:" {
			x := &dex.DelegateStakeInfo{}
			if err := x.DeSerialize(v); err != nil {
				w.fail("bad-record", "stake record %x: %v", k, err)
			}
			if x.Id = full[k[3:]]; x.Id == nil {
				x.Id = append(make([]byte, 3), k[3:]...)
			}
			l = append(l, x)
		}
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].Id, l[j].Id) < 0 })
	return
}

type bag map[string]*big.Int // address|token -> amount

func bk(a types.Address, t types.TokenTypeId) string { return a.Hex() + "|" + t.Hex() }

func (b bag) add(k string, v *big.Int) {
	if b[k] == nil {
		b[k] = new(big.Int)
	}
	b[k].Add(b[k], v)
}
func (b bag) sub(k string, v *big.Int) { b.add(k, new(big.Int).Neg(v)) }
func (b bag) get(k string) *big.Int {
	if v := b[k]; v != nil {
		return v
	}
	return new(big.Int)
}

// diff returns a key on which two bags differ
func (b bag) diff(o bag) string {
	for _, k := range b.keys() {
		if b.get(k).Cmp(o.get(k)) != 0 {
			return k
		}
	}
	for _, k := range o.keys() {
		if b.get(k).Cmp(o.get(k)) != 0 {
			return k
		}
	}
	return ""
}
func (b bag) keys() []string {
	l := make([]string, 0, len(b))
	for k := range b {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// wealth of every user on the exchange: the accounts plus the stakes made with them
func (w *world) wealth(d dump) bag {
	b := bag{}
	for a, m := range w.funds(d) {
		for t, c := range m {
			b.add(bk(a, t), c.total())
		}
	}
	for _, s := range w.dexStakes(d) {
		b.add(bk(addrOf(s.Address), viteId), bi(s.Amount))
	}
	return b
}

func isOrderKey(k string) bool { return len(k) == dex.OrderIdBytesLength && (k[3] == 0 || k[3] == 1) }

func (w *world) bookOrders(d dump) (l []*dex.Order) {
	for k, v := range d {
		if isOrderKey(k) {
			o := &dex.Order{}
			if err := o.DeSerializeCompact(v, []byte(k)); err != nil {
				w.fail("bad-record", "order record %x: %v", k, err)
			}
			l = append(l, o)
		}
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].Id, l[j].Id) < 0 })
	return
}

func remLock(o *dex.Order) *big.Int {
	if o.Side {
		return new(big.Int).Sub(bi(o.Quantity), bi(o.ExecutedQuantity))
	}
	x := new(big.Int).Sub(bi(o.Amount), bi(o.ExecutedAmount))
	x.Add(x, bi(o.LockedBuyFee))
	x.Sub(x, bi(o.ExecutedBaseFee))
	return x.Sub(x, bi(o.ExecutedOperatorFee))
}

func (w *world) orderMsg(data []byte) *dex.Order {
	p := new(dex.ParamSerializedData)
	if err := abi.ABIDexTrade.UnpackMethod(p, "PlaceOrder", data); err != nil {
		w.fail("bad-record", "order message: %v", err)
	}
	o := &dex.Order{}
	if err := o.DeSerialize(p.Data); err != nil {
		w.fail("bad-record", "order message: %v", err)
	}
	return o
}

func (w *world) settleMsg(data []byte) *dexproto.SettleActions {
	p := new(dex.ParamSerializedData)
	if err := abi.ABIDexFund.UnpackMethod(p, "SettleOrders", data); err != nil {
		w.fail("bad-record", "settlement message: %v", err)
	}
	s := &dexproto.SettleActions{}
	if err := proto.Unmarshal(p.Data, s); err != nil {
		w.fail("bad-record", "settlement message: %v", err)
	}
	return s
}

func (w *world) marketById(id int32) *dex.MarketInfo {
	for _, m := range w.markets() {
		if m.MarketId == id {
			return m
		}
	}
	return nil
}

func marketIn(d dump, t, q types.TokenTypeId) *dex.MarketInfo {
	v := d["mk:"+string(t.Bytes())+string(q.Bytes())]
	if len(v) == 0 {
		return nil
	}
	m := &dex.MarketInfo{}
	if m.DeSerialize(v) != nil {
		return nil
	}
	return m
}

// ------------------------------------------------------------------ invariants over the whole exchange

func (w *world) dexBooks(why string) {
	fd, td := w.pre[types.AddressDexFund], w.pre[types.AddressDexTrade]
	f := w.funds(fd)
	// (1) what the contract holds is what it owes
	owe := map[types.TokenTypeId]*big.Int{}
	add := func(t types.TokenTypeId, v *big.Int) {
		if owe[t] == nil {
			owe[t] = new(big.Int)
		}
		owe[t].Add(owe[t], v)
	}
	parts := map[string]*big.Int{}
	part := func(n string, t types.TokenTypeId, v *big.Int) {
		add(t, v)
		k := n + " " + t.Hex()
		if parts[k] == nil {
			parts[k] = new(big.Int)
		}
		parts[k].Add(parts[k], v)
	}
	for _, m := range f {
		for t, c := range m {
			part("accounts", t, c.total())
		}
	}
	var last uint64
	if v := fd["lFSPId:"]; len(v) == 8 {
		last = binary.BigEndian.Uint64(v)
	}
	vx := w.tokens[0].id
	for k, v := range fd {
		switch {
		case len(k) == 11 && k[:3] == "fS:":
			x := &dex.DexFeesByPeriod{}
			if err := x.DeSerialize(v); err != nil {
				w.fail("bad-record", "fee record: %v", err)
			}
			p := binary.BigEndian.Uint64([]byte(k[3:]))
			for _, fee := range x.FeesForDividend {
				n := bi(fee.DividendPoolAmount)
				if p != last {
					if x.FinishDividend {
						continue
					}
					if !fee.NotRoll {
						n = bi(dex.CalculateAmountForRate(fee.DividendPoolAmount, 1000))
					}
				} else if x.FinishDividend {
					if fee.NotRoll {
						continue
					}
					n.Sub(n, bi(dex.CalculateAmountForRate(fee.DividendPoolAmount, 1000)))
				}
				part(fmt.Sprint("fees ", p, x.FinishDividend, fee.NotRoll), tokOf(fee.Token), n)
			}
		case len(k) == 3+8+types.AddressSize && k[:3] == "bf:":
			x := &dex.OperatorFeesByPeriod{}
			if err := x.DeSerialize(v); err != nil {
				w.fail("bad-record", "operator fee record: %v", err)
			}
			for _, a := range x.OperatorFees {
				for _, m := range a.MarketFees {
					part("operator", tokOf(a.Token), bi(m.Amount))
				}
			}
		case k == "vxmPl:":
			part("minepool", vx, bi(v))
		case len(k) == 14 && k[:6] == "mmpaP:":
			part("makerpool", vx, bi(v))
		}
	}
	var toks []types.TokenTypeId
	seen := map[types.TokenTypeId]bool{}
	for t := range owe {
		if !seen[t] {
			seen[t] = true
			toks = append(toks, t)
		}
	}
	for t := range w.bal[types.AddressDexFund] {
		if !seen[t] {
			seen[t] = true
			toks = append(toks, t)
		}
	}
	sort.Slice(toks, func(i, j int) bool { return toks[i].Hex() < toks[j].Hex() })
	for _, t := range toks {
		have, o := w.b(types.AddressDexFund, t), owe[t]
		if o == nil {
			o = new(big.Int)
		}
		if have.Cmp(o) != 0 {
			var l []string
			for k, v := range parts {
				if strings.HasSuffix(k, t.Hex()) {
					l = append(l, k+"="+v.String())
				}
			}
			sort.Strings(l)
			w.fail("dex-insolvent", "after %s the exchange holds %v %s but its books say %v (difference %v): %v", why, have, t, o, new(big.Int).Sub(have, o), l)
		}
	}
	// (2) what is locked is what the open orders still need
	lock := bag{}
	orders := w.bookOrders(td)
	mk := map[int32]*dex.MarketInfo{}
	for _, m := range w.markets() {
		mk[m.MarketId] = m
	}
	need := func(o *dex.Order, x *big.Int) {
		m := mk[o.MarketId]
		if m == nil {
			w.fail("order-without-market", "order %x is in market %d, which does not exist", o.Id, o.MarketId)
		}
		t := tokOf(m.QuoteToken)
		if o.Side {
			t = tokOf(m.TradeToken)
		}
		if x.Sign() < 0 {
			w.fail("overspent-order", "order %x has used more than it locked (%v)", o.Id, x)
		}
		lock.add(bk(addrOf(o.Address), t), x)
	}
	for _, o := range orders {
		need(o, remLock(o))
	}
	for _, s := range w.road[types.AddressDexTrade] {
		if s.AccountAddress == types.AddressDexFund && method(abi.ABIDexTrade, s.Data) == "PlaceOrder" {
			o := w.orderMsg(s.Data)
			need(o, remLock(o))
		}
	}
	syncing := false
	for _, s := range w.road[types.AddressDexTrade] {
		if method(abi.ABIDexTrade, s.Data) == "SyncNewMarket" {
			syncing = true
		}
	}
	for _, s := range w.road[types.AddressDexFund] {
		if s.AccountAddress == types.AddressDexTrade && method(abi.ABIDexFund, s.Data) == "SettleOrders" {
			m := w.settleMsg(s.Data)
			for _, x := range m.FundActions {
				for _, y := range x.AccountSettles {
					t := tokOf(m.QuoteToken)
					if y.IsTradeToken {
						t = tokOf(m.TradeToken)
					}
					lock.add(bk(addrOf(x.Address), t), new(big.Int).Add(bi(y.ReduceLocked), bi(y.ReleaseLocked)))
				}
			}
		}
	}
	held := bag{}
	for a, m := range f {
		for t, c := range m {
			held.add(bk(a, t), c.locked)
		}
	}
	if k := held.diff(lock); k != "" {
		w.fail("lock-mismatch", "after %s %s has %v locked, the open orders need %v", why, k, held.get(k), lock.get(k))
	}
	// (3) stakes made through the exchange
	ds := new(big.Int)
	mining, cancelled := bag{}, bag{}
	for _, s := range w.dexStakes(fd) {
		ds.Add(ds, bi(s.Amount))
		if s.StakeType == 1 && s.Status == dex.StakeConfirmed {
			mining.add(addrOf(s.Address).Hex(), bi(s.Amount))
		}
	}
	quota := new(big.Int)
	qs, _ := w.stakes(w.pre[types.AddressQuota])
	for _, s := range qs {
		if s.owner == types.AddressDexFund {
			quota.Add(quota, s.amount)
		}
	}
	for _, s := range w.road[types.AddressQuota] {
		if s.AccountAddress == types.AddressDexFund && s.Amount != nil {
			quota.Add(quota, s.Amount)
		}
	}
	for _, s := range w.road[types.AddressDexFund] {
		if s.AccountAddress == types.AddressQuota && s.Amount != nil {
			quota.Add(quota, s.Amount)
		}
	}
	if ds.Cmp(quota) != 0 {
		w.fail("stake-mismatch", "after %s users have %v staked through the exchange, the exchange has %v", why, ds, quota)
	}
	st, unl, unlHeld, canHeld := bag{}, bag{}, bag{}, bag{}
	vip, vipHeld := bag{}, bag{} // how often an account has staked for lower fees
	one := big.NewInt(1)
	for _, s := range w.dexStakes(fd) {
		if s.Status != dex.StakeConfirmed {
			continue
		}
		switch s.StakeType {
		case dex.StakeForVIP:
			vipHeld.add(addrOf(s.Address).Hex(), one)
		case dex.StakeForSuperVIP:
			vipHeld.add("super "+addrOf(s.Address).Hex(), one)
		case dex.StakeForPrincipalSuperVIP:
			vipHeld.add("super "+addrOf(s.Principal).Hex(), one)
		}
	}
	for k, v := range fd {
		switch {
		case len(k) == 5+types.AddressSize && k[:5] == "stVx:":
			st.add(addrOf([]byte(k[5:])).Hex(), bi(v))
		case len(k) == 7+types.AddressSize && k[:7] == "pldVip:", len(k) == 9+types.AddressSize && k[:9] == "pldSpVip:":
			x := &dex.VIPStaking{}
			if x.DeSerialize(v) == nil {
				n, super := 7, ""
				if k[3] == 'S' {
					n, super = 9, "super "
				}
				sim.Count("vip_records", 1)
				if x.StakedTimes > 1 {
					sim.Count("vip_twice", 1)
				}
				vip.add(super+addrOf([]byte(k[n:])).Hex(), big.NewInt(int64(x.StakedTimes)))
			}
		case len(k) == 5+types.AddressSize && k[:5] == "vxUl:":
			x := &dex.VxUnlocks{}
			if x.DeSerialize(v) == nil {
				for _, u := range x.Unlocks {
					unl.add(addrOf([]byte(k[5:])).Hex(), bi(u.Amount))
				}
			}
		case len(k) == 5+types.AddressSize && k[:5] == "clSt:":
			x := &dex.CancelStakes{}
			if x.DeSerialize(v) == nil {
				for _, u := range x.Cancels {
					cancelled.add(addrOf([]byte(k[5:])).Hex(), bi(u.Amount))
				}
			}
		}
	}
	for a, m := range f {
		for t, c := range m {
			if t == vx {
				unlHeld.add(a.Hex(), c.vxUnlocking)
			} else if c.vxUnlocking.Sign() != 0 || c.vxLocked.Sign() != 0 {
				w.fail("vx-lock", "%s has %s locked for dividends", a, t)
			}
			if t == viteId {
				canHeld.add(a.Hex(), c.cancelling)
			} else if c.cancelling.Sign() != 0 {
				w.fail("cancelling", "%s has a cancelled stake of %s", a, t)
			}
		}
	}
	for _, p := range []struct {
		n    string
		a, b bag
	}{{"mining stake", mining, st}, {"unlocking VX", unl, unlHeld}, {"cancelled stake", cancelled, canHeld}, {"VIP stakes", vip, vipHeld}} {
		if k := p.a.diff(p.b); k != "" {
			w.fail("dex-records", "after %s the records of the %s of %s differ: %v and %v", why, p.n, k, p.a.get(k), p.b.get(k))
		}
	}
	// (4) the book
	type side struct{ buy, sell []byte }
	best := map[int32]*side{}
	idx := map[string]string{}
	for _, o := range orders {
		s := best[o.MarketId]
		if s == nil {
			s = &side{}
			best[o.MarketId] = s
		}
		if o.Side {
			if s.sell == nil || bytes.Compare(o.Price, s.sell) < 0 {
				s.sell = o.Price
			}
		} else if s.buy == nil || bytes.Compare(o.Price, s.buy) > 0 {
			s.buy = o.Price
		}
		if len(o.SendHash) != types.HashSize {
			w.fail("bad-order", "order %x has no send hash", o.Id)
		}
		idx["hmId:"+string(o.SendHash[5:])] = string(o.Id)
		if o.Status != dex.Pending && o.Status != dex.PartialExecuted {
			w.fail("bad-order", "order %x with status %d is in the book", o.Id, o.Status)
		}
		if o.Type != dex.Limited && o.Type != dex.PostOnly {
			w.fail("bad-order", "order %x of type %d rests in the book", o.Id, o.Type)
		}
	}
	for id, s := range best {
		if s.buy != nil && s.sell != nil && bytes.Compare(s.buy, s.sell) >= 0 {
			w.fail("crossed-book", "after %s market %d has a buy order at %s and a sell order at %s", why, id, dex.BytesToPrice(s.buy), dex.BytesToPrice(s.sell))
		}
	}
	n := 0
	for k, v := range td {
		if strings.HasPrefix(k, "hmId:") {
			n++
			if idx[k] != string(v) {
				w.fail("order-index", "after %s the index of transaction hashes names order %x, which is not open", why, v)
			}
		} else if len(k) == 9 && strings.HasPrefix(k, "mkIf:") && !syncing {
			m := &dex.MarketInfo{}
			if err := m.DeSerialize(v); err != nil {
				w.fail("bad-record", "market: %v", err)
			}
			g := &dex.MarketInfo{}
			if err := g.DeSerialize(fd["mk:"+string(m.TradeToken)+string(m.QuoteToken)]); err != nil || g.MarketId != m.MarketId || g.MarketSymbol != m.MarketSymbol || g.QuoteTokenType != m.QuoteTokenType ||
				g.TradeTokenDecimals != m.TradeTokenDecimals || g.QuoteTokenDecimals != m.QuoteTokenDecimals || !g.Valid {
				w.fail("market-mismatch", "after %s the two exchange contracts disagree about market %d", why, m.MarketId)
			}
		}
	}
	if n != len(idx) {
		w.fail("order-index", "after %s there are %d open orders and %d indexed", why, len(idx), n)
	}
	sim.Count("open_orders", int64(len(orders)))
}

// ------------------------------------------------------------------ one call of the fund contract

var rolesKeys = []string{"own:", "tmA:", "tgA:", "dexStp:", "mmpA:", "mtA:"}

func (w *world) quoteInfo(q int32) *dex.QuoteTokenTypeInfo { return dex.QuoteTokenTypeInfos[q] }

// threshold in the market's quote token
func threshold(d dump, prefix string, m *dex.MarketInfo, def *big.Int) *big.Rat {
	v := def
	if x := d[prefix+string([]byte{byte(m.QuoteTokenType)})]; len(x) > 0 {
		v = bi(x)
	}
	r := new(big.Rat).SetInt(v)
	return scale(r, m.QuoteTokenDecimals-dex.QuoteTokenTypeInfos[m.QuoteTokenType].Decimals)
}

// scale by a power of ten
func scale(r *big.Rat, e int32) *big.Rat {
	a := e
	if a < 0 {
		a = -a
	}
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(a)), nil))
	if e < 0 {
		return new(big.Rat).Quo(r, p)
	}
	return new(big.Rat).Mul(r, p)
}

func priceRat(p []byte) *big.Rat {
	r, ok := new(big.Rat).SetString(dex.BytesToPrice(p))
	if !ok {
		sim.Bug("price %x", p)
	}
	return r
}

var tol = big.NewRat(1, 1024)
var half = big.NewRat(1, 2)

// roundsTo: got is r rounded to the nearest integer, either way within tol of a half
func roundsTo(got *big.Int, r *big.Rat) bool {
	d := new(big.Rat).Sub(new(big.Rat).SetInt(got), r)
	return d.Abs(d).Cmp(new(big.Rat).Add(half, tol)) <= 0
}

func amountOf(qty *big.Int, price []byte, m *dex.MarketInfo) *big.Rat {
	return scale(new(big.Rat).Mul(new(big.Rat).SetInt(qty), priceRat(price)), m.QuoteTokenDecimals-m.TradeTokenDecimals)
}

func rateOf(amount *big.Int, rate int32) *big.Rat {
	return new(big.Rat).Mul(new(big.Rat).SetInt(amount), big.NewRat(int64(rate), 100000))
}

type rates struct{ taker, takerOp, maker, makerOp int32 }

func (r rates) max() int32 {
	a, b := r.taker+r.takerOp, r.maker+r.makerOp
	if a > b {
		return a
	}
	return b
}

func (w *world) ratesFor(d dump, a types.Address, m *dex.MarketInfo) rates {
	if m.StableMarket {
		return rates{}
	}
	base := int32(200)
	if len(d["pldSpVip:"+string(a.Bytes())]) > 0 {
		base = 0
	} else if len(d["pldVip:"+string(a.Bytes())]) > 0 {
		base = 100
	}
	r := rates{base, m.TakerOperatorFeeRate, base, m.MakerOperatorFeeRate}
	if len(d["ite2itr:"+string(a.Bytes())]) > 0 {
		r = rates{r.taker * 9 / 10, r.takerOp * 9 / 10, r.maker * 9 / 10, r.makerOp * 9 / 10}
	}
	return r
}

func (w *world) fundFailed(send *ledger.AccountBlock, pre dump) {
	from := send.AccountAddress
	f := w.funds(pre)
	avail := func(t types.TokenTypeId) *big.Int {
		if a := f[from][t]; a != nil {
			return a.avail
		}
		return new(big.Int)
	}
	m := method(abi.ABIDexFund, send.Data)
	bad := func(s string) { w.fail("dex-refused", "%s of %s is refused: %s", m, from, s) }
	switch m {
	case "SettleOrders", "SettleOrdersV2":
		bad("a settlement must not fail")
	case "Deposit", "AgentDeposit":
		if len(pre["tk:"+string(send.TokenId.Bytes())]) > 0 && send.Amount.Sign() > 0 {
			bad("the token is listed")
		}
	case "Withdraw":
		p := new(dex.ParamWithdraw)
		if abi.ABIDexFund.UnpackMethod(p, m, send.Data) == nil && p.Amount.Sign() > 0 && avail(p.Token).Cmp(p.Amount) >= 0 {
			bad("the amount is available")
		}
	case "AssignedWithdraw":
		p := new(dex.ParamAssignedWithdraw)
		if abi.ABIDexFund.UnpackMethod(p, m, send.Data) == nil && p.Amount.Sign() > 0 && avail(p.Token).Cmp(p.Amount) >= 0 {
			bad("the amount is available")
		}
	case "Transfer":
		p := new(dex.ParamTransferConfig)
		if abi.ABIDexFund.UnpackMethod(p, m, send.Data) == nil && p.Amount.Sign() > 0 && avail(p.Token).Cmp(p.Amount) >= 0 && p.Target != from {
			bad("the amount is available")
		}
	case "PlaceOrder":
		p := new(dex.ParamPlaceOrder)
		if abi.ABIDexFund.UnpackMethod(p, m, send.Data) != nil {
			return
		}
		mk := marketIn(pre, p.TradeToken, p.QuoteToken)
		if mk == nil || !mk.Valid || mk.Stopped || len(pre["dexStp:"]) > 0 || p.Quantity.Sign() <= 0 {
			return
		}
		th := threshold(pre, "mTrAt:", mk, dex.QuoteTokenTypeInfos[mk.QuoteTokenType].DefaultTradeThreshold)
		two := big.NewRat(2, 1)
		th.Add(th, two)
		if p.OrderType == dex.Market {
			if p.Side && avail(p.TradeToken).Cmp(p.Quantity) >= 0 {
				bad("the quantity is available")
			}
			if !p.Side && new(big.Rat).SetInt(avail(p.QuoteToken)).Cmp(th) >= 0 {
				bad("there is enough to buy with")
			}
			return
		}
		amt := amountOf(p.Quantity, dex.PriceToBytes(p.Price), mk)
		if amt.Cmp(th) < 0 {
			return
		}
		if p.Side && avail(p.TradeToken).Cmp(p.Quantity) >= 0 {
			bad("the quantity is available")
		}
		need := new(big.Rat).Mul(amt, big.NewRat(100000+int64(w.ratesFor(pre, from, mk).max()), 100000))
		need.Add(need, two)
		if !p.Side && new(big.Rat).SetInt(avail(p.QuoteToken)).Cmp(need) >= 0 {
			bad("the amount is available")
		}
	}
}

func (w *world) fundStep(send, b *ledger.AccountBlock, pre, post dump) {
	if status(b) != 0 {
		w.fundFailed(send, pre)
		return
	}
	from := send.AccountAddress
	m := method(abi.ABIDexFund, send.Data)
	sim.Count("fund_"+m, 1)
	un := func(p interface{}) {
		if err := abi.ABIDexFund.UnpackMethod(p, m, send.Data); err != nil {
			w.fail("bad-record", "%s was executed with data that does not decode: %v", m, err)
		}
	}
	exp, now := w.wealth(pre), w.wealth(post)
	owner := w.users[0] // of the genesis
	if v := pre["own:"]; len(v) == types.AddressSize {
		owner = addrOf(v)
	}
	f0, f1 := w.funds(pre), w.funds(post)
	acc := func(f fundsT, a types.Address, t types.TokenTypeId) account {
		if c := f[a][t]; c != nil {
			return *c
		}
		z := new(big.Int)
		return account{z, z, z, z, z}
	}
	// whose money may move
	may := map[types.Address]bool{}
	anyone := false
	atLeast := false // a job: nobody may lose
	var outs []*ledger.AccountBlock
	for _, s := range b.SendBlockList {
		if s.Amount != nil && s.Amount.Sign() > 0 {
			outs = append(outs, s)
		}
	}
	pays := func(to types.Address, t types.TokenTypeId, amount *big.Int) {
		if len(outs) != 1 || outs[0].ToAddress != to || outs[0].TokenId != t || outs[0].Amount.Cmp(amount) != 0 {
			w.fail("dex-payout", "%s of %s must pay %v %s to %s", m, from, amount, t, to)
		}
	}
	switch m {
	case "Deposit":
		exp.add(bk(from, send.TokenId), send.Amount)
		may[from] = true
	case "AgentDeposit":
		p := new(struct{ Beneficiary types.Address })
		un(p)
		exp.add(bk(p.Beneficiary, send.TokenId), send.Amount)
		may[p.Beneficiary] = true
	case "Withdraw":
		p := new(dex.ParamWithdraw)
		un(p)
		exp.sub(bk(from, p.Token), p.Amount)
		may[from] = true
		pays(from, p.Token, p.Amount)
	case "AssignedWithdraw":
		p := new(dex.ParamAssignedWithdraw)
		un(p)
		exp.sub(bk(from, p.Token), p.Amount)
		may[from] = true
		pays(p.Target, p.Token, p.Amount)
	case "Transfer":
		p := new(dex.ParamTransferConfig)
		un(p)
		exp.sub(bk(from, p.Token), p.Amount)
		exp.add(bk(p.Target, p.Token), p.Amount)
		may[from], may[p.Target] = true, true
	case "PlaceOrder":
		p := new(dex.ParamPlaceOrder)
		un(p)
		may[from] = true
		w.placed(send, b, pre, post, from, p)
	case "PlaceAgentOrder":
		p := new(dex.ParamPlaceAgentOrder)
		un(p)
		may[p.Principal] = true
		if !w.dex.grants[grantKey(p.Principal, from, p.TradeToken, p.QuoteToken)] {
			w.fail("agent-without-grant", "%s placed an order for %s without a grant", from, p.Principal)
		}
		w.placed(send, b, pre, post, p.Principal, &p.ParamPlaceOrder)
	case "CancelOrderBySendHash":
		p := new(dex.ParamCancelOrderByHash)
		un(p)
		own := from
		if p.Principal != zeroAddr && p.Principal != from {
			own = p.Principal
			if !w.dex.grants[grantKey(own, from, p.TradeToken, p.QuoteToken)] {
				w.fail("agent-without-grant", "%s cancels for %s without a grant", from, own)
			}
		}
		q := new(dex.ParamDexInnerCancelOrder)
		if len(b.SendBlockList) != 1 || abi.ABIDexTrade.UnpackMethod(q, "InnerCancelOrderBySendHash", b.SendBlockList[0].Data) != nil || q.Owner != own || q.SendHash != p.SendHash {
			w.fail("dex-cancel", "%s of %s does not ask for the cancellation it was told to", m, from)
		}
	case "SettleOrders":
		if from != types.AddressDexTrade {
			w.fail("dex-forged-settle", "a settlement of %s was executed", from)
		}
		anyone = true
		sm := w.settleMsg(send.Data)
		paid := new(big.Int)
		for _, x := range sm.FundActions {
			for _, y := range x.AccountSettles {
				t := tokOf(sm.QuoteToken)
				if y.IsTradeToken {
					t = tokOf(sm.TradeToken)
				}
				a := addrOf(x.Address)
				exp.add(bk(a, t), bi(y.IncAvailable))
				exp.sub(bk(a, t), bi(y.ReduceLocked))
				c0, c1 := acc(f0, a, t), acc(f1, a, t)
				lo := new(big.Int).Sub(c0.locked, bi(y.ReduceLocked))
				lo.Sub(lo, bi(y.ReleaseLocked))
				av := new(big.Int).Add(c0.avail, bi(y.IncAvailable))
				av.Add(av, bi(y.ReleaseLocked))
				if c1.locked.Cmp(lo) != 0 || c1.avail.Cmp(av) != 0 {
					w.fail("dex-settle", "a settlement leaves %s with %v/%v of %s, not %v/%v", a, c1.avail, c1.locked, t, av, lo)
				}
			}
		}
		_ = paid
	case "TriggerPeriodJob":
		p := new(dex.ParamTriggerPeriodJob)
		un(p)
		anyone = true
		if addrOf(pre["tgA:"]) != from {
			w.fail("dex-authority", "%s triggered a job", from)
		}
		if l := pre["ljpBId:"+string([]byte{p.BizType})]; len(l) == 8 && binary.BigEndian.Uint64(l)+1 != p.PeriodId {
			w.fail("dex-job-twice", "job %d of period %d was executed after period %d", p.BizType, p.PeriodId, binary.BigEndian.Uint64(l))
		}
		if p.BizType < 6 {
			atLeast = true
		}
		if p.BizType == 6 || p.BizType == 7 {
			w.released(p, pre, f0, f1)
		}
	case "SettleMakerMinedVx":
		anyone, atLeast = true, true
		if addrOf(pre["mmpA:"]) != from {
			w.fail("dex-authority", "%s settled maker rewards", from)
		}
	case "OpenNewMarket", "GetTokenInfoCallback":
		for k, v := range post {
			if len(k) == 23 && k[:3] == "mk:" {
				x, y := &dex.MarketInfo{}, &dex.MarketInfo{}
				y.DeSerialize(v)
				if o := pre[k]; len(o) > 0 {
					x.DeSerialize(o)
				}
				if y.Valid && !x.Valid {
					c := addrOf(y.Creator)
					exp.sub(bk(c, viteId), vite18(10000))
					may[c] = true
				}
			}
		}
	case "CreateNewInviter":
		exp.sub(bk(from, viteId), vite18(100))
		may[from] = true
	case "StakeForMining", "StakeForVIP", "StakeForSVIP", "StakeForPrincipalSVIP":
		may[from] = true
	case "LockVxForDividend":
		may[from] = true
		p := new(dex.ParamLockVxForDividend)
		un(p)
		t := w.tokens[0].id
		c0, c1 := acc(f0, from, t), acc(f1, from, t)
		a, l, u := new(big.Int).Set(c0.avail), new(big.Int).Set(c0.vxLocked), new(big.Int).Set(c0.vxUnlocking)
		if p.ActionType == 1 {
			a.Sub(a, p.Amount)
			l.Add(l, p.Amount)
		} else {
			l.Sub(l, p.Amount)
			u.Add(u, p.Amount)
		}
		if c1.avail.Cmp(a) != 0 || c1.vxLocked.Cmp(l) != 0 || c1.vxUnlocking.Cmp(u) != 0 || a.Sign() < 0 || l.Sign() < 0 {
			w.fail("vx-lock", "LockVxForDividend(%d, %v) of %s leaves %v/%v/%v", p.ActionType, p.Amount, from, c1.avail, c1.vxLocked, c1.vxUnlocking)
		}
	case "CancelStakeById":
		p := new(dex.ParamCancelStakeById)
		un(p)
		ok := false
		for _, s := range w.dexStakes(pre) {
			if bytes.Equal(s.Id[3:], p.Id.Bytes()[3:]) && addrOf(s.Address) == from {
				ok = true
			}
		}
		if !ok {
			w.fail("dex-authority", "%s cancels stake %s, which it did not make", from, p.Id)
		}
	case "StakeForQuotaWithCallbackCallback", "CancelQuotaStakingWithCallbackCallback":
		if from != types.AddressQuota {
			w.fail("dex-authority", "%s called %s", from, m)
		}
		anyone = true
	case "ConfigMarketAgents":
		w.noteGrant(send)
	case "NotifyTime":
		p := new(dex.ParamNotifyTime)
		un(p)
		if addrOf(pre["tmA:"]) != from {
			w.fail("dex-authority", "%s set the time", from)
		}
		if v := pre["tts:"]; len(v) == 8 && int64(binary.BigEndian.Uint64(v)) > p.Timestamp {
			w.fail("dex-time", "the exchange's clock went back from %d to %d", binary.BigEndian.Uint64(v), p.Timestamp)
		}
	}
	if atLeast {
		for _, k := range exp.keys() {
			if now.get(k).Cmp(exp.get(k)) < 0 {
				w.fail("dex-wealth", "%s of %s takes %v from %s", m, from, new(big.Int).Sub(exp.get(k), now.get(k)), k)
			}
		}
	} else if k := exp.diff(now); k != "" {
		w.fail("dex-wealth", "%s of %s: %s has %v, should have %v", m, from, k, now.get(k), exp.get(k))
	}
	// nobody else's account changes
	if !anyone {
		for a := range f1 {
			k := "fd:" + string(a.Bytes())
			if !may[a] && !bytes.Equal(pre[k], post[k]) {
				w.fail("dex-others-account", "%s of %s changed the account of %s", m, from, a)
			}
		}
	}
	// who may change the rules
	for _, k := range rolesKeys {
		if !bytes.Equal(pre[k], post[k]) && (m != "DexAdminConfig" || from != owner) {
			w.fail("dex-authority", "%s of %s changed %q", m, from, k)
		}
	}
	chk := func(k string) {
		switch {
		case strings.HasPrefix(k, "mTrAt:"), strings.HasPrefix(k, "mTh:"):
			if m != "TradeAdminConfig" || from != owner {
				w.fail("dex-authority", "%s of %s changed %q", m, from, k)
			}
		case strings.HasPrefix(k, "moaTh:"):
			if m != "CommonAdminConfig" || from != owner {
				w.fail("dex-authority", "%s of %s changed %q", m, from, k)
			}
		case len(k) == 23 && k[:3] == "mk:":
			ok := m == "OpenNewMarket" || m == "GetTokenInfoCallback"
			if x := marketIn(pre, tokOf([]byte(k[3:13])), tokOf([]byte(k[13:]))); x != nil && x.Valid {
				ok = m == "MarketAdminConfig" && from == addrOf(x.Owner) || (m == "TradeAdminConfig" || m == "CommonAdminConfig") && from == owner
			}
			if !ok {
				w.fail("dex-authority", "%s of %s changed a market", m, from)
			}
		case len(k) > 8 && k[:8] == "ite2itr:":
			if m != "BindInviteCode" || k[8:] != string(from.Bytes()) {
				w.fail("dex-authority", "%s of %s changed who invited %x", m, from, k[8:])
			}
		case len(k) > 7 && k[:7] == "gtMkAt:":
			if m != "ConfigMarketAgents" || !strings.Contains(k, string(from.Bytes())) {
				w.fail("dex-authority", "%s of %s changed an agent grant", m, from)
			}
		}
	}
	for k, v := range post {
		if !bytes.Equal(pre[k], v) {
			chk(k)
		}
	}
	for k := range pre {
		if len(post[k]) == 0 {
			chk(k)
		}
	}
}

// released: a job of kind 6 or 7 hands out exactly what has waited seven periods
func (w *world) released(p *dex.ParamTriggerPeriodJob, pre dump, f0, f1 fundsT) {
	due := map[types.Address]*big.Int{}
	pref := "vxUl:"
	t := w.tokens[0].id
	if p.BizType == 7 {
		pref, t = "clSt:", viteId
	}
	for k, v := range pre {
		if len(k) != 5+types.AddressSize || k[:5] != pref {
			continue
		}
		a := addrOf([]byte(k[5:]))
		s := new(big.Int)
		if p.BizType == 6 {
			x := &dex.VxUnlocks{}
			x.DeSerialize(v)
			for _, u := range x.Unlocks {
				if u.PeriodId+7 <= p.PeriodId {
					s.Add(s, bi(u.Amount))
				}
			}
		} else {
			x := &dex.CancelStakes{}
			x.DeSerialize(v)
			for _, u := range x.Cancels {
				if u.PeriodId+7 <= p.PeriodId {
					s.Add(s, bi(u.Amount))
				}
			}
		}
		due[a] = s
	}
	for a, m := range f1 {
		c1 := m[t]
		c0 := f0[a][t]
		if c1 == nil || c0 == nil {
			continue
		}
		d := due[a]
		if d == nil {
			d = new(big.Int)
		}
		if g := new(big.Int).Sub(c1.avail, c0.avail); g.Cmp(d) != 0 {
			w.fail("dex-release", "job %d of period %d makes %v available to %s, %v are due", p.BizType, p.PeriodId, g, a, d)
		}
	}
}

// placed checks the order the fund contract sent to the trade contract
func (w *world) placed(send, b *ledger.AccountBlock, pre, post dump, who types.Address, p *dex.ParamPlaceOrder) {
	m := marketIn(pre, p.TradeToken, p.QuoteToken)
	if m == nil || !m.Valid || m.Stopped || len(pre["dexStp:"]) > 0 {
		w.fail("dex-closed", "an order of %s was accepted in a market that is not open", who)
	}
	if len(b.SendBlockList) != 1 || b.SendBlockList[0].ToAddress != types.AddressDexTrade || b.SendBlockList[0].Amount.Sign() != 0 {
		w.fail("dex-order", "an accepted order sent %d messages", len(b.SendBlockList))
	}
	o := w.orderMsg(b.SendBlockList[0].Data)
	if o.MarketId != m.MarketId || o.Side != p.Side || o.Type != int32(p.OrderType) || addrOf(o.Address) != who || bi(o.Quantity).Cmp(p.Quantity) != 0 || !bytes.Equal(o.SendHash, send.Hash.Bytes()) ||
		len(o.ExecutedAmount)+len(o.ExecutedQuantity)+len(o.ExecutedBaseFee)+len(o.ExecutedOperatorFee) != 0 || o.Status != dex.Pending {
		w.fail("dex-order", "the order of %s became another one: %s", who, o.String())
	}
	want, _ := new(big.Rat).SetString(p.Price)
	if o.Type != dex.Market && (want == nil || want.Cmp(priceRat(o.Price)) != 0) {
		w.fail("dex-order", "the order of %s at %s became one at %s", who, p.Price, dex.BytesToPrice(o.Price))
	}
	r := w.ratesFor(pre, who, m)
	if g := (rates{o.TakerFeeRate, o.TakerOperatorFeeRate, o.MakerFeeRate, o.MakerOperatorFeeRate}); g != r {
		w.fail("dex-rates", "an order of %s has fee rates %v, should have %v", who, g, r)
	}
	// later orders come later
	for _, x := range w.bookOrders(w.pre[types.AddressDexTrade]) {
		if bytes.Compare(x.Id[14:], o.Id[14:]) >= 0 {
			w.fail("dex-order-time", "a new order has time %x, an older one %x", o.Id[14:], x.Id[14:])
		}
	}
	for _, s := range w.road[types.AddressDexTrade] {
		if s.Hash != b.SendBlockList[0].Hash && s.AccountAddress == types.AddressDexFund && method(abi.ABIDexTrade, s.Data) == "PlaceOrder" {
			if x := w.orderMsg(s.Data); bytes.Compare(x.Id[14:], o.Id[14:]) >= 0 {
				w.fail("dex-order-time", "a new order has time %x, an older one %x", o.Id[14:], x.Id[14:])
			}
		}
	}
	// what it locks
	t := p.QuoteToken
	if p.Side {
		t = p.TradeToken
	}
	var c0, c1 account
	if x := w.funds(pre)[who][t]; x != nil {
		c0 = *x
	} else {
		w.fail("dex-order", "an order of %s, who has no %s, was accepted", who, t)
	}
	c1 = *w.funds(post)[who][t]
	locked := new(big.Int).Sub(c1.locked, c0.locked)
	if new(big.Int).Add(c1.avail, locked).Cmp(c0.avail) != 0 || c1.avail.Sign() < 0 {
		w.fail("dex-order", "an order of %s moves %v to %v available and %v to %v locked", who, c0.avail, c1.avail, c0.locked, c1.locked)
	}
	amount, fee := bi(o.Amount), bi(o.LockedBuyFee)
	if o.Type != dex.Market {
		if !roundsTo(amount, amountOf(p.Quantity, o.Price, m)) {
			w.fail("dex-order", "%v at %s is amount %v in market %d", p.Quantity, p.Price, amount, m.MarketId)
		}
		if !p.Side && !roundsTo(fee, rateOf(amount, r.max())) {
			w.fail("dex-order", "an order over %v at rate %d locks fee %v", amount, r.max(), fee)
		}
		th := threshold(pre, "mTrAt:", m, dex.QuoteTokenTypeInfos[m.QuoteTokenType].DefaultTradeThreshold)
		if x := new(big.Rat).SetInt(new(big.Int).Add(amount, fee)); x.Add(x, big.NewRat(2, 1)).Cmp(th) < 0 && !p.Side {
			w.fail("dex-order", "an order over %v, below the threshold %v, was accepted", amount, th)
		}
	} else if !p.Side {
		if new(big.Int).Add(amount, fee).Cmp(c0.avail) != 0 {
			w.fail("dex-order", "a market order to buy with %v uses %v and fee %v", c0.avail, amount, fee)
		}
		x := rateOf(amount, r.max())
		if new(big.Rat).Add(new(big.Rat).SetInt(fee), big.NewRat(1, 1)).Cmp(x) < 0 {
			w.fail("dex-order", "a market order with %v to spend reserves only %v for fees at rate %d", amount, fee, r.max())
		}
	}
	need := p.Quantity
	if !p.Side {
		need = new(big.Int).Add(amount, fee)
	}
	if locked.Cmp(need) != 0 {
		w.fail("dex-order", "an order of %s locks %v, needs %v", who, locked, need)
	}
	sim.Count(fmt.Sprintf("order_type_%d", o.Type), 1)
}
