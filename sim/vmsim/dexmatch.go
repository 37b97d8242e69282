package vmsim

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/golang/protobuf/proto"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

const maxFills = 100

// ord is the reference matcher's view of an order
type ord struct {
	id                          []byte
	addr                        types.Address
	side                        bool
	ty                          int32
	price                       []byte
	qty, amount, lockFee        *big.Int
	exQty, exAmt, exBase, exOp  *big.Int
	takerR, takerOp             int32
	makerR, makerOp             int32
	sendHash                    []byte
	done                        bool
	ambiguous                   bool // whether it is done depends on a rounding the reference does not decide
	fills                       int
	mustRefund, thresholdAmount *big.Int
}

func refOrd(o *dex.Order) *ord {
	return &ord{id: o.Id, addr: addrOf(o.Address), side: o.Side, ty: o.Type, price: o.Price, qty: bi(o.Quantity), amount: bi(o.Amount), lockFee: bi(o.LockedBuyFee),
		exQty: bi(o.ExecutedQuantity), exAmt: bi(o.ExecutedAmount), exBase: bi(o.ExecutedBaseFee), exOp: bi(o.ExecutedOperatorFee),
		takerR: o.TakerFeeRate, takerOp: o.TakerOperatorFeeRate, makerR: o.MakerFeeRate, makerOp: o.MakerOperatorFeeRate, sendHash: o.SendHash,
		thresholdAmount: bi(o.MarketOrderAmtThreshold)}
}

func (o *ord) copy() *ord {
	x := *o
	x.exQty, x.exAmt, x.exBase, x.exOp = new(big.Int).Set(o.exQty), new(big.Int).Set(o.exAmt), new(big.Int).Set(o.exBase), new(big.Int).Set(o.exOp)
	return &x
}

func (o *ord) remQty() *big.Int { return new(big.Int).Sub(o.qty, o.exQty) }
func (o *ord) remAmt() *big.Int { return new(big.Int).Sub(o.amount, o.exAmt) }
func (o *ord) refund() *big.Int {
	if o.side {
		return o.remQty()
	}
	x := o.remAmt()
	x.Add(x, o.lockFee)
	x.Sub(x, o.exBase)
	return x.Sub(x, o.exOp)
}

// feeLeft: what a buyer may still be charged; nil for sellers
func (o *ord) feeLeft() *big.Int {
	if o.side {
		return nil
	}
	x := new(big.Int).Sub(o.lockFee, o.exBase)
	return x.Sub(x, o.exOp)
}

func minI(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func round(r *big.Rat) *big.Int {
	x := new(big.Rat).Add(r, half)
	return floor(x)
}

func floor(r *big.Rat) *big.Int { return new(big.Int).Div(r.Num(), r.Denom()) }

// nearInt: the number is within tol of an integer
func nearInt(r *big.Rat) bool {
	d := new(big.Rat).Sub(r, new(big.Rat).SetInt(round(r)))
	return d.Abs(d).Cmp(tol) <= 0
}

func nearHalf(r *big.Rat) bool {
	d := new(big.Rat).Sub(new(big.Rat).Sub(r, new(big.Rat).SetInt(floor(r))), half)
	return d.Abs(d).Cmp(tol) <= 0
}

// close decides whether an order is finished after a fill at a price
func (o *ord) settleDone(m *dex.MarketInfo, at []byte) {
	o.done, o.ambiguous = false, false
	mbuy := o.ty == dex.Market && !o.side
	if o.remQty().Sign() == 0 || mbuy && o.remAmt().Sign() == 0 {
		o.done = true
		return
	}
	var x *big.Rat
	switch {
	case o.ty != dex.Market:
		x = amountOf(o.remQty(), o.price, m)
	case !o.side:
		x = quantityFor(o.remAmt(), at, m)
	default:
		return
	}
	d := new(big.Rat).Sub(x, big.NewRat(1, 1))
	o.ambiguous = new(big.Rat).Abs(d).Cmp(tol) <= 0
	o.done = d.Sign() < 0
}

// quantityFor: how much an amount buys
func quantityFor(amount *big.Int, price []byte, m *dex.MarketInfo) *big.Rat {
	return scale(new(big.Rat).Quo(new(big.Rat).SetInt(amount), priceRat(price)), m.TradeTokenDecimals-m.QuoteTokenDecimals)
}

type fill struct{ qty, amount, tFee, tOp, mFee, mOp *big.Int }

// expected fill of taker against maker; amb: a rounding was too close to call
func expectFill(t, mk *ord, m *dex.MarketInfo) (f fill, amb bool) {
	tq := t.remQty()
	if t.ty == dex.Market && !t.side {
		x := quantityFor(t.remAmt(), mk.price, m)
		fl := floor(x)
		if nearInt(x) {
			amb = true
		}
		tq = minI(tq, fl)
	}
	f.qty = new(big.Int).Set(minI(tq, mk.remQty()))
	ar := amountOf(f.qty, mk.price, m)
	if nearHalf(ar) {
		amb = true
	}
	f.amount = round(ar)
	for _, o := range []*ord{t, mk} {
		if !o.side {
			f.amount = minI(f.amount, o.remAmt())
		}
	}
	f.amount = new(big.Int).Set(f.amount)
	fees := func(o *ord, rate, op int32) (*big.Int, *big.Int) {
		br, or := rateOf(f.amount, rate), rateOf(f.amount, op)
		if nearHalf(br) || nearHalf(or) {
			amb = true
		}
		bf, of := round(br), round(or)
		if l := o.feeLeft(); l != nil {
			bf = minI(bf, l)
			of = minI(of, new(big.Int).Sub(l, bf))
		}
		return bf, of
	}
	f.tFee, f.tOp = fees(t, t.takerR, t.takerOp)
	f.mFee, f.mOp = fees(mk, mk.makerR, mk.makerOp)
	return
}

func (o *ord) apply(f fill, fee, op *big.Int) {
	o.exQty.Add(o.exQty, f.qty)
	o.exAmt.Add(o.exAmt, f.amount)
	o.exBase.Add(o.exBase, fee)
	o.exOp.Add(o.exOp, op)
	o.fills++
}

func (w *world) fillsOf(b *ledger.AccountBlock) (l []*dexproto.Transaction) {
	if b.LogHash == nil {
		return
	}
	logs, err := w.ch.GetVmLogList(b.LogHash)
	w.must(err, "logs")
	topic := (&dex.TransactionEvent{}).GetTopicId()
	for _, x := range logs {
		if len(x.Topics) > 0 && x.Topics[0] == topic {
			t := &dexproto.Transaction{}
			if err := proto.Unmarshal(x.Data, t); err != nil {
				w.fail("bad-record", "trade event: %v", err)
			}
			l = append(l, t)
		}
	}
	return
}

// settlement of one execution, as it should be
type settlement struct {
	inc, reduce, release, base, op bag
}

func newSettlement() *settlement { return &settlement{bag{}, bag{}, bag{}, bag{}, bag{}} }

func sk(a types.Address, trade bool) string { return fmt.Sprint(a.Hex(), "|", trade) }

func (s *settlement) trade(t, mk *ord, f fill) {
	buyer, seller := t, mk
	bf, sf := new(big.Int).Add(f.tFee, f.tOp), new(big.Int).Add(f.mFee, f.mOp)
	if t.side {
		buyer, seller = mk, t
		bf, sf = sf, bf
	}
	s.inc.add(sk(buyer.addr, true), f.qty)
	s.reduce.add(sk(buyer.addr, false), new(big.Int).Add(f.amount, bf))
	s.reduce.add(sk(seller.addr, true), f.qty)
	s.inc.add(sk(seller.addr, false), new(big.Int).Sub(f.amount, sf))
	s.base.add(t.addr.Hex(), f.tFee)
	s.op.add(t.addr.Hex(), f.tOp)
	s.base.add(mk.addr.Hex(), f.mFee)
	s.op.add(mk.addr.Hex(), f.mOp)
}

func (s *settlement) close(o *ord) {
	s.release.add(sk(o.addr, o.side), o.refund())
}

func (w *world) checkSettlement(b *ledger.AccountBlock, m *dex.MarketInfo, s *settlement) {
	got := newSettlement()
	for _, x := range b.SendBlockList {
		if x.ToAddress != types.AddressDexFund || method(abi.ABIDexFund, x.Data) != "SettleOrders" || x.Amount.Sign() != 0 {
			w.fail("match-settle", "the exchange sent an unexpected message to %s", x.ToAddress)
		}
		a := w.settleMsg(x.Data)
		if !bytes.Equal(a.TradeToken, m.TradeToken) || !bytes.Equal(a.QuoteToken, m.QuoteToken) {
			w.fail("match-settle", "trades of market %d are settled in other tokens", m.MarketId)
		}
		for _, y := range a.FundActions {
			for _, z := range y.AccountSettles {
				k := sk(addrOf(y.Address), z.IsTradeToken)
				got.inc.add(k, bi(z.IncAvailable))
				got.reduce.add(k, bi(z.ReduceLocked))
				got.release.add(k, bi(z.ReleaseLocked))
			}
		}
		for _, y := range a.FeeActions {
			got.base.add(addrOf(y.Address).Hex(), bi(y.BaseFee))
			got.op.add(addrOf(y.Address).Hex(), bi(y.OperatorFee))
		}
	}
	for _, p := range []struct {
		n       string
		ex, go_ bag
	}{{"credit", s.inc, got.inc}, {"debit", s.reduce, got.reduce}, {"release", s.release, got.release}, {"fee", s.base, got.base}, {"operator fee", s.op, got.op}} {
		if k := p.ex.diff(p.go_); k != "" {
			w.fail("match-settle", "market %d: %s of %s is settled as %v, the trades say %v", m.MarketId, p.n, k, p.go_.get(k), p.ex.get(k))
		}
	}
}

func (w *world) tradeStep(send, b *ledger.AccountBlock, pre, post dump) {
	m := method(abi.ABIDexTrade, send.Data)
	from := send.AccountAddress
	failed := status(b) != 0
	if !failed {
		sim.Count("trade_"+m, 1)
	}
	switch m {
	case "PlaceOrder":
		if from != types.AddressDexFund {
			if !failed {
				w.fail("match-forged", "an order sent by %s was executed", from)
			}
			return
		}
		if failed {
			w.fail("match-failed", "an accepted order was not executed")
		}
		w.matched(w.orderMsg(send.Data), b, pre, post)
	case "CancelOrder", "CancelOrderByTransactionHash", "InnerCancelOrderBySendHash":
		var id []byte
		who := from
		switch m {
		case "CancelOrder":
			p := new(dex.ParamDexCancelOrder)
			if abi.ABIDexTrade.UnpackMethod(p, m, send.Data) != nil {
				return
			}
			id = p.OrderId
		default:
			var h types.Hash
			if m == "InnerCancelOrderBySendHash" {
				p := new(dex.ParamDexInnerCancelOrder)
				if abi.ABIDexTrade.UnpackMethod(p, m, send.Data) != nil {
					return
				}
				h, who = p.SendHash, p.Owner
				if from != types.AddressDexFund && !failed {
					w.fail("match-forged", "%s was executed for %s", m, from)
				}
			} else {
				p := new(types.Hash)
				if abi.ABIDexTrade.UnpackMethod(p, m, send.Data) != nil {
					return
				}
				h = *p
			}
			for _, o := range w.bookOrders(pre) {
				if bytes.Equal(o.SendHash, h.Bytes()) {
					id = o.Id
				}
			}
		}
		v := pre[string(id)]
		if len(v) == 0 || !isOrderKey(string(id)) {
			if !failed {
				w.fail("match-cancel", "cancelling an order that is not open succeeded")
			}
			return
		}
		o := &dex.Order{}
		if err := o.DeSerializeCompact(v, id); err != nil {
			w.fail("bad-record", "order: %v", err)
		}
		if failed {
			if addrOf(o.Address) == who {
				w.fail("match-cancel", "%s cannot cancel its open order %x", who, id)
			}
			return
		}
		if addrOf(o.Address) != who {
			w.fail("match-cancel", "%s cancelled an order of %s", who, addrOf(o.Address))
		}
		exp := dump{}
		for k, v := range pre {
			exp[k] = v
		}
		delete(exp, string(id))
		delete(exp, "hmId:"+string(o.SendHash[5:]))
		if k := eqDump(exp, post); k != "" {
			w.fail("match-cancel", "cancelling order %x left record %x wrong", id, k)
		}
		s := newSettlement()
		s.close(refOrd(o))
		w.checkSettlement(b, w.marketById(o.MarketId), s)
	case "SyncNewMarket":
		if from != types.AddressDexFund && !failed {
			w.fail("match-forged", "a market sent by %s was accepted", from)
		}
		for k := range post {
			if !bytes.Equal(pre[k], post[k]) && (len(k) != 9 || k[:5] != "mkIf:") {
				w.fail("match-others", "a market message changed record %x", k)
			}
		}
	}
}

func crosses(t *ord, mk *ord) bool {
	if t.ty == dex.Market {
		return true
	}
	c := bytes.Compare(t.price, mk.price)
	if t.side {
		return c <= 0
	}
	return c >= 0
}

// matched checks the execution of one order
func (w *world) matched(o *dex.Order, b *ledger.AccountBlock, pre, post dump) {
	m := &dex.MarketInfo{}
	if err := m.DeSerialize(pre[string(dex.GetMarketInfoKeyById(o.MarketId))]); err != nil {
		w.fail("bad-record", "market %d: %v", o.MarketId, err)
	}
	var makers []*ord
	for _, x := range w.bookOrders(pre) {
		if x.MarketId == o.MarketId && x.Side != o.Side {
			makers = append(makers, refOrd(x))
		}
	}
	sort.SliceStable(makers, func(i, j int) bool {
		c := bytes.Compare(makers[i].price, makers[j].price)
		if o.Side {
			c = -c
		}
		if c != 0 {
			return c < 0
		}
		return bytes.Compare(makers[i].id[14:], makers[j].id[14:]) < 0
	})
	t := refOrd(o)
	n := 0
	for n < len(makers) && crosses(t, makers[n]) {
		n++
	}
	makers = makers[:n] // those it may trade with, best first
	orig := t.copy()
	evs := w.fillsOf(b)
	s := newSettlement()
	cancelled := false
	if len(evs) > maxFills {
		w.fail("match-fills", "one order had %d trades", len(evs))
	}
	if t.ty == dex.PostOnly && n > 0 {
		if len(evs) > 0 {
			w.fail("match-postonly", "a post-only order traded")
		}
		cancelled = true
		sim.Count("postonly_cancelled", 1)
	} else if len(evs) == 0 && n > 0 {
		// nothing traded although something could: only all-or-nothing orders, and market orders over the limit
		amb, over := false, false
		for i := 0; i < n && i < maxFills && !t.done; i++ {
			f, a := expectFill(t, makers[i], m)
			t.apply(f, f.tFee, f.tOp)
			t.settleDone(m, makers[i].price)
			amb = amb || a || t.ambiguous
		}
		x := new(big.Int).Add(t.exAmt, t.exBase)
		x.Add(x, t.exOp)
		over = x.Cmp(t.thresholdAmount) > 0
		d := new(big.Int).Sub(x, t.thresholdAmount)
		if d.Abs(d).Cmp(big.NewInt(int64(4*n+4))) <= 0 {
			amb = true
		}
		switch {
		case t.ty == dex.FillOrKill && (!t.done || amb):
			sim.Count("fok_killed", 1)
		case t.ty == dex.Market && (over || amb):
			sim.Count("market_over_threshold", 1)
		default:
			w.fail("match-missed", "an order (type %d, side %v, price %s, quantity %v) did not trade with the %d open orders it crosses", t.ty, t.side, dex.BytesToPrice(t.price), t.qty, n)
		}
		t = orig
		cancelled = true
	} else {
		for i, e := range evs {
			if i >= n {
				w.fail("match-price", "an order at %s traded %d times, only %d open orders cross it", dex.BytesToPrice(t.price), len(evs), n)
			}
			mk := makers[i]
			if !bytes.Equal(e.MakerId, mk.id) || !bytes.Equal(e.TakerId, t.id) {
				w.fail("match-priority", "trade %d of order %x is with %x, the best order is %x", i, t.id, e.MakerId, mk.id)
			}
			if i > 0 && t.done && !t.ambiguous {
				w.fail("match-overfill", "a finished order traded again")
			}
			if !bytes.Equal(e.Price, mk.price) || e.TakerSide != t.side {
				w.fail("match-price", "order %x traded with %x at %s", t.id, mk.id, dex.BytesToPrice(e.Price))
			}
			f, _ := expectFill(t, mk, m)
			g := fill{bi(e.Quantity), bi(e.Amount), bi(e.TakerFee), bi(e.TakerOperatorFee), bi(e.MakerFee), bi(e.MakerOperatorFee)}
			if g.qty.Cmp(f.qty) != 0 {
				x := quantityFor(t.remAmt(), mk.price, m)
				d := new(big.Int).Sub(g.qty, f.qty)
				if !(t.ty == dex.Market && !t.side && nearInt(x) && d.CmpAbs(big.NewInt(1)) <= 0 && g.qty.Cmp(minI(t.remQty(), mk.remQty())) <= 0) {
					w.fail("match-quantity", "order %x (remaining %v) traded %v with an order of which %v remain", t.id, t.remQty(), g.qty, mk.remQty())
				}
			}
			cap_ := func(r *big.Rat, got *big.Int, l *big.Int) bool {
				if roundsTo(got, r) && (l == nil || got.Cmp(l) <= 0) {
					return true
				}
				return l != nil && got.Cmp(l) == 0 && new(big.Rat).SetInt(l).Cmp(new(big.Rat).Add(r, half)) <= 0
			}
			var lim *big.Int
			for _, x := range []*ord{t, mk} {
				if !x.side && (lim == nil || x.remAmt().Cmp(lim) < 0) {
					lim = x.remAmt()
				}
			}
			if !cap_(amountOf(g.qty, mk.price, m), g.amount, lim) {
				w.fail("match-amount", "%v at %s is charged as %v", g.qty, dex.BytesToPrice(mk.price), g.amount)
			}
			fee := func(who string, x *ord, rate, op int32, gb, go_ *big.Int) {
				l := x.feeLeft()
				var l2 *big.Int
				if l != nil {
					l2 = new(big.Int).Sub(l, gb)
				}
				if !cap_(rateOf(g.amount, rate), gb, l) || !cap_(rateOf(g.amount, op), go_, l2) {
					w.fail("match-fee", "the %s pays %v and %v on %v at rates %d and %d (locked for fees: %v)", who, gb, go_, g.amount, rate, op, l)
				}
			}
			fee("taker", t, t.takerR, t.takerOp, g.tFee, g.tOp)
			fee("maker", mk, mk.makerR, mk.makerOp, g.mFee, g.mOp)
			s.trade(t, mk, g)
			floorBuy := t.ty == dex.Market && !t.side && g.qty.Cmp(t.remQty()) < 0
			t.apply(g, g.tFee, g.tOp)
			mk.apply(g, g.mFee, g.mOp)
			t.settleDone(m, mk.price)
			mk.settleDone(m, mk.price)
			if mk.ambiguous {
				mk.done = len(post[string(mk.id)]) == 0
			}
			if i+1 < len(evs) && !mk.done && !floorBuy {
				w.fail("match-priority", "order %x traded on past order %x, of which %v remain", t.id, mk.id, mk.remQty())
			}
			sim.Count("fills", 1)
		}
		if t.ambiguous {
			t.done = len(post[string(t.id)]) == 0 && (t.ty == dex.Limited || t.ty == dex.PostOnly || len(evs) == n || len(evs) == maxFills || t.done)
		}
		if t.ty == dex.FillOrKill && !t.done {
			if len(evs) > 0 && !t.ambiguous {
				w.fail("match-fok", "a fill-or-kill order was filled in part, with %d trades", len(evs))
			}
		}
		if t.ty == dex.Market && len(evs) > 0 {
			x := new(big.Int).Add(t.exAmt, t.exBase)
			x.Add(x, t.exOp)
			if x.Cmp(t.thresholdAmount) > 0 {
				w.fail("match-threshold", "a market order traded %v, the limit is %v", x, t.thresholdAmount)
			}
		}
		if !t.done && len(evs) < n && len(evs) < maxFills {
			w.fail("match-missed", "order %x stopped after %d trades although %d orders cross it (remaining %v)", t.id, len(evs), n, t.remQty())
		}
		if !t.done && len(evs) == maxFills {
			cancelled = true
			sim.Count("cancelled_at_fill_limit", 1)
		}
	}
	if t.ty == dex.Market || t.ty == dex.ImmediateOrCancel || t.ty == dex.FillOrKill {
		if !t.done {
			cancelled = true
		}
	}
	// the book afterwards
	exp := dump{}
	for k, v := range pre {
		if k != "ttmsp:" {
			exp[k] = v
		}
	}
	upd := map[string]*ord{}
	if len(evs) > 0 {
		for i := range evs {
			mk := makers[i]
			delete(exp, string(mk.id))
			if mk.done {
				delete(exp, "hmId:"+string(mk.sendHash[5:]))
				s.close(mk)
			} else {
				upd[string(mk.id)] = mk
			}
		}
	}
	if t.done || cancelled {
		s.close(t)
	} else {
		upd[string(t.id)] = t
		exp["hmId:"+string(t.sendHash[5:])] = t.id
		sim.Count("rested", 1)
	}
	got := dump{}
	for k, v := range post {
		if upd[k] == nil && k != "ttmsp:" {
			got[k] = v
		}
	}
	if k := eqDump(exp, got); k != "" {
		what := "changed"
		if len(got[k]) == 0 {
			what = "gone"
		} else if len(exp[k]) == 0 {
			what = "there"
		}
		w.fail("match-book", "after order %x (type %d, %d trades, finished %v, cancelled %v) record %x is %s", t.id, t.ty, len(evs), t.done, cancelled, k, what)
	}
	for k, x := range upd {
		v := post[k]
		if len(v) == 0 {
			w.fail("match-book", "after order %x the order %x, of which %v remain, is gone", t.id, k, x.remQty())
		}
		y := &dex.Order{}
		if err := y.DeSerializeCompact(v, []byte(k)); err != nil {
			w.fail("bad-record", "order: %v", err)
		}
		z := refOrd(y)
		st := int32(dex.Pending)
		if x.fills > 0 || x.exQty.Sign() > 0 {
			st = dex.PartialExecuted
		}
		if z.exQty.Cmp(x.exQty) != 0 || z.exAmt.Cmp(x.exAmt) != 0 || z.exBase.Cmp(x.exBase) != 0 || z.exOp.Cmp(x.exOp) != 0 || z.qty.Cmp(x.qty) != 0 || z.amount.Cmp(x.amount) != 0 ||
			z.lockFee.Cmp(x.lockFee) != 0 || z.addr != x.addr || z.ty != x.ty || z.takerR != x.takerR || z.takerOp != x.takerOp || z.makerR != x.makerR || z.makerOp != x.makerOp ||
			!bytes.Equal(z.sendHash, x.sendHash) || y.Status != st {
			w.fail("match-book", "after order %x the order %x is recorded as %s", t.id, k, y.String())
		}
	}
	w.checkSettlement(b, m, s)
	sim.Count("matches", 1)
}
