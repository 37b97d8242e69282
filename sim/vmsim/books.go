package vmsim

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	vmabi "github.com/vitelabs/go-vite/v2/vm/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

const stakeHeight = 600 // test parameters
var stakeMin = vite18(134)

func method(a vmabi.ABIContract, data []byte) string {
	if len(data) < 4 {
		return ""
	}
	m, err := a.MethodById(data[:4])
	if err != nil {
		return ""
	}
	return m.Name
}

func addrOf(b []byte) types.Address { a, _ := types.BytesToAddress(b); return a }

func eqDump(a, b dump) string {
	for k, v := range a {
		if !bytes.Equal(b[k], v) {
			return k
		}
	}
	for k, v := range b {
		if !bytes.Equal(a[k], v) {
			return k
		}
	}
	return ""
}

// sum of what a contract sent to an address, and whether it sent only there
func sentTo(b *ledger.AccountBlock, to types.Address, t types.TokenTypeId) (*big.Int, bool) {
	x, only := new(big.Int), true
	for _, s := range b.SendBlockList {
		if s.ToAddress == to && (s.TokenId == t || s.Amount == nil || s.Amount.Sign() == 0) {
			if s.Amount != nil {
				x.Add(x, s.Amount)
			}
		} else {
			only = false
		}
	}
	return x, only
}

// checkFlow: the balances of an account change by exactly what its block moves
func (w *world) checkFlow(b, send *ledger.AccountBlock, old, now map[types.TokenTypeId]*big.Int) {
	exp := map[types.TokenTypeId]*big.Int{}
	add := func(t types.TokenTypeId, v *big.Int, sg int) {
		if v == nil || v.Sign() == 0 {
			return
		}
		if exp[t] == nil {
			exp[t] = new(big.Int)
		}
		if sg > 0 {
			exp[t].Add(exp[t], v)
		} else {
			exp[t].Sub(exp[t], v)
		}
	}
	for t, v := range old {
		add(t, v, 1)
	}
	out := func(s *ledger.AccountBlock) {
		if s.BlockType != ledger.BlockTypeSendReward {
			add(s.TokenId, s.Amount, -1)
		}
		add(viteId, s.Fee, -1)
	}
	if b.IsSendBlock() {
		out(b)
	} else if send != nil {
		add(send.TokenId, send.Amount, 1)
		for _, s := range b.SendBlockList {
			out(s)
		}
		if isBuiltin(b.AccountAddress) {
			if status(b) == 1 {
				add(viteId, send.Fee, 1) // the fee is refunded
			}
			if status(b) == 0 && b.AccountAddress == types.AddressAsset && method(abi.ABIAsset, send.Data) == "Burn" {
				add(send.TokenId, send.Amount, -1)
			}
		}
	}
	for t, v := range exp {
		n := now[t]
		if n == nil {
			n = new(big.Int)
		}
		if n.Cmp(v) != 0 {
			w.fail("flow", "block %s/%d leaves %v of %s, what it moves leaves %v", b.AccountAddress, b.Height, n, t, v)
		}
		if v.Sign() < 0 {
			w.fail("flow", "block %s/%d overdraws %s", b.AccountAddress, b.Height, t)
		}
	}
	for t, n := range now {
		if exp[t] == nil && n.Sign() != 0 {
			w.fail("flow", "block %s/%d leaves %v of %s out of nothing", b.AccountAddress, b.Height, n, t)
		}
	}
}

// checkReceive judges one execution of a built-in contract
func (w *world) checkReceive(send, b *ledger.AccountBlock, pre, post dump) {
	a := b.AccountAddress
	if status(b) == 1 {
		if k := eqDump(pre, post); k != "" {
			w.fail("failed-call-changed", "%s: a failed call changed storage key %x", short(a), k)
		}
		back := map[types.TokenTypeId]*big.Int{}
		for _, s := range b.SendBlockList {
			if s.ToAddress != send.AccountAddress {
				w.fail("failed-call-sent", "%s: a failed call of %s sent something to %s", short(a), send.AccountAddress, s.ToAddress)
			}
			if back[s.TokenId] == nil {
				back[s.TokenId] = new(big.Int)
			}
			back[s.TokenId].Add(back[s.TokenId], s.Amount)
		}
		want := map[types.TokenTypeId]*big.Int{send.TokenId: new(big.Int).Set(send.Amount)}
		if send.Fee != nil && send.Fee.Sign() > 0 {
			if want[viteId] == nil {
				want[viteId] = new(big.Int)
			}
			want[viteId].Add(want[viteId], send.Fee)
		}
		for t, v := range want {
			x := back[t]
			if x == nil {
				x = new(big.Int)
			}
			if x.Cmp(v) != 0 {
				w.fail("refund", "%s: a failed call carrying %v %s refunded %v", short(a), v, t, x)
			}
			delete(back, t)
		}
		for t, v := range back {
			if v.Sign() != 0 {
				w.fail("refund", "%s: a failed call refunded %v %s it never carried", short(a), v, t)
			}
		}
	}
	switch a {
	case types.AddressQuota:
		w.quotaStep(send, b, pre, post)
	case types.AddressGovernance:
		w.govStep(send, b, pre, post)
	case types.AddressAsset:
		w.assetStep(send, b, pre, post)
	case types.AddressDexFund:
		w.fundStep(send, b, pre, post)
	case types.AddressDexTrade:
		w.tradeStep(send, b, pre, post)
	}
}

// ------------------------------------------------------------------ quota

type stake struct {
	owner, benef, deleg types.Address
	amount              *big.Int
	exp                 uint64
	isDeleg             bool
	bid                 uint8
	id                  *types.Hash
}

func (w *world) stakes(d dump) (map[string]*stake, map[types.Address]*big.Int) {
	m, be := map[string]*stake{}, map[types.Address]*big.Int{}
	for k, v := range d {
		switch len(k) {
		case types.AddressSize + 8:
			s := new(types.StakeInfo)
			var err error
			if len(v) == 192 {
				err = abi.ABIQuota.UnpackVariable(s, abi.VariableNameStakeInfo, v)
			} else {
				s.Id = &types.Hash{}
				err = abi.ABIQuota.UnpackVariable(s, abi.VariableNameStakeInfoV2, v)
			}
			if err != nil {
				w.fail("quota-garbled", "stake record %x does not decode: %v", k, err)
			}
			m[k] = &stake{owner: addrOf([]byte(k[:types.AddressSize])), benef: s.Beneficiary, deleg: s.DelegateAddress, amount: s.Amount, exp: s.ExpirationHeight, isDeleg: s.IsDelegated, bid: s.Bid, id: s.Id}
		case types.AddressSize:
			x := new(abi.VariableStakeBeneficial)
			if err := abi.ABIQuota.UnpackVariable(x, abi.VariableNameStakeBeneficial, v); err != nil {
				w.fail("quota-garbled", "beneficiary record %x does not decode: %v", k, err)
			}
			be[addrOf([]byte(k))] = x.Amount
		}
	}
	return m, be
}

func (w *world) quotaBooks(why string) {
	d := w.pre[types.AddressQuota]
	m, be := w.stakes(d)
	sum, per := new(big.Int), map[types.Address]*big.Int{}
	for k, s := range m {
		sum.Add(sum, s.amount)
		if per[s.benef] == nil {
			per[s.benef] = new(big.Int)
		}
		per[s.benef].Add(per[s.benef], s.amount)
		if s.amount.Sign() <= 0 {
			w.fail("quota-books", "%s: a stake of %s has amount %v", why, s.owner, s.amount)
		}
		if s.id != nil && !bytes.Equal(d[string(s.id.Bytes())], []byte(k)) {
			w.fail("quota-books", "%s: the stake %s cannot be found by its id", why, s.id)
		}
	}
	if x := w.b(types.AddressQuota, viteId); x.Cmp(sum) != 0 {
		w.fail("quota-books", "%s: the quota contract holds %v, the stakes add up to %v", why, x, sum)
	}
	for a, v := range per {
		if be[a] == nil || be[a].Cmp(v) != 0 {
			w.fail("quota-books", "%s: stakes for %s add up to %v, its quota is computed from %v", why, a, v, be[a])
		}
	}
	for a, v := range be {
		if per[a] == nil && v.Sign() != 0 {
			w.fail("quota-books", "%s: no stake for %s, its quota is computed from %v", why, a, v)
		}
	}
}

// confirmed is the snapshot that confirmed the send: what the contract takes as the present
func (w *world) confirmed(send *ledger.AccountBlock) *ledger.SnapshotBlock {
	sb, err := w.ch.GetConfirmSnapshotHeaderByAbHash(send.Hash)
	w.must(err, "confirming snapshot")
	if sb == nil {
		w.fail("read-error", "no snapshot confirms %s", send.Hash)
	}
	return sb
}

func (w *world) quotaStep(send, b *ledger.AccountBlock, pre, post dump) {
	name := method(abi.ABIQuota, send.Data)
	o, _ := w.stakes(pre)
	n, _ := w.stakes(post)
	h := w.confirmed(send).Height
	isStake := name == "Pledge" || name == "Stake" || name == "StakeForQuota" || name == "AgentPledge" || name == "DelegateStake" || name == "StakeForQuotaWithCallback"
	agent := name == "AgentPledge" || name == "DelegateStake" || name == "AgentCancelPledge" || name == "CancelDelegateStake"
	byId := name == "CancelQuotaStaking" || name == "CancelQuotaStakingWithCallback"
	if status(b) == 1 {
		if isStake {
			w.fail("stake-refused", "a stake of %v by %s (%s) failed", send.Amount, send.AccountAddress, name)
		}
		if byId {
			id := new(types.Hash)
			abi.ABIQuota.UnpackMethod(id, name, send.Data)
			if k := pre[string(id.Bytes())]; len(k) > 0 {
				if s := o[string(k)]; s != nil && s.owner == send.AccountAddress && s.exp <= h {
					w.fail("stake-stuck", "%s cannot take back its stake %s of %v although it expired at %d and the contract is at %d", send.AccountAddress, id, s.amount, s.exp, h)
				}
			}
		}
		return
	}
	if status(b) != 0 {
		return
	}
	var ch []string
	for k, s := range n {
		if p := o[k]; p == nil || p.amount.Cmp(s.amount) != 0 || p.exp != s.exp || p.benef != s.benef || p.isDeleg != s.isDeleg || p.deleg != s.deleg || p.bid != s.bid {
			ch = append(ch, k)
		}
	}
	for k := range o {
		if n[k] == nil {
			ch = append(ch, k)
		}
	}
	sort.Strings(ch)
	if len(ch) != 1 {
		w.fail("stake-step", "%s by %s changed %d stakes", name, send.AccountAddress, len(ch))
	}
	p, s := o[ch[0]], n[ch[0]]
	owner := addrOf([]byte(ch[0][:types.AddressSize]))
	if isStake {
		prm := struct {
			StakeAddress, Beneficiary types.Address
			Bid                       uint8
			StakeHeight               uint64
		}{}
		switch name {
		case "Pledge", "Stake", "StakeForQuota":
			x := new(types.Address)
			abi.ABIQuota.UnpackMethod(x, name, send.Data)
			prm.StakeAddress, prm.Beneficiary, prm.StakeHeight = send.AccountAddress, *x, stakeHeight
		case "StakeForQuotaWithCallback":
			x := new(abi.ParamStakeV3)
			abi.ABIQuota.UnpackMethod(x, name, send.Data)
			prm.StakeAddress, prm.Beneficiary, prm.StakeHeight = send.AccountAddress, x.Beneficiary, x.StakeHeight
		default:
			x := new(abi.ParamDelegateStake)
			abi.ABIQuota.UnpackMethod(x, name, send.Data)
			prm.StakeAddress, prm.Beneficiary, prm.Bid, prm.StakeHeight = x.StakeAddress, x.Beneficiary, x.Bid, x.StakeHeight
		}
		old := new(big.Int)
		oldExp := uint64(0)
		if p != nil {
			old, oldExp = p.amount, p.exp
		}
		if s == nil || new(big.Int).Sub(s.amount, old).Cmp(send.Amount) != 0 || owner != prm.StakeAddress || s.benef != prm.Beneficiary || (p != nil && p.benef != s.benef) {
			w.fail("stake-step", "%s of %v by %s recorded %+v, before %+v", name, send.Amount, send.AccountAddress, s, p)
		}
		if agent && (!s.isDeleg || s.deleg != send.AccountAddress || s.bid != prm.Bid) {
			w.fail("stake-step", "%s by %s recorded delegate %s bid %d", name, send.AccountAddress, s.deleg, s.bid)
		}
		want := h + prm.StakeHeight
		if agent && oldExp > want {
			want = oldExp
		}
		if s.exp != want {
			w.fail("stake-lock", "%s executed at height %d: the stake is locked until %d, not %d", name, h, s.exp, want)
		}
		if send.Amount.Cmp(stakeMin) < 0 {
			w.fail("stake-step", "%s accepted %v, less than the minimum", name, send.Amount)
		}
		if x, _ := sentTo(b, send.AccountAddress, viteId); x.Sign() != 0 {
			w.fail("stake-step", "%s returned %v", name, x)
		}
		return
	}
	if p == nil {
		w.fail("stake-step", "%s created a stake", name)
	}
	left := new(big.Int)
	if s != nil {
		left = s.amount
		if s.benef != p.benef || s.exp != p.exp || s.isDeleg != p.isDeleg || s.deleg != p.deleg || s.bid != p.bid {
			w.fail("stake-step", "%s changed more than the amount: %+v to %+v", name, p, s)
		}
	}
	cut := new(big.Int).Sub(p.amount, left)
	auth := owner == send.AccountAddress && !p.isDeleg
	if agent {
		auth = p.isDeleg && p.deleg == send.AccountAddress
	}
	if !auth {
		w.fail("stake-theft", "%s by %s took %v from the stake of %s (delegate %s)", name, send.AccountAddress, cut, owner, p.deleg)
	}
	if p.exp > h {
		w.fail("stake-lock", "%s at height %d released a stake locked until %d", name, h, p.exp)
	}
	if cut.Sign() <= 0 || (left.Sign() != 0 && left.Cmp(stakeMin) < 0) {
		w.fail("stake-step", "%s reduced a stake of %v to %v", name, p.amount, left)
	}
	if byId {
		id := new(types.Hash)
		abi.ABIQuota.UnpackMethod(id, name, send.Data)
		if !bytes.Equal(pre[string(id.Bytes())], []byte(ch[0])) || s != nil || len(post[string(id.Bytes())]) > 0 {
			w.fail("stake-step", "%s of %s released another stake, or not all of it", name, id)
		}
	} else {
		x := new(big.Int)
		if agent {
			q := new(abi.ParamCancelDelegateStake)
			abi.ABIQuota.UnpackMethod(q, name, send.Data)
			x = q.Amount
		} else {
			q := new(abi.ParamCancelStake)
			abi.ABIQuota.UnpackMethod(q, name, send.Data)
			x = q.Amount
		}
		if x.Cmp(cut) != 0 {
			w.fail("stake-step", "%s asked for %v, the stake went down by %v", name, x, cut)
		}
	}
	if x, only := sentTo(b, send.AccountAddress, viteId); x.Cmp(cut) != 0 || !only {
		w.fail("stake-step", "%s: the stake went down by %v, %v was returned", name, cut, x)
	}
	sim.Count("stake_cancelled", 1)
}

// ------------------------------------------------------------------ governance

type gov struct {
	regs  map[string]*types.Registration // by name (snapshot group)
	votes map[types.Address]string
	index map[types.Address]string
	his   map[types.Address]string
}

func (w *world) gov(d dump) *gov {
	g := &gov{map[string]*types.Registration{}, map[types.Address]string{}, map[types.Address]string{}, map[types.Address]string{}}
	for k, v := range d {
		switch len(k) {
		case 30:
			r := new(types.Registration)
			var err error
			if abi.ABIGovernance.UnpackVariable(r, abi.VariableNameRegistrationInfoV2, v) != nil || r.Name == "" || string(abi.GetRegistrationInfoKey(r.Name, types.SNAPSHOT_GID)) != k {
				r = new(types.Registration)
				err = abi.ABIGovernance.UnpackVariable(r, abi.VariableNameRegistrationInfo, v)
				r.RewardWithdrawAddress = r.StakeAddress
			}
			if err != nil || string(abi.GetRegistrationInfoKey(r.Name, types.SNAPSHOT_GID)) != k {
				w.fail("gov-garbled", "registration %x does not decode: %v", k, err)
			}
			g.regs[r.Name] = r
		case 32:
			s := new(string)
			if err := abi.ABIGovernance.UnpackVariable(s, abi.VariableNameVoteInfo, v); err != nil {
				w.fail("gov-garbled", "vote %x does not decode: %v", k, err)
			}
			g.votes[addrOf([]byte(k[11:]))] = *s
		case types.AddressSize:
			g.index[addrOf([]byte(k))] = string(v)
		case 31:
			s := new(string)
			if err := abi.ABIGovernance.UnpackVariable(s, abi.VariableNameRegisteredHisName, v); err != nil {
				w.fail("gov-garbled", "name record %x does not decode: %v", k, err)
			}
			g.his[addrOf([]byte(k[:types.AddressSize]))] = *s
		}
	}
	return g
}

func (w *world) govBooks(why string) {
	g := w.gov(w.pre[types.AddressGovernance])
	sum := new(big.Int)
	idx := map[types.Address][]string{}
	for n, r := range g.regs {
		sum.Add(sum, r.Amount)
		if (r.RevokeTime == 0) != (r.Amount.Sign() > 0) {
			w.fail("gov-books", "%s: producer %s has stake %v and revoke time %d", why, n, r.Amount, r.RevokeTime)
		}
		if r.RevokeTime == 0 && g.his[r.BlockProducingAddress] != n {
			w.fail("gov-books", "%s: the producing address of %s is known as %q's", why, n, g.his[r.BlockProducingAddress])
		}
		if r.RewardWithdrawAddress != r.StakeAddress {
			idx[r.RewardWithdrawAddress] = append(idx[r.RewardWithdrawAddress], n)
		}
		has := false
		for _, a := range r.HisAddrList {
			has = has || a == r.BlockProducingAddress
			if g.his[a] != n {
				w.fail("gov-books", "%s: %s once produced for %s but is known as %q's", why, a, n, g.his[a])
			}
		}
		if !has {
			w.fail("gov-books", "%s: the producing address of %s is not among its addresses", why, n)
		}
	}
	if x := w.b(types.AddressGovernance, viteId); x.Cmp(sum) != 0 {
		w.fail("gov-books", "%s: the governance contract holds %v, the registrations add up to %v", why, x, sum)
	}
	for a, s := range g.index {
		l := strings.Split(s, ",")
		sort.Strings(l)
		m := append([]string(nil), idx[a]...)
		sort.Strings(m)
		if fmt.Sprint(l) != fmt.Sprint(m) {
			w.fail("gov-books", "%s: %s withdraws for %v, the index says %v", why, a, m, l)
		}
	}
	for a, m := range idx {
		if g.index[a] == "" {
			w.fail("gov-books", "%s: %s withdraws for %v, the index does not know", why, a, m)
		}
	}
}

func sameReg(a, b *types.Registration) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Name == b.Name && a.BlockProducingAddress == b.BlockProducingAddress && a.RewardWithdrawAddress == b.RewardWithdrawAddress && a.StakeAddress == b.StakeAddress &&
		a.Amount.Cmp(b.Amount) == 0 && a.ExpirationHeight == b.ExpirationHeight && a.RewardTime == b.RewardTime && a.RevokeTime == b.RevokeTime && fmt.Sprint(a.HisAddrList) == fmt.Sprint(b.HisAddrList)
}

// reward is what a producer is owed at a snapshot
type owed struct {
	from, to uint64
	days     bool
	amount   *big.Int
	next     int64 // the reward time afterwards
	drained  bool
}

func (w *world) owed(r *types.Registration, now int64) *owed {
	o := &owed{amount: new(big.Int)}
	if r.RewardTime < 0 {
		o.drained, o.next = true, -1
		return o
	}
	if r.RewardTime > genesisTime {
		o.from = uint64((r.RewardTime-1-genesisTime)/day) + 1
	}
	end := func(t int64) (i int64, e int64) { // last complete day before t, -1: none
		if t < genesisTime {
			return -1, genesisTime
		}
		i = (t-genesisTime)/day - 1
		return i, genesisTime + (i+1)*day
	}
	limit := now - 3600
	last, e := end(limit)
	if r.RevokeTime != 0 {
		if l2, e2 := end(r.RevokeTime); e2 <= limit {
			last, e = l2, e2
			o.drained = true
		}
	}
	o.next = e
	if o.drained {
		o.next = -1
	}
	if last < 0 || int64(o.from) > last {
		return o
	}
	o.days, o.to = true, uint64(last)
	rpb := big.NewInt(951293759512937595)
	for i := o.from; i <= o.to; i++ {
		d := w.sbp.dayStat(i)
		s := d.Stats[r.Name]
		if s == nil || s.ExceptedBlockNum == 0 {
			continue
		}
		st := vite18(1000000)
		if i == 0 {
			st = vite18(500000)
		}
		mul := func(l ...*big.Int) *big.Int {
			x := big.NewInt(1)
			for _, y := range l {
				x.Mul(x, y)
			}
			return x
		}
		u := func(n uint64) *big.Int { return new(big.Int).SetUint64(n) }
		v := mul(new(big.Int).Add(s.VoteCnt.Int, st), u(d.BlockTotal), big.NewInt(50), rpb, u(s.BlockNum))
		v.Div(v, new(big.Int).Add(mul(big.NewInt(int64(len(d.Stats))), st), d.VoteSum.Int))
		v.Div(v, u(s.ExceptedBlockNum))
		v.Div(v, big.NewInt(100))
		bl := mul(u(s.BlockNum), big.NewInt(50), rpb)
		bl.Div(bl, big.NewInt(100))
		o.amount.Add(o.amount, v)
		o.amount.Add(o.amount, bl)
	}
	return o
}

func (w *world) govStep(send, b *ledger.AccountBlock, pre, post dump) {
	name := method(abi.ABIGovernance, send.Data)
	o, n := w.gov(pre), w.gov(post)
	sb := w.confirmed(send)
	who := send.AccountAddress
	prm := new(abi.ParamRegister)
	rw := new(abi.ParamReward)
	switch name {
	case "Reward", "WithdrawReward", "WithdrawSBPReward":
		abi.ABIGovernance.UnpackMethod(rw, name, send.Data)
		prm.SbpName = rw.SbpName
	case "Vote", "VoteForSBP":
		x := new(abi.ParamVote)
		if name == "VoteForSBP" {
			abi.ABIGovernance.UnpackMethod(&x.SbpName, name, send.Data)
		} else {
			abi.ABIGovernance.UnpackMethod(x, name, send.Data)
		}
		prm.SbpName = x.SbpName
	case "CancelRegister", "Revoke":
		x := new(abi.ParamCancelRegister)
		abi.ABIGovernance.UnpackMethod(x, name, send.Data)
		prm.SbpName = x.SbpName
	case "RevokeSBP":
		abi.ABIGovernance.UnpackMethod(&prm.SbpName, name, send.Data)
	case "CancelVote", "CancelSBPVoting":
	default:
		abi.ABIGovernance.UnpackMethod(prm, name, send.Data)
	}
	p, s := o.regs[prm.SbpName], n.regs[prm.SbpName]
	if status(b) == 1 {
		switch name {
		case "Vote", "VoteForSBP":
			if p != nil && p.RevokeTime == 0 {
				w.fail("gov-refused", "%s cannot vote for the active producer %s", who, prm.SbpName)
			}
		case "CancelRegister", "Revoke", "RevokeSBP":
			if p != nil && p.RevokeTime == 0 && p.StakeAddress == who && p.ExpirationHeight <= sb.Height {
				w.fail("gov-refused", "%s cannot revoke %s although the lock ended at %d and the contract is at %d", who, prm.SbpName, p.ExpirationHeight, sb.Height)
			}
		case "Register", "RegisterSBP":
			if p == nil && o.his[prm.BlockProducingAddress] == "" && send.TokenId == viteId && send.Amount.Cmp(vite18(1000000)) == 0 {
				w.fail("gov-refused", "%s cannot register the new producer %s", who, prm.SbpName)
			}
		case "Reward", "WithdrawReward", "WithdrawSBPReward":
			if p != nil && p.RewardTime != -1 && (p.StakeAddress == who || p.RewardWithdrawAddress == who) {
				w.fail("gov-refused", "%s cannot withdraw the reward of its producer %s", who, prm.SbpName)
			}
		}
		return
	}
	if status(b) != 0 {
		return
	}
	for k, x := range n.regs {
		if k != prm.SbpName && !sameReg(o.regs[k], x) {
			w.fail("gov-step", "%s for %s changed the registration of %s", name, prm.SbpName, k)
		}
	}
	for k := range o.regs {
		if n.regs[k] == nil {
			w.fail("gov-step", "%s removed the registration of %s", name, k)
		}
	}
	vote := strings.Contains(name, "Vote") || strings.Contains(name, "Voting")
	for a, v := range n.votes {
		if o.votes[a] != v && !(vote && a == who) {
			w.fail("gov-step", "%s by %s changed the vote of %s", name, who, a)
		}
	}
	for a := range o.votes {
		if n.votes[a] == "" && !(vote && a == who) {
			w.fail("gov-step", "%s by %s removed the vote of %s", name, who, a)
		}
	}
	none := func() {
		if len(b.SendBlockList) > 0 {
			w.fail("gov-step", "%s sent something", name)
		}
	}
	switch name {
	case "Register", "RegisterSBP":
		wd := prm.RewardWithdrawAddress
		if name == "Register" {
			wd = who
		}
		if p != nil && (p.RevokeTime == 0 || p.StakeAddress != who) {
			w.fail("gov-step", "%s took over the name %s", who, prm.SbpName)
		}
		if p != nil {
			if x := w.owed(p, sb.Timestamp.Unix()); !x.drained || x.amount.Sign() != 0 {
				w.fail("gov-step", "%s was registered again while %v of reward is outstanding", prm.SbpName, x.amount)
			}
		}
		if x := o.his[prm.BlockProducingAddress]; x != "" && x != prm.SbpName {
			w.fail("gov-step", "%s was registered with the producing address of %s", prm.SbpName, x)
		}
		rh := w.gen.GovernanceInfo.ConsensusGroupInfoMap["00000000000000000001"].RegisterConditionParam.StakeHeight
		if s == nil || s.RevokeTime != 0 || s.StakeAddress != who || s.Amount.Cmp(send.Amount) != 0 || send.Amount.Cmp(vite18(1000000)) != 0 || send.TokenId != viteId ||
			s.BlockProducingAddress != prm.BlockProducingAddress || s.RewardWithdrawAddress != wd || s.ExpirationHeight != sb.Height+rh || s.RewardTime != sb.Timestamp.Unix() {
			w.fail("gov-step", "%s of %s with %v at height %d recorded %+v", name, prm.SbpName, send.Amount, sb.Height, s)
		}
		none()
		sim.Count("gov_registered", 1)
	case "CancelRegister", "Revoke", "RevokeSBP":
		if p == nil || p.RevokeTime != 0 || p.StakeAddress != who {
			w.fail("gov-theft", "%s revoked %s, which is not its own", who, prm.SbpName)
		}
		if p.ExpirationHeight > sb.Height {
			w.fail("gov-lock", "%s revoked at height %d, locked until %d", prm.SbpName, sb.Height, p.ExpirationHeight)
		}
		x := *p
		x.Amount, x.ExpirationHeight, x.RevokeTime, x.RewardTime = new(big.Int), 0, sb.Timestamp.Unix(), s.RewardTime
		if !sameReg(&x, s) {
			w.fail("gov-step", "revoking %s left %+v", prm.SbpName, s)
		}
		if s.RewardTime != p.RewardTime {
			if q := w.owed(p, sb.Timestamp.Unix()); s.RewardTime != -1 || !q.drained || q.amount.Sign() != 0 {
				w.fail("gov-step", "revoking %s moved its reward time from %d to %d", prm.SbpName, p.RewardTime, s.RewardTime)
			}
		}
		if y, only := sentTo(b, who, viteId); y.Cmp(p.Amount) != 0 || !only {
			w.fail("gov-step", "revoking %s returned %v of %v", prm.SbpName, y, p.Amount)
		}
		sim.Count("gov_revoked", 1)
	case "Reward", "WithdrawReward", "WithdrawSBPReward":
		if p == nil || (p.StakeAddress != who && p.RewardWithdrawAddress != who) {
			w.fail("gov-theft", "%s withdrew the reward of %s", who, prm.SbpName)
		}
		q := w.owed(p, sb.Timestamp.Unix())
		x := *p
		x.RewardTime = q.next
		if !sameReg(&x, s) {
			w.fail("reward", "withdrawing the reward of %s (reward time %d, revoke time %d) at time %d left reward time %d, due is %d", prm.SbpName, p.RewardTime, p.RevokeTime, sb.Timestamp.Unix(), s.RewardTime, q.next)
		}
		got := new(big.Int)
		if len(b.SendBlockList) > 0 {
			m := new(abi.ParamReIssue)
			y := b.SendBlockList[0]
			if len(b.SendBlockList) != 1 || y.ToAddress != types.AddressAsset || y.Amount.Sign() != 0 || abi.ABIAsset.UnpackMethod(m, "ReIssue", y.Data) != nil || m.TokenId != viteId || m.ReceiveAddress != rw.ReceiveAddress {
				w.fail("reward", "withdrawing the reward of %s sent %d transactions, first %x to %s", prm.SbpName, len(b.SendBlockList), y.Data, y.ToAddress)
			}
			got = m.Amount
		}
		if got.Cmp(q.amount) != 0 {
			w.fail("reward", "the reward of %s for days %d-%d is %v, granted was %v", prm.SbpName, q.from, q.to, q.amount, got)
		}
		if q.days {
			for _, y := range w.payouts(prm.SbpName) {
				if y.days && y.from <= q.to && q.from <= y.to {
					class, how := "reward-twice", ""
					if w.overtaken(prm.SbpName, y) {
						class, how = "reward-again", ", and a withdrawal confirmed before that one was executed after it"
					}
					w.fail(class, "the reward of %s for days %d-%d was already paid with days %d-%d%s", prm.SbpName, q.from, q.to, y.from, y.to, how)
				}
			}
			sim.Count("gov_rewards", 1)
		}
		w.paid[b.Hash] = &payout{name: prm.SbpName, days: q.days, from: q.from, to: q.to, amount: got, height: b.Height, confirmed: sb.Height}
	case "UpdateRegistration", "UpdateBlockProducingAddress", "UpdateSBPBlockProducingAddress", "UpdateSBPRewardWithdrawAddress":
		if p == nil || p.RevokeTime != 0 || p.StakeAddress != who {
			w.fail("gov-theft", "%s changed %s, which is not its own", who, prm.SbpName)
		}
		x := *p
		if name == "UpdateSBPRewardWithdrawAddress" {
			x.RewardWithdrawAddress = prm.RewardWithdrawAddress
		} else {
			x.BlockProducingAddress = prm.BlockProducingAddress
			x.HisAddrList = s.HisAddrList
			if y := o.his[prm.BlockProducingAddress]; y != "" && y != prm.SbpName {
				w.fail("gov-step", "%s took the producing address of %s", prm.SbpName, y)
			}
		}
		if !sameReg(&x, s) {
			w.fail("gov-step", "%s of %s left %+v", name, prm.SbpName, s)
		}
		none()
		sim.Count("gov_updated", 1)
	case "Vote", "VoteForSBP":
		if n.votes[who] != prm.SbpName || p == nil || p.RevokeTime != 0 || !sameReg(p, s) {
			w.fail("gov-step", "%s voted for %s (active: %v), recorded is %q", who, prm.SbpName, p != nil && p.RevokeTime == 0, n.votes[who])
		}
		none()
		sim.Count("gov_votes", 1)
	case "CancelVote", "CancelSBPVoting":
		if n.votes[who] != "" {
			w.fail("gov-step", "%s cancelled its vote, recorded is %q", who, n.votes[who])
		}
		none()
	default:
		w.fail("gov-step", "unknown method %q", name)
	}
}

// ------------------------------------------------------------------ asset

func (w *world) assets(d dump) (map[types.TokenTypeId]*types.TokenInfo, map[types.Address][]types.TokenTypeId) {
	m, l := map[types.TokenTypeId]*types.TokenInfo{}, map[types.Address][]types.TokenTypeId{}
	for k, v := range d {
		switch len(k) {
		case types.TokenTypeIdSize:
			t := new(types.TokenInfo)
			if err := abi.ABIAsset.UnpackVariable(t, abi.VariableNameTokenInfo, v); err != nil {
				w.fail("asset-garbled", "token %x does not decode: %v", k, err)
			}
			id, _ := types.BytesToTokenTypeId([]byte(k))
			m[id] = t
		case types.AddressSize:
			for i := 0; i+types.TokenTypeIdSize <= len(v); i += types.TokenTypeIdSize {
				id, _ := types.BytesToTokenTypeId(v[i : i+types.TokenTypeIdSize])
				l[addrOf([]byte(k))] = append(l[addrOf([]byte(k))], id)
			}
		}
	}
	return m, l
}

func (w *world) assetBooks(why string) {
	d := w.pre[types.AddressAsset]
	m, own := w.assets(d)
	sum := map[types.TokenTypeId]*big.Int{}
	add := func(t types.TokenTypeId, v *big.Int) {
		if v == nil || v.Sign() == 0 {
			return
		}
		if sum[t] == nil {
			sum[t] = new(big.Int)
		}
		sum[t].Add(sum[t], v)
	}
	for _, b := range w.bal {
		for t, v := range b {
			add(t, v)
		}
	}
	for _, l := range w.road {
		for _, s := range l {
			add(s.TokenId, s.Amount)
			add(viteId, s.Fee)
		}
	}
	add(viteId, w.feeBurnt)
	sym := map[string]types.TokenTypeId{}
	for id, t := range m {
		x := sum[id]
		if x == nil {
			x = new(big.Int)
		}
		if x.Cmp(t.TotalSupply) != 0 {
			w.fail("supply", "%s: accounts and transfers hold %v of %s, its supply is %v", why, x, t.TokenSymbol, t.TotalSupply)
		}
		if t.IsReIssuable && t.TotalSupply.Cmp(t.MaxSupply) > 0 {
			w.fail("supply", "%s: the supply of %s is %v, above its maximum %v", why, t.TokenSymbol, t.TotalSupply, t.MaxSupply)
		}
		k := fmt.Sprintf("%s-%d", t.TokenSymbol, t.Index)
		if y, ok := sym[k]; ok {
			w.fail("asset-books", "%s: %s names both %s and %s", why, k, id, y)
		}
		sym[k] = id
		nx := new(uint16)
		v := d[string(types.DataHash([]byte(t.TokenSymbol)).Bytes())]
		if abi.ABIAsset.UnpackVariable(nx, abi.VariableNameTokenIndex, v) != nil || t.Index >= *nx {
			w.fail("asset-books", "%s: %s has index %d, the next one is %d", why, id, t.Index, *nx)
		}
		n := 0
		for a, l := range own {
			for _, z := range l {
				if z == id {
					n++
					if a != t.Owner {
						w.fail("asset-books", "%s: %s is listed as owned by %s, its owner is %s", why, t.TokenSymbol, a, t.Owner)
					}
				}
			}
		}
		if n > 1 || (n == 0 && w.gen.AssetInfo.TokenInfoMap[id.Hex()] == nil) {
			w.fail("asset-books", "%s: %s is listed %d times among its owner's tokens", why, t.TokenSymbol, n)
		}
	}
	for t, v := range sum {
		if m[t] == nil && v.Sign() != 0 {
			w.fail("supply", "%s: %v of the unknown token %s exist", why, v, t)
		}
	}
}

func sameTok(a, b *types.TokenInfo) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.TokenName == b.TokenName && a.TokenSymbol == b.TokenSymbol && a.TotalSupply.Cmp(b.TotalSupply) == 0 && a.Decimals == b.Decimals && a.Owner == b.Owner &&
		a.MaxSupply.Cmp(b.MaxSupply) == 0 && a.OwnerBurnOnly == b.OwnerBurnOnly && a.IsReIssuable == b.IsReIssuable && a.Index == b.Index
}

func (w *world) assetStep(send, b *ledger.AccountBlock, pre, post dump) {
	name := method(abi.ABIAsset, send.Data)
	o, _ := w.assets(pre)
	n, _ := w.assets(post)
	who := send.AccountAddress
	ri := new(abi.ParamReIssue)
	tr := new(abi.ParamTransferOwnership)
	var id types.TokenTypeId
	switch name {
	case "Issue", "ReIssue":
		abi.ABIAsset.UnpackMethod(ri, name, send.Data)
		id = ri.TokenId
	case "TransferOwner", "TransferOwnership":
		abi.ABIAsset.UnpackMethod(tr, name, send.Data)
		id = tr.TokenId
	case "ChangeTokenType", "DisableReIssue":
		abi.ABIAsset.UnpackMethod(&id, name, send.Data)
	case "Burn":
		id = send.TokenId
	}
	p := o[id]
	if status(b) == 1 {
		switch name {
		case "Issue", "ReIssue":
			if p != nil && p.IsReIssuable && p.Owner == who && new(big.Int).Add(p.TotalSupply, ri.Amount).Cmp(p.MaxSupply) <= 0 {
				w.fail("asset-refused", "the owner of %s cannot issue %v more", p.TokenSymbol, ri.Amount)
			}
		case "Mint", "IssueToken":
			w.fail("asset-refused", "%s cannot issue a token", who)
		case "Burn":
			if p != nil && (!p.OwnerBurnOnly || p.Owner == who) {
				w.fail("asset-refused", "%s cannot burn %v of %s", who, send.Amount, p.TokenSymbol)
			}
		}
		return
	}
	if status(b) != 0 {
		return
	}
	var fresh []types.TokenTypeId
	for k, t := range n {
		if o[k] == nil {
			fresh = append(fresh, k)
			continue
		}
		if k != id && !sameTok(o[k], t) {
			w.fail("asset-step", "%s by %s changed %s", name, who, t.TokenSymbol)
		}
	}
	for k, t := range o {
		if n[k] == nil {
			w.fail("asset-step", "%s by %s removed %s", name, who, t.TokenSymbol)
		}
	}
	minted := func(to types.Address, t types.TokenTypeId, v *big.Int) {
		if len(b.SendBlockList) != 1 || b.SendBlockList[0].BlockType != ledger.BlockTypeSendReward || b.SendBlockList[0].ToAddress != to || b.SendBlockList[0].TokenId != t || b.SendBlockList[0].Amount.Cmp(v) != 0 {
			w.fail("asset-step", "%s by %s did not hand out %v to %s", name, who, v, to)
		}
	}
	if len(fresh) > 0 && name != "Mint" && name != "IssueToken" {
		w.fail("asset-step", "%s by %s created a token", name, who)
	}
	s := n[id]
	var x types.TokenInfo
	if p != nil {
		x = *p
	}
	switch name {
	case "Mint", "IssueToken":
		q := new(abi.ParamIssue)
		abi.ABIAsset.UnpackMethod(q, name, send.Data)
		if len(fresh) != 1 {
			w.fail("asset-step", "%s by %s created %d tokens", name, who, len(fresh))
		}
		t := n[fresh[0]]
		if t.TokenName != q.TokenName || t.TokenSymbol != q.TokenSymbol || t.TotalSupply.Cmp(q.TotalSupply) != 0 || t.Decimals != q.Decimals || t.Owner != who || t.MaxSupply.Cmp(q.MaxSupply) != 0 || t.IsReIssuable != q.IsReIssuable || t.OwnerBurnOnly != q.IsOwnerBurnOnly {
			w.fail("asset-step", "%s by %s asked for %+v, recorded %+v", name, who, q, t)
		}
		if send.Fee == nil || send.Fee.Cmp(vite18(1000)) != 0 {
			w.fail("asset-step", "%s by %s paid %v", name, who, send.Fee)
		}
		minted(who, fresh[0], q.TotalSupply)
		sim.Count("asset_issued", 1)
		return
	case "Issue", "ReIssue":
		if p == nil || !p.IsReIssuable || p.Owner != who {
			w.fail("asset-theft", "%s issued %v of %v", who, ri.Amount, p)
		}
		x.TotalSupply = new(big.Int).Add(p.TotalSupply, ri.Amount)
		minted(ri.ReceiveAddress, id, ri.Amount)
		sim.Count("asset_reissued", 1)
	case "Burn":
		if p == nil || (p.OwnerBurnOnly && p.Owner != who) {
			w.fail("asset-theft", "%s burnt %v of %v", who, send.Amount, p)
		}
		x.TotalSupply = new(big.Int).Sub(p.TotalSupply, send.Amount)
		sim.Count("asset_burnt", 1)
	case "TransferOwner", "TransferOwnership":
		if p == nil || !p.IsReIssuable || p.Owner != who {
			w.fail("asset-theft", "%s gave away %v", who, p)
		}
		x.Owner = tr.NewOwner
		sim.Count("asset_moved", 1)
	case "ChangeTokenType", "DisableReIssue":
		if p == nil || !p.IsReIssuable || p.Owner != who {
			w.fail("asset-theft", "%s closed %v", who, p)
		}
		x.IsReIssuable, x.MaxSupply, x.OwnerBurnOnly = false, new(big.Int), false
		sim.Count("asset_closed", 1)
	case "GetTokenInfo", "GetTokenInformation":
	default:
		w.fail("asset-step", "unknown method %q", name)
	}
	if p != nil && !sameTok(&x, s) {
		w.fail("asset-step", "%s of %s by %s left %+v", name, p.TokenSymbol, who, s)
	}
}

// ------------------------------------------------------------------ all books

func (w *world) checkBooks(why string) {
	w.quotaBooks(why)
	w.govBooks(why)
	w.assetBooks(why)
	if w.dexOn {
		w.dexBooks(why)
	}
	sim.Count("book_checks", 1)
}

// finalChecks: everything that was sent has arrived
func (w *world) finalChecks() {
	w.checkBooks("end")
	for _, a := range w.builtin {
		if n := len(w.road[a]); n > 0 {
			w.fail("stuck", "%d transactions to %s are never executed", n, short(a))
		}
	}
}

// payouts: the withdrawals of the reward of a producer, in the order of their execution
func (w *world) payouts(name string) (l []*payout) {
	for h, y := range w.paid {
		if w.blocks[h] && y.name == name {
			l = append(l, y)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].height < l[j].height })
	return
}

// overtaken: after the withdrawal y one was executed that an earlier snapshot than that of y confirmed
func (w *world) overtaken(name string, y *payout) bool {
	for _, z := range w.payouts(name) {
		if z.height > y.height && z.confirmed < y.confirmed {
			return true
		}
	}
	return false
}
