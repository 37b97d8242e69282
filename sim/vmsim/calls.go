package vmsim

import (
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	vmabi "github.com/vitelabs/go-vite/v2/vm/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

func pack(a vmabi.ABIContract, name string, args ...interface{}) []byte {
	d, err := a.PackMethod(name, args...)
	if err != nil {
		sim.Bug("pack %s: %v", name, err)
	}
	return d
}

func (w *world) user(r *sim.Rand) types.Address { return w.users[r.N(len(w.users))] }

func amountNear(r *sim.Rand, x *big.Int) *big.Int {
	switch r.N(4) {
	case 0:
		return new(big.Int).Set(x)
	case 1:
		return new(big.Int).Div(x, big.NewInt(int64(r.Range(2, 5))))
	case 2:
		return new(big.Int).Sub(x, vite18(int64(r.N(300))))
	}
	return new(big.Int).Add(x, big.NewInt(int64(r.N(3))-1))
}

func (w *world) call(cat int, r *sim.Rand) {
	switch cat {
	case 0:
		w.callQuota(r)
	case 1:
		w.callGov(r)
	case 2:
		w.callAsset(r)
	case 3:
		u := w.user(r)
		t := viteId
		if r.P(1, 3) {
			t = w.tokens[r.N(len(w.tokens))].id
		}
		w.send(u, w.user(r), t, big.NewInt(int64(r.N(1e9))), nil)
	case 7:
		w.callContracts(r)
	case 8:
		w.spend(r)
	case 9:
		w.restake(r)
	default:
		w.callDex(cat, r)
	}
}

func (w *world) callQuota(r *sim.Rand) {
	u := w.user(r)
	amount := vite18(int64(r.Range(134, 600)))
	if r.P(1, 10) {
		amount = vite18(133)
	}
	if r.P(1, 3) {
		amount.Add(amount, big.NewInt(int64(r.N(1e9))))
	}
	ben := w.user(r)
	if r.P(1, 6) {
		ben = w.builtin[r.N(len(w.builtin))]
	}
	q := types.AddressQuota
	if l := w.stakeList(); len(l) > 0 && r.P(1, 2) {
		w.cancelStake(l[r.N(len(l))], u, r)
		return
	}
	switch r.Pick(2, 3, 2, 2) {
	case 0:
		w.send(u, q, viteId, amount, pack(abi.ABIQuota, []string{"Pledge", "Stake"}[r.N(2)], ben))
	case 1:
		w.send(u, q, viteId, amount, pack(abi.ABIQuota, "StakeForQuota", ben))
	case 2:
		w.send(u, q, viteId, amount, pack(abi.ABIQuota, "StakeForQuotaWithCallback", ben, uint64(r.Range(600, 700))))
	case 3:
		w.send(u, q, viteId, amount, pack(abi.ABIQuota, []string{"AgentPledge", "DelegateStake"}[r.N(2)], w.user(r), ben, uint8(r.N(2)), uint64(r.Range(600, 700))))
	}
}

// stakeList: the stakes of the users in a fixed order
func (w *world) stakeList() []*stake {
	m, _ := w.stakes(w.pre[types.AddressQuota])
	var ks []string
	for k, s := range m {
		if s.owner != *w.gen.GenesisAccountAddress {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var l []*stake
	for _, k := range ks {
		l = append(l, m[k])
	}
	return l
}

func (w *world) cancelStake(s *stake, u types.Address, r *sim.Rand) {
	q := types.AddressQuota
	who := s.owner
	if s.isDeleg {
		who = s.deleg
	}
	if r.P(1, 5) || isBuiltin(who) {
		who = u
	}
	x := amountNear(r, s.amount)
	switch {
	case s.id != nil && r.P(9, 10):
		w.send(who, q, viteId, big.NewInt(0), pack(abi.ABIQuota, []string{"CancelQuotaStaking", "CancelQuotaStakingWithCallback"}[r.N(2)], *s.id))
	case s.isDeleg:
		w.send(who, q, viteId, big.NewInt(0), pack(abi.ABIQuota, []string{"AgentCancelPledge", "CancelDelegateStake"}[r.N(2)], s.owner, s.benef, x, s.bid))
	default:
		w.send(who, q, viteId, big.NewInt(0), pack(abi.ABIQuota, []string{"CancelPledge", "CancelStake"}[r.N(2)], s.benef, x))
	}
}

// due lets a lock run to its end, give or take a block, and takes the money back right there
func (w *world) due(r *sim.Rand) {
	if w.dueDex(r) {
		return
	}
	var ends []uint64
	var acts []func()
	for _, s := range w.stakeList() {
		s := s
		ends = append(ends, s.exp)
		acts = append(acts, func() { w.cancelStake(s, w.user(r), r) })
	}
	regs := w.gov(w.pre[types.AddressGovernance]).regs
	for _, n := range sbpNames {
		if p := regs[n]; p != nil && p.RevokeTime == 0 && !isBuiltin(p.StakeAddress) {
			n := n
			ends = append(ends, p.ExpirationHeight)
			acts = append(acts, func() {
				w.send(p.StakeAddress, types.AddressGovernance, viteId, big.NewInt(0), pack(abi.ABIGovernance, []string{"CancelRegister", "Revoke"}[r.N(2)], types.SNAPSHOT_GID, n))
			})
		}
	}
	if len(acts) == 0 {
		return
	}
	i := r.N(len(acts))
	at := ends[i] + uint64(r.N(3)) - 1 // the height the contract is to see
	h := w.ch.GetLatestSnapshotBlock().Height
	if at > h+1 && at-h < 720 {
		w.empty(int(at-h-1), 1)
	}
	if w.node.IsDead {
		return
	}
	acts[i]()
	w.snap(1)
	for k := 0; k < 6 && !w.node.IsDead; k++ {
		l := w.heads()
		if len(l) == 0 {
			return
		}
		w.receive(l[r.N(len(l))])
		if w.opIdx < 0 {
			return
		}
	}
}

// dueDex does the same for what users staked through the exchange
func (w *world) dueDex(r *sim.Rand) bool {
	ends := map[string]uint64{}
	for _, s := range w.stakeList() {
		if s.owner == types.AddressDexFund && s.id != nil {
			ends[string(s.id.Bytes())] = s.exp
		}
	}
	var ds []*dex.DelegateStakeInfo
	for _, d := range w.dexStakes(w.pre[types.AddressDexFund]) {
		if ends[string(d.Id)] > 0 {
			ds = append(ds, d)
			if d.StakeType != dex.StakeForMining {
				ds = append(ds, d, d)
			}
		}
	}
	if len(ds) == 0 || r.P(1, 4) {
		return false
	}
	d := ds[r.N(len(ds))]
	at := ends[string(d.Id)] + uint64(r.N(3)) - 1
	h := w.ch.GetLatestSnapshotBlock().Height
	if at > h+1 && at-h < 720 {
		w.empty(int(at-h-1), 1)
	}
	for i := r.N(3); i >= 0 && !w.node.IsDead; i-- {
		id, _ := types.BytesToHash(d.Id)
		w.fund(addrOf(d.Address), "CancelStakeById", id)
		d = ds[r.N(len(ds))]
	}
	for k := 0; k < 3 && !w.node.IsDead; k++ {
		w.snap(1)
		for _, a := range []types.Address{types.AddressDexFund, types.AddressQuota} {
			w.takeUp(a, r, true)
		}
	}
	sim.Count("exchange_stakes_due", 1)
	return true
}

func (w *world) callGov(r *sim.Rand) {
	g := types.AddressGovernance
	A := abi.ABIGovernance
	u := w.user(r)
	name := sbpNames[r.N(len(sbpNames))]
	bp := userAddr(100 + r.N(8))
	st := w.gov(w.pre[g])
	p := st.regs[name]
	if p != nil && r.P(5, 6) {
		u = p.StakeAddress
		if r.P(1, 4) && p.RewardWithdrawAddress != u {
			u = p.RewardWithdrawAddress
		}
		if isBuiltin(u) {
			u = w.user(r)
		}
	}
	zero := big.NewInt(0)
	gid := types.SNAPSHOT_GID
	wReg := 1
	if p == nil || p.RevokeTime != 0 {
		wReg = 6
	}
	switch r.Pick(wReg, 3, 2, 2, 4, 3, 2) {
	case 0:
		amount := vite18(1000000)
		if r.P(1, 8) {
			amount = vite18([]int64{500000, 100000, 1000001}[r.N(3)])
		}
		if p != nil && r.P(1, 2) {
			bp = p.BlockProducingAddress
		}
		if r.P(1, 3) {
			w.send(u, g, viteId, amount, pack(A, "Register", gid, name, bp))
		} else {
			w.send(u, g, viteId, amount, pack(A, "RegisterSBP", name, bp, w.user(r)))
		}
	case 1:
		switch r.N(3) {
		case 0:
			w.send(u, g, viteId, zero, pack(A, "CancelRegister", gid, name))
		case 1:
			w.send(u, g, viteId, zero, pack(A, "Revoke", gid, name))
		case 2:
			w.send(u, g, viteId, zero, pack(A, "RevokeSBP", name))
		}
	case 2:
		switch r.N(3) {
		case 0:
			w.send(u, g, viteId, zero, pack(A, "UpdateRegistration", gid, name, bp))
		case 1:
			w.send(u, g, viteId, zero, pack(A, "UpdateBlockProducingAddress", gid, name, bp))
		case 2:
			w.send(u, g, viteId, zero, pack(A, "UpdateSBPBlockProducingAddress", name, bp))
		}
	case 3:
		w.send(u, g, viteId, zero, pack(A, "UpdateSBPRewardWithdrawAddress", name, w.user(r)))
	case 4:
		to := w.user(r)
		switch r.N(3) {
		case 0:
			w.send(u, g, viteId, zero, pack(A, "Reward", gid, name, to))
		case 1:
			w.send(u, g, viteId, zero, pack(A, "WithdrawReward", gid, name, to))
		case 2:
			w.send(u, g, viteId, zero, pack(A, "WithdrawSBPReward", name, to))
		}
	case 5:
		u = w.user(r)
		if r.P(1, 2) {
			w.send(u, g, viteId, zero, pack(A, "Vote", gid, name))
		} else {
			w.send(u, g, viteId, zero, pack(A, "VoteForSBP", name))
		}
	case 6:
		u = w.user(r)
		if r.P(1, 2) {
			w.send(u, g, viteId, zero, pack(A, "CancelVote", gid))
		} else {
			w.send(u, g, viteId, zero, pack(A, "CancelSBPVoting"))
		}
	}
}

func (w *world) callAsset(r *sim.Rand) {
	a := types.AddressAsset
	A := abi.ABIAsset
	u := w.user(r)
	m, _ := w.assets(w.pre[a])
	var ids []types.TokenTypeId
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].Hex() < ids[j].Hex() })
	id := ids[r.N(len(ids))]
	t := m[id]
	if r.P(4, 5) && !isBuiltin(t.Owner) {
		u = t.Owner
	}
	zero := big.NewInt(0)
	switch r.Pick(3, 4, 4, 3, 1) {
	case 0:
		re := r.P(2, 3)
		dec := uint8(r.N(19))
		sup := big.NewInt(int64(r.N(1e9)))
		max := zero
		ob := false
		if re {
			max = new(big.Int).Add(sup, big.NewInt(int64(r.N(1e9))))
			ob = r.P(1, 3)
		}
		w.send(w.user(r), a, viteId, zero, pack(A, []string{"Mint", "IssueToken"}[r.N(2)], re, "New Token", []string{"NEW", "TKA"}[r.N(2)], sup, dec, max, ob))
	case 1:
		x := big.NewInt(int64(r.N(1e9)) + 1)
		if r.P(1, 3) {
			x = new(big.Int).Sub(t.MaxSupply, t.TotalSupply)
			x.Add(x, big.NewInt(int64(r.N(3))-1))
			if x.BitLen() > 200 {
				x = big.NewInt(5)
			}
		}
		if id == viteId || x.Sign() <= 0 {
			x = big.NewInt(7)
		}
		w.send(u, a, viteId, zero, pack(A, []string{"Issue", "ReIssue"}[r.N(2)], id, x, w.user(r)))
	case 2:
		u = w.user(r)
		if b := w.b(u, id); b.Sign() > 0 {
			x := new(big.Int).Div(b, big.NewInt(int64(r.Range(1, 50))))
			if id == viteId {
				x = vite18(1)
			}
			if x.Sign() > 0 {
				w.send(u, a, id, x, pack(A, "Burn"))
			}
		}
	case 3:
		w.send(u, a, viteId, zero, pack(A, []string{"TransferOwner", "TransferOwnership"}[r.N(2)], id, w.user(r)))
	case 4:
		if w.gen.AssetInfo.TokenInfoMap[id.Hex()] == nil || r.P(1, 4) {
			w.send(u, a, viteId, zero, pack(A, []string{"ChangeTokenType", "DisableReIssue"}[r.N(2)], id))
		}
	}
}
