package vmsim

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/vm_db"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

// ------------------------------------------------------------------ user contracts

const createHead = types.GidSize + 4

// contracts on the chain, in the order the harness met them
func (w *world) contracts() (l []types.Address) {
	for _, a := range w.accounts {
		if w.created[a] != nil {
			l = append(l, a)
		}
	}
	return
}

func (w *world) isContract(a types.Address) bool { return w.created[a] != nil }

func (w *world) noteCreate(s *ledger.AccountBlock) {
	if s.BlockType != ledger.BlockTypeSendCreate {
		return
	}
	if w.created[s.ToAddress] != nil {
		w.fail("contract-address", "two creations have the address %s", s.ToAddress)
	}
	w.created[s.ToAddress] = s
	delete(w.codes, s.ToAddress)
	for _, a := range w.accounts {
		if a == s.ToAddress {
			return
		}
	}
	w.accounts = append(w.accounts, s.ToAddress)
	w.pre[s.ToAddress], w.bal[s.ToAddress] = dump{}, map[types.TokenTypeId]*big.Int{}
}

func confirms(s *ledger.AccountBlock) uint64 { return uint64(s.Data[types.GidSize+1]) }

// confirmHeight of a transaction, 0 if no snapshot has it yet
func (w *world) confirmHeight(h types.Hash) uint64 {
	sb, err := w.ch.GetConfirmSnapshotHeaderByAbHash(h)
	w.must(err, "confirming snapshot")
	if sb == nil {
		return 0
	}
	return sb.Height
}

// ready: may the contract execute s now?
func (w *world) ready(s *ledger.AccountBlock) bool {
	if s.BlockType != ledger.BlockTypeSendCreate {
		last, err := w.ch.GetLatestAccountBlock(s.ToAddress)
		w.must(err, "latest block")
		if last == nil {
			return false
		}
	}
	n, err := w.ch.GetConfirmedTimes(s.Hash)
	w.must(err, "confirmed times")
	return n >= confirms(w.created[s.ToAddress])
}

// refFor prepares the reference execution of s by its contract on the present state
func (w *world) refFor(s *ledger.AccountBlock, prev *ledger.AccountBlock, b *ledger.AccountBlock, code []byte, storage dump, bal map[types.TokenTypeId]*big.Int) *refIn {
	a := s.ToAddress
	in := &refIn{code: code, data: s.Data, addr: a, caller: s.AccountAddress, value: s.Amount, token: s.TokenId, fromHash: s.Hash, storage: storage, maxMem: 1 << 20, maxSt: 1100000}
	if s.BlockType == ledger.BlockTypeSendCreate {
		in.data = code
	}
	in.balance = func(t types.TokenTypeId) *big.Int {
		x := new(big.Int)
		if v := bal[t]; v != nil {
			x.Set(v)
		}
		if t == s.TokenId {
			x.Add(x, s.Amount)
		}
		return x
	}
	if prev != nil {
		in.accHeight, in.prevHash = prev.Height, prev.Hash
	}
	at, sure := w.confirmHeight(s.Hash), true
	if n := confirms(w.created[a]); n > 0 {
		at += n - 1
		sb, err := w.ch.GetSnapshotBlockByHeight(at)
		w.must(err, "snapshot")
		in.time, in.height = big.NewInt(sb.Timestamp.Unix()), new(big.Int).SetUint64(at)
	} else if at == 0 {
		at, sure = w.ch.GetLatestSnapshotBlock().Height, false
	}
	in.exists = func(x types.Address) int {
		if !types.IsContractAddr(x) || isBuiltin(x) {
			return 1
		}
		if c := w.created[x]; c != nil {
			if h := w.confirmHeight(c.Hash); h > 0 && h <= at {
				return 1
			}
		}
		if !sure {
			return -1
		}
		return 0
	}
	in.sendHash = func(i int) *types.Hash {
		if b != nil && i < len(b.SendBlockList) && status(b) == 0 {
			return &b.SendBlockList[i].Hash
		}
		return nil
	}
	return in
}

func (w *world) codeOf(a types.Address) []byte {
	c, err := w.ch.GetContractCode(a)
	w.must(err, "code")
	if len(c) > 0 {
		if c[0] != 1 {
			w.fail("contract-code", "contract %s has code of type %d", a, c[0])
		}
		return c[1:]
	}
	return nil
}

// depthOf a transaction: how many contracts called each other before it
func (w *world) depthOf(h types.Hash) int {
	d := 0
	for {
		p, ok := w.parent[h]
		if !ok {
			return d
		}
		h = p
		d++
	}
}

// contractStep judges one execution of a user contract
func (w *world) contractStep(s, b *ledger.AccountBlock, pre, post dump, bal map[types.TokenTypeId]*big.Int) {
	a := b.AccountAddress
	mk := w.created[a]
	code := w.codeOf(a)
	var prev *ledger.AccountBlock
	if b.Height > 1 {
		p, err := w.ch.GetAccountBlockByHeight(a, b.Height-1)
		w.must(err, "previous block")
		if p == nil {
			w.fail("read-error", "contract %s has no block %d", a, b.Height-1)
		}
		prev = p
	}
	meta, err := w.ch.GetContractMeta(a)
	w.must(err, "meta")
	if meta == nil || !bytes.Equal(meta.Gid.Bytes(), mk.Data[:types.GidSize]) || uint64(meta.SendConfirmedTimes) != confirms(mk) || meta.QuotaRatio != mk.Data[createHead-1] || meta.SeedConfirmedTimes != mk.Data[createHead-2] || meta.CreateBlockHash != mk.Hash {
		w.fail("contract-meta", "contract %s was created with %x, its record is %+v", a, mk.Data[:createHead], meta)
	}
	var exp *refOut
	create := s.BlockType == ledger.BlockTypeSendCreate
	switch {
	case create:
		in := w.refFor(s, nil, b, s.Data[createHead:], dump{}, nil)
		exp = refRun(in)
	case s.BlockType == ledger.BlockTypeSendRefund:
		exp = &refOut{ok: true, storage: pre}
	case w.depthOf(s.Hash) >= 512:
		exp = &refOut{ok: false, why: "depth", storage: pre}
	default:
		exp = refRun(w.refFor(s, prev, b, w.codes[a], pre, bal))
	}
	st := status(b)
	tag := ""
	if exp.sar0 {
		tag = " (shifts zero right by 256 or more, arithmetically)"
	}
	fail := func(class, f string, x ...interface{}) {
		w.fail(class, fmt.Sprintf("contract %s executing %x of %s, code %x: ", a, s.Data, s.AccountAddress, w.codes[a])+f+tag, x...)
	}
	sim.Count("ref_"+map[bool]string{true: "ok", false: exp.why}[exp.ok], 1)
	if exp.steps > 0 {
		sim.Count("ref_steps", int64(exp.steps))
	}
	// a loop without end: no quota pays for so many instructions (1000000 at most, each costs at least 1)
	// what it wants to send must be covered
	ok, why := exp.ok, exp.why
	if ok && s.BlockType != ledger.BlockTypeSendRefund {
		left := map[types.TokenTypeId]*big.Int{}
		get := func(t types.TokenTypeId) *big.Int {
			if left[t] == nil {
				x := new(big.Int)
				if v := bal[t]; v != nil {
					x.Set(v)
				}
				if t == s.TokenId {
					x.Add(x, s.Amount)
				}
				left[t] = x
			}
			return left[t]
		}
		for _, c := range exp.calls {
			x := get(c.token)
			if x.Cmp(c.amount) < 0 {
				ok, why = false, "overdraft"
				break
			}
			x.Sub(x, c.amount)
		}
	}
	if ok && create && len(exp.ret) > 24575 {
		ok, why = false, "code size"
	}
	if why == "retry" && create {
		fail("creation-timing", "the creation was executed before its request was confirmed, and its result is %d; nobody can know yet whether the contract it calls exists, and executed later it may succeed", st)
	}
	if why == "retry" {
		fail("contract-early", "it was executed though nobody can know yet whether the contract it calls exists")
	}
	outOfQuota := b.BlockType == ledger.BlockTypeReceiveError || (create && st == 1 && ok)
	if outOfQuota {
		sim.Count("out_of_quota", 1)
		if s.BlockType == ledger.BlockTypeSendRefund {
			fail("contract-status", "a refund fails")
		}
		ok, why = false, "out of quota"
	}
	if exp.unknown && st != 0 {
		sim.Count("ref_unknown", 1)
		ok = false
	}
	want := 1
	if ok {
		want = 0
	}
	if why == "depth" {
		want = 2
	}
	if s.BlockType == ledger.BlockTypeSendRefund {
		want = st
	}
	if st != want {
		fail("contract-status", "its result is %d, should be %d (%s)", st, want, why)
	}
	if !ok {
		if k := eqDump(pre, post); k != "" {
			fail("contract-failed-changed", "it failed (%s) and changed storage key %x", why, k)
		}
		if b.LogHash != nil {
			fail("contract-failed-changed", "it failed (%s) and left a log", why)
		}
		n := 0
		if s.Amount.Sign() > 0 && want == 1 {
			n = 1
		}
		if len(b.SendBlockList) != n {
			fail("contract-refund", "it failed (%s) with %v sent along and sends %d transactions", why, s.Amount, len(b.SendBlockList))
		}
		if n == 1 {
			x := b.SendBlockList[0]
			if x.BlockType != ledger.BlockTypeSendRefund || x.ToAddress != s.AccountAddress || x.TokenId != s.TokenId || x.Amount.Cmp(s.Amount) != 0 || len(x.Data) != 0 || (x.Fee != nil && x.Fee.Sign() != 0) {
				fail("contract-refund", "it failed (%s); the refund is %d %v %v to %s, should be %v %v to %s", why, x.BlockType, x.Amount, x.TokenId, x.ToAddress, s.Amount, s.TokenId, s.AccountAddress)
			}
		}
		if create && len(code) != 0 {
			fail("contract-code", "its creation failed (%s) and it has code", why)
		}
		if create {
			w.codes[a] = nil
		} else if !bytes.Equal(code, w.codes[a]) {
			fail("contract-code", "its code has changed to %x", code)
		}
		return
	}
	if create {
		w.codes[a] = exp.ret
	}
	if !bytes.Equal(code, w.codes[a]) {
		fail("contract-code", "its code is %x", code)
	}
	if k := eqDump(exp.storage, post); k != "" {
		fail("contract-storage", "storage key %x is %x, should be %x (was %x)", k, post[k], exp.storage[k], pre[k])
	}
	if len(b.SendBlockList) != len(exp.calls) {
		fail("contract-sends", "it sends %d transactions, should send %d", len(b.SendBlockList), len(exp.calls))
	}
	for i, c := range exp.calls {
		x := b.SendBlockList[i]
		if x.BlockType != ledger.BlockTypeSendCall || x.AccountAddress != a || x.ToAddress != c.to || x.TokenId != c.token || x.Amount.Cmp(c.amount) != 0 || !bytes.Equal(x.Data, c.data) || (x.Fee != nil && x.Fee.Sign() != 0) {
			fail("contract-sends", "transaction %d is type %d %v %s to %s data %x, should be %v %s to %s data %x", i, x.BlockType, x.Amount, x.TokenId, x.ToAddress, x.Data, c.amount, c.token, c.to, c.data)
		}
	}
	var logs ledger.VmLogList
	if b.LogHash != nil {
		logs, err = w.ch.GetVmLogList(b.LogHash)
		w.must(err, "logs")
	}
	if len(logs) != len(exp.logs) {
		fail("contract-logs", "it has %d log entries, should have %d", len(logs), len(exp.logs))
	}
	for i, l := range exp.logs {
		g := logs[i]
		if !bytes.Equal(g.Data, l.data) || fmt.Sprint(g.Topics) != fmt.Sprint(l.topics) {
			fail("contract-logs", "log entry %d is %v %x, should be %v %x", i, g.Topics, g.Data, l.topics, l.data)
		}
	}
}

// query: a read-only execution outside the chain changes nothing and answers what the code says
func (w *world) query(a types.Address, data []byte) {
	died := w.in(func() {
		sb := w.ch.GetLatestSnapshotBlock()
		last, err := w.ch.GetLatestAccountBlock(a)
		w.must(err, "latest block")
		if last == nil || w.codes[a] == nil {
			return
		}
		db, err := vm_db.NewVmDb(w.ch, &a, &sb.Hash, &last.Hash)
		w.must(err, "vm db")
		got, err := vm.NewVM(nil).OffChainReader(db, w.codes[a], data)
		none := types.Hash{}
		in := &refIn{code: w.codes[a], data: data, addr: a, value: new(big.Int), storage: w.pre[a], time: new(big.Int), height: new(big.Int), accHeight: last.Height, prevHash: last.Hash, fromHash: none, offchain: true, maxMem: 1 << 20, maxSt: 1100000}
		in.balance = func(t types.TokenTypeId) *big.Int { return w.b(a, t) }
		exp := refRun(in)
		tag := ""
		if exp.sar0 {
			tag = " (shifts zero right by 256 or more, arithmetically)"
		}
		if err == util.ErrOutOfQuota || err == util.ErrNoReliableStatus {
			sim.Count("query_no_answer", 1)
			return
		}
		if exp.ok != (err == nil) || exp.ok && !bytes.Equal(exp.ret, got) {
			w.fail("contract-query", "a query of contract %s, code %x, data %x answers %x, %v; should answer %x (%s)%s", a, w.codes[a], data, got, err, exp.ret, exp.why, tag)
		}
		sim.Count("queries", 1)
	})
	if died != "" {
		w.recoverNow()
	}
}

// ------------------------------------------------------------------ operations

func (w *world) create(u types.Address, t types.TokenTypeId, amount *big.Int, data []byte) bool {
	return w.sendMsg(&interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCreate, AccountAddress: u, TokenId: &t, Amount: amount, Data: data})
}

func (w *world) input(r *sim.Rand) []byte {
	if r.P(1, 8) {
		b := make([]byte, r.N(70))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	}
	a := &asm{r: r}
	d := word(big.NewInt(int64([]int{0, 1, 1, 1, 2, 2, 3, 4}[r.N(8)])))
	for n := r.N(6); n > 0; n-- {
		d = append(d, word(a.constant())...)
	}
	return d
}

func (w *world) callContracts(r *sim.Rand) {
	u := w.user(r)
	cs := w.contracts()
	t := viteId
	if r.P(1, 3) {
		t = w.tokens[r.N(len(w.tokens))].id
	}
	amount := big.NewInt(int64(r.N(1000)))
	if r.P(1, 3) {
		amount.SetInt64(0)
	}
	k := r.Pick(4, 14, 4, 2, 1)
	if len(cs) == 0 {
		k = 0
	}
	switch k {
	case 0:
		if len(cs) > 8 {
			return
		}
		conf := uint8([]int{0, 0, 1, 1, 2, 3}[r.N(6)])
		snap := conf > 0 || r.P(1, 12)
		code := w.contract(r, snap, conf > 0 || r.P(1, 400))
		if w.c.Params["deep"] == 1 && r.P(1, 3) {
			code = deeper()
		}
		mult := uint8(10)
		if r.P(1, 4) {
			mult = uint8(r.Range(8, 102))
		}
		typ := uint8(1)
		if r.P(1, 30) {
			typ = uint8(r.N(4))
		}
		w.create(u, t, amount, util.GetCreateContractData(code, typ, conf, 0, mult, types.DELEGATE_GID))
	case 1:
		c := cs[r.N(len(cs))]
		if bytes.Equal(w.created[c].Data[createHead:], deeper()) {
			return
		}
		w.send(u, c, t, amount, w.input(r))
	case 2: // quota for it
		c := cs[r.N(len(cs))]
		w.send(u, types.AddressQuota, viteId, vite18(int64([]int{200, 5000, 300000, 1000000}[r.N(4)])), pack(abi.ABIQuota, "StakeForQuota", c))
	case 3:
		w.query(cs[r.N(len(cs))], w.input(r))
	case 4: // contracts that call each other as deep as they may
		if w.c.Params["deep"] != 1 || w.wentDeep {
			return
		}
		for _, c := range cs {
			if bytes.Equal(w.codes[c], deeper()[12:]) {
				w.goDeep(r, u, c, t, amount)
				return
			}
		}
	}
}

func (w *world) goDeep(r *sim.Rand, u, c types.Address, t types.TokenTypeId, amount *big.Int) {
	if !w.send(u, types.AddressQuota, viteId, vite18(1000000), pack(abi.ABIQuota, "StakeForQuota", c)) || !w.send(u, c, t, amount, nil) {
		return
	}
	w.wentDeep = true
	for i := 0; i < 600 && w.opIdx >= 0; i++ {
		l := w.road[c]
		if len(l) == 0 || w.created[c] == nil {
			break
		}
		n := 0
		for _, s := range w.heads() {
			if (s.ToAddress == c || s.ToAddress == types.AddressQuota) && w.receive(s) {
				n++
			}
		}
		if n == 0 || r.P(1, 10) {
			w.snap(1)
		}
		if r.P(1, 100) {
			w.rollback(uint64(r.Range(1, 4)))
		}
	}
	sim.Count("went_deep", 1)
}
