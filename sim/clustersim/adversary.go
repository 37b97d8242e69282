package clustersim

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/pow"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
)

func (u *user) seal(b *ledger.AccountBlock) {
	b.Hash = b.ComputeHash()
	b.PublicKey = u.priv.PubByte()
	b.Signature = ed25519.Sign(u.priv, b.Hash.Bytes())
}

// base is a well-formed block of u on top of its chain as the node sees it.
func (cl *cluster) base(v *vite.Vite, a types.Address) (*ledger.AccountBlock, error) {
	head, err := v.Chain().GetLatestAccountBlock(a)
	if err != nil {
		return nil, err
	}
	vt := ledger.ViteTokenId
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: a, Height: 1, Amount: big.NewInt(0), Fee: big.NewInt(0), TokenId: vt}
	if head != nil {
		b.Height, b.PrevHash = head.Height+1, head.Hash
	}
	return b, nil
}

var badNames = []string{"double-receive", "receive-of-another", "overspend", "bad-signature", "impersonation", "gap", "fork", "mint", "refund", "contract-receive", "first-send", "fee", "amount-in-receive", "unknown-send", "tampered", "wrong-token", "sends-in-receive", "data-in-receive", "bad-prev", "bad-work", "contract-stranger", "contract-order", "contract-garbled-send", "contract-altered-send", "contract-height"}

// offered: the forgery was made and offered to a node
type offered string

func (o offered) Error() string { return string(o) }

// badTx makes a block that no ledger may contain (or, for "fork", that competes with another one), and
// offers it to the network like a client or a neighbour would.
func (cl *cluster) badTx(n *cnode, v *vite.Vite, u *user, r *core.Rand) error {
	k := r.N(len(badNames))
	if r.P(1, 3) {
		k = len(badNames) - 1 - r.N(5) // blocks of contracts
	}
	b, err := cl.base(v, u.addr)
	if err != nil {
		return err
	}
	signer := u
	to := cl.users[r.N(len(cl.users))]
	b.ToAddress = to.addr
	recv := func(h types.Hash) {
		b.BlockType, b.FromBlockHash, b.ToAddress, b.TokenId, b.Amount, b.Fee = ledger.BlockTypeReceive, h, types.Address{}, types.ZERO_TOKENID, nil, nil
	}
	switch badNames[k] {
	case "double-receive":
		var found *types.Hash
		for h := b.PrevHash; ; {
			x, err := v.Chain().GetAccountBlockByHash(h)
			if err != nil || x == nil {
				break
			}
			if x.BlockType == ledger.BlockTypeReceive {
				f := x.FromBlockHash
				found = &f
				if r.P(1, 2) {
					break
				}
			}
			h = x.PrevHash
		}
		if found == nil {
			return fmt.Errorf("nothing received yet")
		}
		recv(*found)
	case "receive-of-another", "amount-in-receive", "sends-in-receive", "data-in-receive":
		other := to.addr
		if badNames[k] != "receive-of-another" {
			other = u.addr
		} else if to == u {
			return fmt.Errorf("the same")
		}
		l, err := v.Chain().GetOnRoadBlocksByAddr(other, 0, 10)
		if err != nil || len(l) == 0 {
			return fmt.Errorf("nothing on the road")
		}
		recv(l[r.N(len(l))].Hash)
		switch badNames[k] {
		case "amount-in-receive":
			b.Amount, b.TokenId = vite18(1000), ledger.ViteTokenId
		case "data-in-receive":
			b.Data = []byte{1, 2, 3}
		case "sends-in-receive":
			s := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: u.addr, ToAddress: to.addr, Amount: vite18(5), Fee: big.NewInt(0), TokenId: ledger.ViteTokenId}
			b.SendBlockList = []*ledger.AccountBlock{s}
			s.Hash = s.ComputeSendHash(b, 0)
		}
	case "overspend":
		bal, err := v.Chain().GetBalance(u.addr, ledger.ViteTokenId)
		if err != nil {
			return err
		}
		b.Amount = new(big.Int).Add(bal, big.NewInt(int64(r.Range(1, 1000))))
	case "wrong-token":
		b.Amount = big.NewInt(int64(r.Range(1, 1000)))
		b.TokenId = types.TokenTypeId{1, 2, 3, byte(r.N(200)), 5, 6, 7, 8, 9, 10}
	case "bad-signature", "tampered":
		b.Amount = vite18(1)
	case "impersonation":
		if to == u {
			return fmt.Errorf("the same")
		}
		b, err = cl.base(v, to.addr)
		if err != nil {
			return err
		}
		b.ToAddress = u.addr
		b.Amount = vite18(int64(r.Range(1, 100)))
	case "gap":
		b.Height += uint64(r.Range(1, 3))
		if r.P(1, 2) {
			b.PrevHash = types.Hash{7, byte(r.N(256))}
		}
	case "bad-prev": // the right height after the wrong block
		b.Amount = big.NewInt(int64(r.N(2)))
		if head, err := v.Chain().GetAccountBlockByHash(b.PrevHash); err == nil && head != nil && head.Height > 1 && r.P(1, 2) {
			b.PrevHash = head.PrevHash
		} else {
			b.PrevHash = types.Hash{8, byte(r.N(256))}
		}
	case "bad-work":
		b.Amount = big.NewInt(int64(r.N(2)))
		x := make([]byte, 8)
		for i := range x {
			x[i] = byte(r.N(256))
		}
		switch r.N(5) {
		case 0, 1:
			b.Nonce, b.Difficulty = x, big.NewInt(67108863)
		case 2: // work done for another block
			old := b.PrevHash
			for i := 0; i < 30 && b.Nonce == nil; i++ {
				x, err := v.Chain().GetAccountBlockByHash(old)
				if err != nil || x == nil {
					break
				}
				if len(x.Nonce) > 0 && x.PrevHash != b.PrevHash && !pow.CheckPowNonce(x.Difficulty, x.Nonce, types.DataHash(append(u.addr.Bytes(), b.PrevHash.Bytes()...)).Bytes()) {
					b.Nonce, b.Difficulty = x.Nonce, x.Difficulty
				}
				old = x.PrevHash
			}
			if b.Nonce != nil {
				break
			}
			d := big.NewInt(int64(874 * r.Range(2, 8)))
			old = types.Hash{5, byte(r.N(256))}
			if head, err := v.Chain().GetAccountBlockByHash(b.PrevHash); err == nil && head != nil && r.P(1, 2) {
				old = head.PrevHash
			}
			if x, err = pow.GetPowNonce(d, types.DataHash(append(u.addr.Bytes(), old.Bytes()...))); err != nil || old == b.PrevHash || pow.CheckPowNonce(d, x, types.DataHash(append(u.addr.Bytes(), b.PrevHash.Bytes()...)).Bytes()) {
				return fmt.Errorf("no work")
			}
			b.Nonce, b.Difficulty = x, d
		case 3:
			b.Nonce = x
		case 4:
			b.Nonce, b.Difficulty = x[:r.N(8)], big.NewInt(67108863)
		}
	case "contract-stranger", "contract-order", "contract-garbled-send", "contract-altered-send", "contract-height":
		if b, signer, err = cl.contractBlock(v, badNames[k], u, r); err != nil {
			return err
		}
	case "fork":
		if b.Height < 3 {
			return fmt.Errorf("no blocks yet")
		}
		head, err := v.Chain().GetAccountBlockByHash(b.PrevHash)
		if err != nil || head == nil {
			return fmt.Errorf("no head")
		}
		b.Height, b.PrevHash = head.Height, head.PrevHash
		b.Amount = vite18(int64(r.Range(1, 100)))
		core.Injected("competing_blocks", 1)
	case "mint":
		b.BlockType = ledger.BlockTypeSendReward
		b.Amount = vite18(1000)
		b.ToAddress = u.addr
	case "refund":
		b.BlockType = ledger.BlockTypeSendRefund
		b.Amount = vite18(1000)
		b.ToAddress = u.addr
	case "contract-receive":
		if len(cl.book.contracts) == 0 {
			return fmt.Errorf("no contract")
		}
		c := cl.book.contracts[r.N(len(cl.book.contracts))]
		b, err = cl.base(v, c)
		if err != nil {
			return err
		}
		l, err := v.Chain().GetOnRoadBlocksByAddr(c, 0, 10)
		if err != nil || len(l) == 0 {
			return fmt.Errorf("nothing on the road")
		}
		recv(l[r.N(len(l))].Hash)
		b.Data = append(append(make([]byte, 0, 33), types.DataHash([]byte{byte(r.N(256))}).Bytes()...), 0)
		if r.P(1, 2) { // by a producer, perhaps not the scheduled one, with a made-up result
			p := cl.nodes[r.N(int(cl.c.Params["producers"]))]
			signer = &user{addr: p.addr, priv: p.priv}
		}
	case "first-send":
		k := key(fmt.Sprintf("nobody %d", r.N(1000)))
		signer = &user{addr: types.PubkeyToAddress(k.PubByte()), priv: k}
		b.AccountAddress, b.Height, b.PrevHash = signer.addr, 1, types.Hash{}
		b.Amount = big.NewInt(int64(r.N(2)))
	case "fee":
		b.Amount = vite18(1)
		b.Fee = vite18(int64(r.Range(1, 10)))
	case "unknown-send":
		recv(types.Hash{9, byte(r.N(256)), byte(r.N(256))})
	}
	signer.seal(b)
	switch badNames[k] {
	case "contract-garbled-send":
		// the hash of the block covers only the hash of the transaction it sends
		x := b.SendBlockList[r.N(len(b.SendBlockList))]
		switch r.N(3) {
		case 0:
			x.Amount = new(big.Int).Add(z(x.Amount), vite18(1))
		case 1:
			x.ToAddress = types.Address{1, byte(r.N(256))}
		case 2:
			x.Data = append(append([]byte{}, x.Data...), 1)
		}
	case "bad-signature":
		b.Signature[r.N(len(b.Signature))] ^= 1 << uint(r.N(8))
	case "tampered":
		switch r.N(4) {
		case 0:
			b.Amount = vite18(2)
		case 1:
			if to == u {
				return fmt.Errorf("the same")
			}
			b.ToAddress = u.addr
		case 2:
			b.Data = []byte{1}
		case 3:
			b.Hash[0] ^= 1
		}
	}
	core.Injected("forged_"+badNames[k], 1)
	core.Logf("%s u%d forges %s: %s %d %s", n.name, u.i, badNames[k], b.AccountAddress, b.Height, b.Hash)
	if badNames[k] != "fork" {
		runtime.SimNoPreempt(true)
		cl.forged[b.Hash] = append(cl.forged[b.Hash], forgery{badNames[k], b.Copy()})
		runtime.SimNoPreempt(false)
	}
	direct := r.P(1, 3)
	if badNames[k] == "contract-stranger" {
		// sent around, such a block keeps nodes from accepting the same block by its producer (a known finding)
		if direct = !r.P(1, 12); !direct {
			runtime.SimNoPreempt(true)
			cl.copies[b.Hash] = true
			runtime.SimNoPreempt(false)
		}
	}
	if direct {
		res, err := v.Verifier().VerifyRPCAccountBlock(b, v.Chain().GetLatestSnapshotBlock())
		if err == nil {
			err = v.Pool().AddDirectAccountBlock(b.AccountAddress, res)
		}
		if err == nil && badNames[k] != "fork" {
			core.Fail("accepted-forgery", "%s accepts a forged block (%s): %s %d %s", n.name, badNames[k], b.AccountAddress, b.Height, b.Hash)
		}
		return offered(fmt.Sprintf("%s refused: %v", badNames[k], err))
	}
	v.Net().BroadcastAccountBlock(b)
	return offered(badNames[k] + " sent")
}

// contractBlock is the block of a contract that its producer would make now, with one thing wrong.
func (cl *cluster) contractBlock(v *vite.Vite, kind string, u *user, r *core.Rand) (*ledger.AccountBlock, *user, error) {
	cs := append([]types.Address{types.AddressQuota, types.AddressGovernance, types.AddressAsset}, cl.book.contracts...)
	first := r.N(len(cs))
	for i := range cs {
		c := cs[(first+i)%len(cs)]
		l, err := v.Chain().GetOnRoadBlocksByAddr(c, 0, 30)
		if err != nil || len(l) == 0 {
			continue
		}
		// of each caller the oldest comes first
		oldest := map[types.Address]*ledger.AccountBlock{}
		for _, x := range l {
			if types.IsContractAddr(x.AccountAddress) {
				continue // sent by a contract: their order is not that of the heights alone
			}
			if o := oldest[x.AccountAddress]; o == nil || x.Height < o.Height {
				oldest[x.AccountAddress] = x
			}
		}
		var send *ledger.AccountBlock
		for _, x := range l {
			o := oldest[x.AccountAddress]
			if o == nil || (kind == "contract-order") == (o.Hash == x.Hash) {
				continue
			}
			if send == nil || r.P(1, 2) {
				send = x
			}
		}
		if send == nil {
			continue
		}
		st, err := generator.GetAddressStateForGenerator(v.Chain(), &c)
		if err != nil || st == nil || st.LatestAccountHeight == 0 && !types.IsBuiltinContractAddr(c) {
			continue
		}
		gen, err := generator.NewGenerator(v.Chain(), v.Consensus().SBPReader(), c, st.LatestSnapshotHash, st.LatestAccountHash)
		if err != nil {
			continue
		}
		res, err := gen.GenerateWithOnRoad(send, &u.addr, func([]byte) ([]byte, ed25519.PublicKey, error) { return []byte{1}, u.priv.PubByte(), nil }, nil)
		if err != nil || res == nil || res.VMBlock == nil {
			continue
		}
		b := res.VMBlock.AccountBlock
		signer := u
		if kind != "contract-stranger" {
			signer = nil
			for _, p := range cl.nodes[:cl.c.Params["producers"]] {
				x := b.Copy()
				x.PublicKey = p.priv.PubByte()
				if ok, err := v.Consensus().VerifyAccountProducer(x); ok && err == nil {
					signer = &user{addr: p.addr, priv: p.priv}
					break
				}
			}
			if signer == nil {
				return nil, nil, fmt.Errorf("no producer")
			}
		}
		switch kind {
		case "contract-garbled-send", "contract-altered-send":
			if len(b.SendBlockList) == 0 {
				continue
			}
			for i, x := range b.SendBlockList {
				b.SendBlockList[i] = x.Copy()
			}
			if kind == "contract-altered-send" {
				x := b.SendBlockList[0]
				if r.P(1, 2) {
					x.Amount = new(big.Int).Add(z(x.Amount), vite18(1))
				} else {
					x.ToAddress = u.addr
					x.Data = append(append([]byte{}, x.Data...), 2)
				}
				for i, x := range b.SendBlockList {
					x.Hash = x.ComputeSendHash(b, uint8(i))
				}
			}
		case "contract-height":
			b.Height += uint64(r.Range(1, 2))
			for i, x := range b.SendBlockList {
				x.Hash = x.ComputeSendHash(b, uint8(i))
			}
		}
		return b, signer, nil
	}
	return nil, nil, fmt.Errorf("nothing on the road")
}

type forgery struct {
	kind string
	b    *ledger.AccountBlock
}

// isForged: the block is one the adversary made. The hash alone does not tell: it does not cover the
// signature, nor the fields that a block of its type should not have.
func (cl *cluster) isForged(b *ledger.AccountBlock) string {
	for _, f := range cl.forged[b.Hash] {
		o := f.b
		if bytes.Equal(o.Signature, b.Signature) && bytes.Equal(o.PublicKey, b.PublicKey) && z(o.Amount).Cmp(z(b.Amount)) == 0 && z(o.Fee).Cmp(z(b.Fee)) == 0 && bytes.Equal(o.Data, b.Data) && o.TokenId == b.TokenId && o.ToAddress == b.ToAddress && o.BlockType == b.BlockType && sameSends(o.SendBlockList, b.SendBlockList) {
			return f.kind
		}
	}
	return ""
}

func sameSends(a, b []*ledger.AccountBlock) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		y := b[i]
		if x.Hash != y.Hash || z(x.Amount).Cmp(z(y.Amount)) != 0 || x.ToAddress != y.ToAddress || x.TokenId != y.TokenId || !bytes.Equal(x.Data, y.Data) {
			return false
		}
	}
	return true
}

var badSnapNames = []string{"stranger", "out-of-turn", "off-slot", "old-time", "future", "bad-content", "gap", "equivocate", "bad-signature", "fork-old", "same-time"}

// badSnapshot: a forged snapshot block is broadcast through node n. The equivocation is signed by the
// scheduled producer, so it is legal for a ledger to contain it.
func (cl *cluster) badSnapshot(n *cnode, v *vite.Vite, r *core.Rand) {
	k := r.N(len(badSnapNames))
	switch badSnapNames[k] {
	case "future", "equivocate", "fork-old":
		if cl.c.Params["honest"] != 0 {
			return
		}
	}
	head := v.Chain().GetLatestSnapshotBlock()
	p := cl.nodes[r.N(len(cl.nodes))]
	priv := p.priv
	now := time.Unix(time.Now().Unix(), 0)
	b := &ledger.SnapshotBlock{PrevHash: head.Hash, Height: head.Height + 1, Timestamp: &now, SnapshotContent: ledger.SnapshotContent{}}
	switch badSnapNames[k] {
	case "stranger":
		priv = cl.users[r.N(len(cl.users))].priv
	case "out-of-turn":
		for _, m := range cl.nodes {
			if ok, _ := cl.scheduled(v, m.addr, now); !ok {
				p = m
			}
		}
		priv = p.priv
	case "off-slot":
		x := now.Add(-500 * time.Millisecond)
		now = x
	case "old-time":
		now = head.Timestamp.Add(-time.Duration(r.N(20)) * time.Second)
		for _, m := range cl.nodes {
			if ok, _ := cl.scheduled(v, m.addr, now); ok {
				p = m
			}
		}
		priv = p.priv
	case "same-time":
		now = *head.Timestamp
		priv = cl.producerAt(v, now, p).priv
	case "future":
		now = now.Add(time.Duration(r.Range(100, 4000)) * time.Second)
		for _, m := range cl.nodes {
			if ok, _ := cl.scheduled(v, m.addr, now); ok {
				p = m
			}
		}
		priv = p.priv
	case "bad-content":
		u := cl.users[r.N(len(cl.users))]
		b.SnapshotContent[u.addr] = &ledger.HashHeight{Hash: types.Hash{3, byte(r.N(256))}, Height: uint64(r.Range(1, 50))}
		priv = cl.producerAt(v, now, p).priv
	case "gap":
		b.Height += uint64(r.Range(1, 5))
		priv = cl.producerAt(v, now, p).priv
	case "fork-old":
		if head.Height < 6 {
			return
		}
		o, err := v.Chain().GetSnapshotBlockByHeight(head.Height - uint64(r.Range(1, 4)))
		if err != nil || o == nil {
			return
		}
		b.PrevHash, b.Height = o.Hash, o.Height+1
		if cl.producerAt(v, now, p) != cl.nodes[cl.c.Params["byz"]] {
			return
		}
		priv = cl.nodes[cl.c.Params["byz"]].priv
		core.Injected("byzantine_producer", 1)
	case "equivocate":
		now = *head.Timestamp
		prev, err := v.Chain().GetSnapshotBlockByHash(head.PrevHash)
		if err != nil || prev == nil || head.Height < 3 {
			return
		}
		b.PrevHash, b.Height = prev.Hash, head.Height
		b.Seed = r.U64()
		if cl.producerAt(v, now, p) != cl.nodes[cl.c.Params["byz"]] {
			return
		}
		priv = cl.nodes[cl.c.Params["byz"]].priv
		core.Injected("byzantine_producer", 1)
	}
	b.Hash = b.ComputeHash()
	b.PublicKey = priv.PubByte()
	b.Signature = ed25519.Sign(priv, b.Hash.Bytes())
	if badSnapNames[k] == "bad-signature" {
		b.Signature[3] ^= 4
	}
	switch badSnapNames[k] {
	case "stranger", "out-of-turn", "old-time", "gap", "bad-signature", "bad-content", "off-slot", "same-time":
		runtime.SimNoPreempt(true)
		cl.forgedSnaps[string(b.Signature)] = badSnapNames[k]
		runtime.SimNoPreempt(false)
	}
	core.Injected("forged_snapshot_"+badSnapNames[k], 1)
	core.Logf("%s forges snapshot %s: %d %s at %s", n.name, badSnapNames[k], b.Height, b.Hash, b.Timestamp.UTC())
	v.Net().BroadcastSnapshotBlock(b)
}

func (cl *cluster) producerAt(v *vite.Vite, t time.Time, def *cnode) *cnode {
	for _, m := range cl.nodes {
		if ok, _ := cl.scheduled(v, m.addr, t); ok {
			return m
		}
	}
	return def
}

// scheduled asks the node's own consensus who produces at t.
func (cl *cluster) scheduled(v *vite.Vite, a types.Address, t time.Time) (bool, error) {
	i, err := v.Consensus().VoteTimeToIndex(types.SNAPSHOT_GID, t)
	if err != nil {
		return false, err
	}
	es, _, err := v.Consensus().ReadByIndex(types.SNAPSHOT_GID, i)
	if err != nil {
		return false, err
	}
	for _, e := range es {
		if e.Address == a && !t.Before(e.Stime) && t.Before(e.Etime) {
			return true, nil
		}
	}
	return false, nil
}
