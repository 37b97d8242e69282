package clustersim

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
)

// a transaction that a node accepted from a client
type accepted struct {
	hash   types.Hash
	addr   types.Address
	height uint64
	prev   types.Hash
	from   types.Hash
	node   int
	inc    *core.Node
	at     time.Duration
	kind   string
}

type book struct {
	accepted  []*accepted
	contracts []types.Address // created by accepted transactions
	tokens    []types.TokenTypeId
	tried     int64
}

const (
	kSend = iota
	kRecv
	kStake
	kVote
	kUnvote
	kCreate
	kCall
	kIssue
	kSendToken
	kRegister
	kUnstake
	kReissue
	kBurn
	kFund
	kBad
	kinds
)

var kindName = []string{"send", "recv", "stake", "vote", "unvote", "create", "call", "issue", "sendtoken", "register", "unstake", "reissue", "burn", "fund", "bad"}

func push(b []byte) []byte { return append([]byte{byte(0x60 + len(b) - 1)}, b...) }

func initCode(runtime []byte) []byte {
	// PUSH1 len PUSH1 off PUSH1 0 CODECOPY PUSH1 len PUSH1 0 RETURN
	h := []byte{0x60, byte(len(runtime)), 0x60, 12, 0x60, 0, 0x39, 0x60, byte(len(runtime)), 0x60, 0, 0xf3}
	return append(h, runtime...)
}

// contract code. Every call counts in slot 0, adds the value to a slot of the caller, remembers height and
// time of the environment, and sends half of the value on (to the caller or a fixed address); values with the
// low bits 11 make it fail.
func code(forward *types.Address, random bool, status bool) []byte {
	var b []byte
	add := func(x ...byte) { b = append(b, x...) }
	add(0x34, 0x60, 3, 0x16, 0x60, 3, 0x14, 0x60, 0, 0x57) // CALLVALUE 3 AND 3 EQ dest JUMPI
	dest := len(b) - 2
	add(0x60, 0, 0x54, 0x60, 1, 0x01, 0x60, 0, 0x55) // slot0++
	add(0x33, 0x54, 0x34, 0x01, 0x33, 0x55)          // slot[caller] += value
	if status {
		add(0x43, 0x60, 1, 0x55, 0x42, 0x60, 2, 0x55) // slot1 = HEIGHT, slot2 = TIMESTAMP
	}
	if random {
		add(0x4b, 0x60, 3, 0x55) // slot3 = RANDOM
	}
	add(0x34, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xa0) // MSTORE value, LOG0
	add(0x60, 0, 0x60, 0, 0x60, 2, 0x34, 0x04, 0x46)  // inSize inOffset value/2 TOKENID
	if forward != nil {
		b = append(b, push(forward.Bytes())...)
	} else {
		add(0x33)
	}
	add(0xf1, 0x00)
	b[dest] = byte(len(b))
	add(0x5b, 0x60, 0, 0x60, 0, 0xfd) // REVERT
	return b
}

func (cl *cluster) client(n *cnode, op core.Op) {
	kind, u := int(op.C%16), cl.users[int(op.C/16)%len(cl.users)]
	if kind >= kinds {
		return
	}
	b := &cl.book
	inc := n.n
	if !n.up || inc.IsDead {
		core.Count("client_node_down", 1)
		return
	}
	v := n.v
	inc.Go(func() {
		r := core.NewRand(op.R)
		b.tried++
		vb, err := cl.submit(n, v, u, kind, r)
		if err != nil {
			core.Logf("%s u%d %s: %v", n.name, u.i, kindName[kind], err)
			core.Count("refused_"+kindName[kind], 1)
			return
		}
		if vb == nil {
			return
		}
		core.Logf("%s u%d %s: ok %d %s", n.name, u.i, kindName[kind], vb.Height, vb.Hash)
		core.Count("accepted_"+kindName[kind], 1)
		b.accepted = append(b.accepted, &accepted{hash: vb.Hash, addr: u.addr, height: vb.Height, prev: vb.PrevHash, from: vb.FromBlockHash, node: n.i, inc: inc, at: cl.sim(), kind: kindName[kind]})
		if kind == kCreate {
			b.contracts = append(b.contracts, vb.ToAddress)
		}
	})
}

func (cl *cluster) target(r *core.Rand) types.Address {
	if r.P(1, 12) {
		return cl.nodes[r.N(len(cl.nodes))].addr
	}
	return cl.users[r.N(len(cl.users))].addr
}

// submit does what the transaction interface of a node does for a client; nil, nil: nothing to do
func (cl *cluster) submit(n *cnode, v *vite.Vite, u *user, kind int, r *core.Rand) (*ledger.AccountBlock, error) {
	vt := ledger.ViteTokenId
	msg := &interfaces.IncomingMessage{BlockType: ledger.BlockTypeSendCall, AccountAddress: u.addr, TokenId: &vt, Amount: big.NewInt(0)}
	to := func(a types.Address) { msg.ToAddress = &a }
	pack := func(data []byte, err error) error {
		msg.Data = data
		return err
	}
	var err error
	amount := func() *big.Int { return new(big.Int).Add(vite18(int64(r.Range(0, 30))), big.NewInt(int64(r.N(1000)))) }
	switch kind {
	case kSend:
		to(cl.target(r))
		msg.Amount = amount()
	case kRecv:
		l, err := v.Chain().GetOnRoadBlocksByAddr(u.addr, 0, 10)
		if err != nil {
			return nil, err
		}
		if len(l) == 0 {
			return nil, nil
		}
		s := l[r.N(len(l))]
		h := s.Hash
		msg = &interfaces.IncomingMessage{BlockType: ledger.BlockTypeReceive, AccountAddress: u.addr, FromBlockHash: &h}
	case kStake:
		to(types.AddressQuota)
		ben := cl.target(r)
		if len(cl.book.contracts) > 0 && r.P(2, 3) {
			ben = cl.book.contracts[r.N(len(cl.book.contracts))]
		}
		msg.Amount = vite18(int64(r.Range(134, 20000)))
		err = pack(abi.ABIQuota.PackMethod(abi.MethodNameStakeV3, ben))
	case kUnstake:
		to(types.AddressQuota)
		ids := []types.Hash{}
		for _, a := range cl.book.accepted {
			if a.kind == "stake" && a.addr == u.addr {
				ids = append(ids, a.hash)
			}
		}
		if len(ids) == 0 {
			return nil, nil
		}
		err = pack(abi.ABIQuota.PackMethod(abi.MethodNameCancelStakeV3, ids[r.N(len(ids))]))
	case kVote:
		to(types.AddressGovernance)
		err = pack(abi.ABIGovernance.PackMethod(abi.MethodNameVoteV3, fmt.Sprintf("s%d", r.Range(1, int(cl.c.Params["producers"])+1))))
	case kUnvote:
		to(types.AddressGovernance)
		err = pack(abi.ABIGovernance.PackMethod(abi.MethodNameCancelVoteV3))
	case kRegister:
		to(types.AddressGovernance)
		p := cl.nodes[r.N(len(cl.nodes))]
		msg.Amount = vite18(1000000)
		if r.P(1, 4) {
			msg.Amount = vite18(int64(r.Range(1, 500000))) // refused by the contract, refunded
		}
		err = pack(abi.ABIGovernance.PackMethod(abi.MethodNameRegisterV3, fmt.Sprintf("x%d", r.N(3)), p.addr, u.addr))
	case kCreate:
		msg.BlockType = ledger.BlockTypeSendCreate
		msg.Amount = amount()
		var fwd *types.Address
		if r.P(1, 2) {
			a := cl.target(r)
			if len(cl.book.contracts) > 0 && r.P(2, 3) {
				a = cl.book.contracts[r.N(len(cl.book.contracts))]
			}
			fwd = &a
		}
		conf := uint8(r.Range(0, 3))
		seed := uint8(0)
		if conf > 0 && r.P(1, 2) {
			seed = uint8(r.Range(1, int(conf)))
		}
		msg.Data = util.GetCreateContractData(initCode(code(fwd, seed > 0, conf > 0)), util.SolidityPPContractType, conf, seed, uint8(r.Range(10, 20)), types.DELEGATE_GID)
	case kCall:
		if len(cl.book.contracts) == 0 {
			return nil, nil
		}
		to(cl.book.contracts[r.N(len(cl.book.contracts))])
		msg.Amount = amount()
		msg.Data = make([]byte, r.N(40))
	case kFund:
		g := int(cl.c.Params["genusers"])
		if g == len(cl.users) {
			g = 0
		}
		to(cl.users[g+r.N(len(cl.users)-g)].addr)
		msg.Amount = vite18(int64(r.Range(10, 5000)))
	case kIssue:
		to(types.AddressAsset)
		err = pack(abi.ABIAsset.PackMethod(abi.MethodNameIssueV2, true, fmt.Sprintf("Token %c", 'A'+r.N(4)), fmt.Sprintf("TK%c", 'A'+r.N(4)), big.NewInt(int64(r.Range(1000, 1000000))), uint8(r.N(3)), big.NewInt(1e9), r.P(1, 2)))
	case kSendToken, kReissue, kBurn:
		bm, e := v.Chain().GetBalanceMap(u.addr)
		if e != nil {
			return nil, e
		}
		var ts []types.TokenTypeId
		for t, x := range bm {
			if t != vt && x.Sign() > 0 {
				ts = append(ts, t)
			}
		}
		if len(ts) == 0 {
			return nil, nil
		}
		sortTokens(ts)
		t := ts[r.N(len(ts))]
		msg.TokenId = &t
		switch kind {
		case kSendToken:
			to(cl.target(r))
			if len(cl.book.contracts) > 0 && r.P(1, 4) {
				to(cl.book.contracts[r.N(len(cl.book.contracts))])
			}
			msg.Amount = big.NewInt(int64(r.N(500)))
		case kReissue:
			msg.TokenId = &vt
			to(types.AddressAsset)
			err = pack(abi.ABIAsset.PackMethod(abi.MethodNameReIssueV2, t, big.NewInt(int64(r.Range(1, 5000))), cl.target(r)))
		case kBurn:
			to(types.AddressAsset)
			msg.Amount = big.NewInt(int64(r.Range(1, 300)))
			err = pack(abi.ABIAsset.PackMethod(abi.MethodNameBurn))
		}
	case kBad:
		for i := 0; ; i++ {
			err := cl.badTx(n, v, u, r)
			if _, ok := err.(offered); ok || i == 5 {
				return nil, err
			}
		}
	}
	if err != nil {
		core.Bug("pack %s: %v", kindName[kind], err)
	}
	if cl.c.Params["calm"] == 0 && r.P(1, 8) {
		msg.Difficulty = big.NewInt(int64(874 * r.Range(1, 8))) // with some work
		core.Count("with_work", 1)
	}
	vb, err := cl.generate(v, u, msg)
	if err != nil {
		return nil, err
	}
	// whether the work is right depends on nothing but the block
	judge := func(err error) error {
		for _, e := range []error{verifier.ErrVerifyNonceFailed, verifier.ErrVerifyPowNotEligible} {
			if strings.Contains(err.Error(), e.Error()) {
				b := vb.AccountBlock
				core.Fail("valid-refused", "%s refuses the block %s of %s because of its work (nonce %x, difficulty %v): %v", n.name, b.Hash, b.AccountAddress, b.Nonce, b.Difficulty, err)
			}
		}
		return err
	}
	if r.P(1, 2) { // as a block signed by the client's own wallet
		res, err := v.Verifier().VerifyRPCAccountBlock(vb.AccountBlock, v.Chain().GetLatestSnapshotBlock())
		if err != nil {
			return nil, judge(err)
		}
		vb = res
	}
	if err := v.Pool().AddDirectAccountBlock(u.addr, vb); err != nil {
		return nil, judge(err)
	}
	return vb.AccountBlock, nil
}

func (cl *cluster) generate(v *vite.Vite, u *user, msg *interfaces.IncomingMessage) (*interfaces.VmAccountBlock, error) {
	st, err := generator.GetAddressStateForGenerator(v.Chain(), &u.addr)
	if err != nil || st == nil {
		return nil, fmt.Errorf("address state: %v", err)
	}
	g, err := generator.NewGenerator(v.Chain(), v.Consensus().SBPReader(), u.addr, st.LatestSnapshotHash, st.LatestAccountHash)
	if err != nil {
		return nil, err
	}
	res, err := g.GenerateWithMessage(msg, &u.addr, u.signer())
	if err != nil {
		return nil, err
	}
	if res.Err != nil {
		return nil, res.Err
	}
	if res.VMBlock == nil {
		return nil, errors.New("empty block")
	}
	return res.VMBlock, nil
}
