package vmsim

import (
	"math/big"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"

	"github.com/vitelabs/go-vite/v2/common/types"
)

// A reference interpreter for the code of user contracts: no quota, plain big integers, nothing shared with package vm.

type refCall struct {
	to     types.Address
	token  types.TokenTypeId
	amount *big.Int
	data   []byte
}

type refLog struct {
	topics []types.Hash
	data   []byte
}

type refIn struct {
	code, data    []byte
	addr, caller  types.Address
	value         *big.Int
	token         types.TokenTypeId
	fromHash      types.Hash
	storage       dump // of the contract, 32-byte keys
	balance       func(types.TokenTypeId) *big.Int
	time, height  *big.Int // nil: no snapshot known
	accHeight     uint64
	prevHash      types.Hash
	sendHash      func(i int) *types.Hash // hash of the i-th transaction it sends, if known
	exists        func(types.Address) int // 1: an account; 0: a contract that does not exist; -1: not known yet
	offchain      bool
	maxMem, maxSt int
}

type refOut struct {
	ok      bool
	why     string
	ret     []byte
	storage dump
	calls   []refCall
	logs    []refLog
	steps   int
	unknown bool // depends on a hash nobody can know
	sar0    bool // shifts zero right by 256 or more, arithmetically
	writes  int
}

var (
	two255 = new(big.Int).Lsh(big.NewInt(1), 255)
	two256 = new(big.Int).Lsh(big.NewInt(1), 256)
)

func u256(x *big.Int) *big.Int {
	x.Mod(x, two256) // Euclidean: never negative
	return x
}

func s256(x *big.Int) *big.Int {
	if x.Cmp(two255) >= 0 {
		return new(big.Int).Sub(x, two256)
	}
	return new(big.Int).Set(x)
}

func word(x *big.Int) []byte {
	b := x.Bytes()
	o := make([]byte, 32)
	copy(o[32-len(b):], b)
	return o
}

func keccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

func blake(b []byte) []byte {
	h := blake2b.Sum256(b)
	return h[:]
}

func boolInt(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}

// slice of data, zero beyond its end
func slice(data []byte, off *big.Int, n int) []byte {
	o := make([]byte, n)
	if off.IsInt64() && off.Int64() < int64(len(data)) {
		copy(o, data[off.Int64():])
	}
	return o
}

func refRun(in *refIn) (out *refOut) {
	out = &refOut{storage: dump{}}
	for k, v := range in.storage {
		out.storage[k] = v
	}
	var st []*big.Int
	var mem []byte
	fail := func(why string) *refOut {
		out.ok, out.why = false, why
		return out
	}
	// jump targets
	dest := map[int]bool{}
	for i := 0; i < len(in.code); i++ {
		c := in.code[i]
		if c == 0x5b {
			dest[i] = true
		}
		if c >= 0x60 && c <= 0x7f {
			i += int(c) - 0x5f
		}
	}
	pop := func() *big.Int {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		return x
	}
	push := func(x *big.Int) { st = append(st, x) }
	touched := map[string]bool{}
	// room for memory [off, off+n); false: more than anybody can pay for
	grow := func(off, n *big.Int) bool {
		if n.Sign() == 0 {
			return true
		}
		end := new(big.Int).Add(off, n)
		if !end.IsInt64() || end.Int64() > int64(in.maxMem) {
			return false
		}
		e := (int(end.Int64()) + 31) / 32 * 32
		if e > len(mem) {
			mem = append(mem, make([]byte, e-len(mem))...)
		}
		return true
	}
	get := func(off, n *big.Int) []byte {
		if n.Sign() == 0 {
			return []byte{}
		}
		return append([]byte{}, mem[off.Int64():off.Int64()+n.Int64()]...)
	}
	for pc := 0; ; pc++ {
		out.steps++
		if out.steps > in.maxSt {
			return fail("steps")
		}
		op := byte(0)
		if pc < len(in.code) {
			op = in.code[pc]
		}
		need, gives, ok := stackOf(op)
		if !ok {
			return fail("invalid opcode")
		}
		if len(st) < need {
			return fail("stack underflow")
		}
		if len(st)-need+gives > 1024 {
			return fail("stack overflow")
		}
		switch {
		case op == 0x00:
			out.ok = true
			return out
		case op == 0x01:
			push(u256(new(big.Int).Add(pop(), pop())))
		case op == 0x02:
			push(u256(new(big.Int).Mul(pop(), pop())))
		case op == 0x03:
			a, b := pop(), pop()
			push(u256(new(big.Int).Sub(a, b)))
		case op == 0x04:
			a, b := pop(), pop()
			if b.Sign() == 0 {
				push(new(big.Int))
			} else {
				push(new(big.Int).Quo(a, b))
			}
		case op == 0x05:
			a, b := s256(pop()), s256(pop())
			if b.Sign() == 0 {
				push(new(big.Int))
			} else {
				push(u256(new(big.Int).Quo(a, b)))
			}
		case op == 0x06:
			a, b := pop(), pop()
			if b.Sign() == 0 {
				push(new(big.Int))
			} else {
				push(new(big.Int).Rem(a, b))
			}
		case op == 0x07:
			a, b := s256(pop()), s256(pop())
			if b.Sign() == 0 {
				push(new(big.Int))
			} else {
				push(u256(new(big.Int).Rem(a, b)))
			}
		case op == 0x08, op == 0x09:
			a, b, n := pop(), pop(), pop()
			x := new(big.Int)
			if n.Sign() != 0 {
				if op == 0x08 {
					x.Add(a, b)
				} else {
					x.Mul(a, b)
				}
				x.Rem(x, n)
			}
			push(x)
		case op == 0x0a:
			a, b := pop(), pop()
			push(new(big.Int).Exp(a, b, two256))
		case op == 0x0b:
			k, x := pop(), pop()
			if k.IsInt64() && k.Int64() < 31 {
				n := uint(k.Int64()*8 + 8)
				m := new(big.Int).Lsh(big.NewInt(1), n)
				x = new(big.Int).Rem(x, m)
				if x.Bit(int(n-1)) == 1 {
					x.Sub(x, m)
				}
				x = u256(x)
			}
			push(x)
		case op == 0x10:
			a, b := pop(), pop()
			push(boolInt(a.Cmp(b) < 0))
		case op == 0x11:
			a, b := pop(), pop()
			push(boolInt(a.Cmp(b) > 0))
		case op == 0x12:
			a, b := s256(pop()), s256(pop())
			push(boolInt(a.Cmp(b) < 0))
		case op == 0x13:
			a, b := s256(pop()), s256(pop())
			push(boolInt(a.Cmp(b) > 0))
		case op == 0x14:
			push(boolInt(pop().Cmp(pop()) == 0))
		case op == 0x15:
			push(boolInt(pop().Sign() == 0))
		case op == 0x16:
			push(new(big.Int).And(pop(), pop()))
		case op == 0x17:
			push(new(big.Int).Or(pop(), pop()))
		case op == 0x18:
			push(new(big.Int).Xor(pop(), pop()))
		case op == 0x19:
			push(new(big.Int).Sub(new(big.Int).Sub(two256, big.NewInt(1)), pop()))
		case op == 0x1a:
			i, x := pop(), pop()
			if i.IsInt64() && i.Int64() < 32 {
				push(big.NewInt(int64(word(x)[i.Int64()])))
			} else {
				push(new(big.Int))
			}
		case op >= 0x1b && op <= 0x1d:
			n, x := pop(), pop()
			big256 := !n.IsInt64() || n.Int64() >= 256
			switch {
			case op == 0x1b && big256, op == 0x1c && big256:
				push(new(big.Int))
			case op == 0x1b:
				push(u256(new(big.Int).Lsh(x, uint(n.Int64()))))
			case op == 0x1c:
				push(new(big.Int).Rsh(x, uint(n.Int64())))
			default:
				if big256 {
					if x.Sign() == 0 {
						out.sar0 = true
					}
					if s256(x).Sign() < 0 {
						push(new(big.Int).Sub(two256, big.NewInt(1)))
					} else {
						push(new(big.Int))
					}
				} else {
					push(u256(new(big.Int).Rsh(s256(x), uint(n.Int64()))))
				}
			}
		case op == 0x20, op == 0x21:
			off, n := pop(), pop()
			if !grow(off, n) {
				return fail("memory")
			}
			if op == 0x20 {
				push(new(big.Int).SetBytes(keccak(get(off, n))))
			} else {
				push(new(big.Int).SetBytes(blake(get(off, n))))
			}
		case op == 0x30:
			push(new(big.Int).SetBytes(in.addr.Bytes()))
		case op == 0x31:
			t := tokenOf(pop())
			push(new(big.Int).Set(in.balance(t)))
		case op == 0x33:
			push(new(big.Int).SetBytes(in.caller.Bytes()))
		case op == 0x34:
			push(new(big.Int).Set(in.value))
		case op == 0x35:
			push(new(big.Int).SetBytes(slice(in.data, pop(), 32)))
		case op == 0x36:
			push(big.NewInt(int64(len(in.data))))
		case op == 0x37, op == 0x39:
			to, from, n := pop(), pop(), pop()
			if !grow(to, n) {
				return fail("memory")
			}
			src := in.data
			if op == 0x39 {
				src = in.code
			}
			if n.Sign() > 0 {
				copy(mem[to.Int64():], slice(src, from, int(n.Int64())))
			}
		case op == 0x38:
			push(big.NewInt(int64(len(in.code))))
		case op == 0x3d:
			push(new(big.Int)) // there is no call that returns data
		case op == 0x3e:
			to, from, n := pop(), pop(), pop()
			if !grow(to, n) {
				return fail("memory")
			}
			if new(big.Int).Add(from, n).Sign() != 0 {
				return fail("return data out of bounds")
			}
		case op == 0x42:
			if in.time == nil {
				return fail("no snapshot")
			}
			push(new(big.Int).Set(in.time))
		case op == 0x43:
			if in.height == nil {
				return fail("no snapshot")
			}
			push(new(big.Int).Set(in.height))
		case op == 0x46:
			push(new(big.Int).SetBytes(in.token.Bytes()))
		case op == 0x47:
			push(new(big.Int).SetUint64(in.accHeight))
		case op == 0x48:
			push(new(big.Int).SetBytes(in.prevHash.Bytes()))
		case op == 0x49:
			push(new(big.Int).SetBytes(in.fromHash.Bytes()))
		case op == 0x50:
			pop()
		case op == 0x51:
			off := pop()
			if !grow(off, big.NewInt(32)) {
				return fail("memory")
			}
			push(new(big.Int).SetBytes(get(off, big.NewInt(32))))
		case op == 0x52:
			off, x := pop(), pop()
			if !grow(off, big.NewInt(32)) {
				return fail("memory")
			}
			copy(mem[off.Int64():], word(x))
		case op == 0x53:
			off, x := pop(), pop()
			if !grow(off, big.NewInt(1)) {
				return fail("memory")
			}
			mem[off.Int64()] = word(x)[31]
		case op == 0x54:
			push(new(big.Int).SetBytes(out.storage[string(word(pop()))]))
		case op == 0x55:
			k, x := pop(), pop()
			out.writes++
			if in.offchain {
				break
			}
			key := string(word(k))
			touched[key] = true
			if len(touched) > 100 {
				return fail("storage limit")
			}
			if x.Sign() == 0 {
				delete(out.storage, key)
			} else {
				out.storage[key] = x.Bytes()
			}
		case op == 0x56:
			to := pop()
			if !to.IsInt64() || !dest[int(to.Int64())] {
				return fail("invalid jump")
			}
			pc = int(to.Int64()) - 1
		case op == 0x57:
			to, c := pop(), pop()
			if c.Sign() != 0 {
				if !to.IsInt64() || !dest[int(to.Int64())] {
					return fail("invalid jump")
				}
				pc = int(to.Int64()) - 1
			}
		case op == 0x58:
			push(big.NewInt(int64(pc)))
		case op == 0x59:
			push(big.NewInt(int64(len(mem))))
		case op == 0x5b:
		case op >= 0x60 && op <= 0x7f:
			n := int(op) - 0x5f
			push(new(big.Int).SetBytes(slice(in.code, big.NewInt(int64(pc+1)), n)))
			pc += n
		case op >= 0x80 && op <= 0x8f:
			push(new(big.Int).Set(st[len(st)-int(op-0x7f)]))
		case op >= 0x90 && op <= 0x9f:
			i, j := len(st)-1, len(st)-1-int(op-0x8f)
			st[i], st[j] = st[j], st[i]
		case op >= 0xa0 && op <= 0xa4:
			off, n := pop(), pop()
			if !grow(off, n) {
				return fail("memory")
			}
			var tp []types.Hash
			for i := 0; i < int(op-0xa0); i++ {
				h, _ := types.BytesToHash(word(pop()))
				tp = append(tp, h)
			}
			if !in.offchain {
				out.logs = append(out.logs, refLog{tp, get(off, n)})
			}
		case op == 0xf1, op == 0xf2:
			a, t, v, off, n := pop(), pop(), pop(), pop(), pop()
			if !grow(off, n) {
				return fail("memory")
			}
			if !in.offchain {
				switch in.exists(addressOf(a)) {
				case 0:
					return fail("no such contract")
				case -1:
					return fail("retry")
				}
				out.calls = append(out.calls, refCall{addressOf(a), tokenOf(t), v, get(off, n)})
			}
			if op == 0xf2 {
				x := new(big.Int)
				if !in.offchain {
					h := in.sendHash(len(out.calls) - 1)
					if h == nil {
						out.unknown = true
						h = &types.Hash{}
					}
					x.SetBytes(h.Bytes())
				}
				push(x)
			}
		case op == 0xf3:
			off, n := pop(), pop()
			if !grow(off, n) {
				return fail("memory")
			}
			out.ret, out.ok = get(off, n), true
			return out
		case op == 0xfd:
			off, n := pop(), pop()
			if !grow(off, n) {
				return fail("memory")
			}
			if in.offchain { // a query that reverts has no result
				out.ok = true
				return out
			}
			return fail("reverted")
		}
	}
}

func addressOf(x *big.Int) (a types.Address) {
	b := x.Bytes()
	if len(b) > types.AddressSize {
		return
	}
	copy(a[types.AddressSize-len(b):], b)
	return
}

func tokenOf(x *big.Int) (t types.TokenTypeId) {
	b := x.Bytes()
	if len(b) > types.TokenTypeIdSize {
		return
	}
	copy(t[types.TokenTypeIdSize-len(b):], b)
	return
}

// stackOf: what an instruction takes and leaves
func stackOf(op byte) (in, out int, ok bool) {
	switch {
	case op == 0x00, op == 0x5b:
		return 0, 0, true
	case op >= 0x01 && op <= 0x07, op == 0x0a, op == 0x0b, op >= 0x10 && op <= 0x14, op >= 0x16 && op <= 0x18, op >= 0x1a && op <= 0x1d, op == 0x20, op == 0x21:
		return 2, 1, true
	case op == 0x08, op == 0x09:
		return 3, 1, true
	case op == 0x15, op == 0x19, op == 0x31, op == 0x35, op == 0x51, op == 0x54:
		return 1, 1, true
	case op == 0x30, op == 0x33, op == 0x34, op == 0x36, op == 0x38, op == 0x3d, op == 0x42, op == 0x43, op >= 0x46 && op <= 0x49, op == 0x58, op == 0x59:
		return 0, 1, true
	case op == 0x37, op == 0x39, op == 0x3e:
		return 3, 0, true
	case op == 0x50, op == 0x56:
		return 1, 0, true
	case op == 0x52, op == 0x53, op == 0x55, op == 0x57, op == 0xf3, op == 0xfd:
		return 2, 0, true
	case op >= 0x60 && op <= 0x7f:
		return 0, 1, true
	case op >= 0x80 && op <= 0x8f:
		n := int(op - 0x7f)
		return n, n + 1, true
	case op >= 0x90 && op <= 0x9f:
		n := int(op-0x8f) + 1
		return n, n, true
	case op >= 0xa0 && op <= 0xa4:
		return 2 + int(op-0xa0), 0, true
	case op == 0xf1:
		return 5, 0, true
	case op == 0xf2:
		return 5, 1, true
	}
	return 0, 0, false
}
