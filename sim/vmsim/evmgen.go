package vmsim

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

// Random contracts. Every statement leaves the stack as it found it, every expression pushes one word.

type asm struct {
	r      *sim.Rand
	b      []byte
	labels []int
	fix    [][2]int // position, label
	addrs  []types.Address
	tokens []types.TokenTypeId
	snap   bool // may read the snapshot
	init   bool
	noSelf bool // may not call itself
	loops  int
	calls  int
	sar0   bool
	bad    bool // may contain statements that fail
}

func (a *asm) op(o ...byte) { a.b = append(a.b, o...) }

func (a *asm) push(x *big.Int) {
	b := x.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	if a.r.P(1, 8) && len(b) < 32 { // wider than needed
		n := a.r.Range(len(b), 32)
		w := make([]byte, n)
		copy(w[n-len(b):], b)
		b = w
	}
	a.op(0x5f + byte(len(b)))
	a.op(b...)
}

func (a *asm) num(n int64)             { a.push(big.NewInt(n)) }
func (a *asm) addr(x types.Address)    { a.op(0x5f + 21); a.op(x.Bytes()...) }
func (a *asm) tok(x types.TokenTypeId) { a.op(0x5f + 10); a.op(x.Bytes()...) }
func (a *asm) label() int              { a.labels = append(a.labels, -1); return len(a.labels) - 1 }
func (a *asm) here(l int)              { a.labels[l] = len(a.b); a.op(0x5b) }
func (a *asm) ref(l int)               { a.op(0x61); a.fix = append(a.fix, [2]int{len(a.b), l}); a.op(0, 0) }
func (a *asm) link() []byte {
	for _, f := range a.fix {
		a.b[f[0]], a.b[f[0]+1] = byte(a.labels[f[1]]>>8), byte(a.labels[f[1]])
	}
	return a.b
}

func (a *asm) constant() *big.Int {
	r := a.r
	x := new(big.Int)
	switch r.N(8) {
	case 0, 1:
		return big.NewInt(int64(r.N(10)))
	case 2:
		return big.NewInt(int64([]int{31, 32, 33, 63, 64, 127, 128, 255, 256, 257}[r.N(10)]))
	case 3:
		x.Lsh(big.NewInt(1), uint(r.N(256)))
	case 4:
		x.Lsh(big.NewInt(1), uint(r.Range(1, 256)))
		x.Sub(x, big.NewInt(int64(r.Range(1, 3))))
	case 5:
		x.Sub(two256, big.NewInt(int64(r.Range(1, 300))))
	case 6:
		x.Add(two255, big.NewInt(int64(r.N(5)-2)))
	default:
		for i := 0; i < 4; i++ {
			x.Lsh(x, 64)
			x.Or(x, new(big.Int).SetUint64(r.U64()))
		}
	}
	return u256(x)
}

// small pushes an offset or key
func (a *asm) small(n int) {
	if a.r.P(3, 4) {
		a.num(int64(a.r.N(n)))
		return
	}
	a.num(int64(n))
	a.expr(1)
	a.op(0x06)
}

func (a *asm) expr(d int) {
	r := a.r
	if d <= 0 || r.P(1, 4) {
		switch r.N(7) {
		case 0, 1:
			a.push(a.constant())
		case 2, 3:
			a.num(int64(r.Range(0, 5) * 32))
			a.op(0x35)
		case 4:
			a.num(int64(r.N(6)))
			a.op(0x54)
		default:
			l := []byte{0x30, 0x33, 0x34, 0x36, 0x38, 0x3d, 0x46, 0x47, 0x48, 0x49, 0x58, 0x59}
			if a.snap {
				l = append(l, 0x42, 0x43, 0x42, 0x43)
			}
			a.op(l[r.N(len(l))])
		}
		return
	}
	switch r.Pick(30, 3, 3, 3, 4, 4, 3, 3, 3, 3) {
	case 0:
		l := []byte{1, 2, 3, 4, 5, 6, 7, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d, 4, 5, 6, 7}
		o := l[r.N(len(l))]
		a.expr(d - 1)
		switch {
		case o == 0x1d && !a.sar0: // by less than 256
			a.expr(d - 1)
			a.num(255)
			a.op(0x16)
		case o >= 0x1a && o <= 0x1d && r.P(2, 3):
			a.num(int64(r.N(300)))
		case o == 0x0b && r.P(2, 3):
			a.num(int64(r.N(34)))
		default:
			a.expr(d - 1)
		}
		a.op(o)
	case 1:
		a.expr(d - 1)
		a.op([]byte{0x15, 0x19}[r.N(2)])
	case 2:
		a.expr(d - 1)
		a.expr(d - 1)
		a.expr(d - 1)
		a.op([]byte{8, 9}[r.N(2)])
	case 3:
		a.num(int64(r.N(70)))
		a.small(100)
		a.op([]byte{0x20, 0x21}[r.N(2)])
	case 4:
		a.small(8)
		a.op(0x54)
	case 5:
		a.small(160)
		a.op(0x51)
	case 6: // of a token
		a.token()
		a.op(0x31)
	case 7: // shuffle
		n := r.Range(2, 6)
		if r.P(1, 6) {
			n = r.Range(7, 17)
		}
		for i := 0; i < n; i++ {
			a.expr(d - 2)
		}
		for i := 0; i < r.Range(1, 4); i++ {
			if r.P(1, 2) {
				a.op(0x8f + byte(r.Range(1, n-1)))
			} else {
				a.op(0x7f+byte(r.Range(1, minInt(n, 16))), 0x01)
			}
		}
		for i := 1; i < n; i++ {
			a.op([]byte{0x01, 0x18, 0x50, 0x03}[r.N(4)])
		}
	case 8:
		a.expr(d - 1)
		a.op(0x35)
	case 9:
		a.cond(d-1, func() { a.expr(d - 1) }, func() { a.expr(d - 1) })
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (a *asm) token() {
	if a.r.P(1, 5) {
		a.op(0x46)
		return
	}
	a.tok(a.tokens[a.r.N(len(a.tokens))])
}

func (a *asm) cond(d int, yes, no func()) {
	t, e := a.label(), a.label()
	a.expr(d)
	a.ref(t)
	a.op(0x57)
	no()
	a.ref(e)
	a.op(0x56)
	a.here(t)
	yes()
	a.here(e)
}

func (a *asm) block(n, d int) {
	for i := 0; i < n; i++ {
		a.stmt(d)
	}
}

func (a *asm) stmt(d int) {
	r := a.r
	wEnd := 0
	if a.bad {
		wEnd = 1
	}
	switch r.Pick(20, 8, 2, 3, 2, 6, 10, 5, 3, wEnd, wEnd, wEnd, 2) {
	case 0: // store
		if r.P(1, 4) {
			a.num(0)
		} else {
			a.expr(3)
		}
		a.small(8)
		a.op(0x55)
	case 1:
		a.expr(3)
		a.small(160)
		a.op(0x52)
	case 2:
		a.expr(2)
		a.small(160)
		a.op(0x53)
	case 3: // copy
		a.num(int64(r.N(80)))
		if r.P(1, 6) {
			a.expr(1)
		} else {
			a.small(100)
		}
		a.small(100)
		a.op([]byte{0x37, 0x39}[r.N(2)])
	case 4:
		a.num(0)
		a.num(0)
		a.small(300)
		a.op(0x3e)
	case 5: // log
		n := r.N(5)
		for i := 0; i < n; i++ {
			a.expr(1)
		}
		a.num(int64([]int{0, 1, 32, 45}[r.N(4)]))
		a.small(64)
		a.op(0xa0 + byte(n))
	case 6:
		if a.loops == 0 && a.calls < 3 {
			a.calls++
			a.call()
		}
	case 7:
		if d > 0 {
			a.cond(2, func() { a.block(r.Range(1, 3), d-1) }, func() { a.block(r.Range(0, 2), d-1) })
		}
	case 8: // a bounded loop, its counter on the stack
		if d > 0 && a.loops == 0 {
			a.loops++
			top, end := a.label(), a.label()
			if r.P(1, 2) {
				a.num(int64(r.N(9)))
			} else {
				a.expr(1)
				a.num(7)
				a.op(0x16)
			}
			a.here(top)
			a.op(0x80, 0x15)
			a.ref(end)
			a.op(0x57)
			a.num(1)
			a.op(0x90, 0x03) // n-1
			a.block(r.Range(1, 2), 0)
			a.ref(top)
			a.op(0x56)
			a.here(end)
			a.op(0x50)
			a.loops--
		}
	case 9: // ends here, sometimes
		a.cond(2, func() {
			switch r.N(4) {
			case 0:
				a.op(0x00)
			case 1:
				a.num(int64(r.N(40)))
				a.small(40)
				a.op(0xf3)
			default:
				a.num(int64(r.N(40)))
				a.small(40)
				a.op(0xfd)
			}
		}, func() {})
	case 10: // goes wrong, sometimes
		t := a.label()
		a.num(5)
		a.expr(2)
		a.op(0x06) // mod 5
		a.ref(t)
		a.op(0x57)
		switch r.N(8) {
		case 0:
			a.op([]byte{0x0c, 0x1e, 0x22, 0x32, 0x3a, 0x3b, 0x3c, 0x3f, 0x40, 0x44, 0x45, 0x5a, 0xa5, 0xf0, 0xf4, 0xfa, 0xfe, 0xff}[r.N(18)])
		case 1:
			a.num(int64(r.N(len(a.b) + 40)))
			a.op(0x56)
		case 2:
			a.expr(1)
			a.op(0x56)
		case 3:
			a.op(0x50, 0x50, 0x50, 0x50)
		case 4: // memory nobody can pay
			a.expr(1)
			a.num(int64(r.Range(1, 9)))
			a.num(200)
			a.op(0x1b)
			a.op(0x52)
		case 5:
			a.num(1)
			a.num(int64(r.N(40)))
			a.num(0)
			a.op(0x3e)
		case 6: // a jump into the data of a push
			l := a.label()
			a.ref(l)
			n := r.Range(1, 32)
			a.op(0x56, 0x5f+byte(n))
			a.labels[l] = len(a.b) + r.N(n)
			a.op(bytes.Repeat([]byte{0x5b}, n)...)
		case 7: // stack overflow
			l := a.label()
			a.here(l)
			a.op(0x58)
			a.ref(l)
			a.op(0x56)
		}
		a.here(t)
	case 11: // writes many keys, changing nothing
		if a.loops == 0 && a.r.P(1, 3) {
			n := r.Range(95, 104)
			top := a.label()
			a.num(int64(n))
			a.here(top)
			a.num(1)
			a.op(0x90, 0x03)
			a.num(0)
			a.op(0x81)
			a.num(1000)
			a.op(0x01, 0x55)
			a.op(0x80)
			a.ref(top)
			a.op(0x57, 0x50)
		}
	case 12:
		a.op([]byte{0x5b, 0x5b, 0x00}[r.N(2)])
	}
}

// call sends a transaction, if the fuel in the first word of the input is not used up
func (a *asm) call() {
	r := a.r
	end := a.label()
	fuel := func() {
		a.num(0)
		a.op(0x35)
		a.num(7)
		a.op(0x16)
	}
	if !a.init {
		fuel()
		a.op(0x15)
		a.ref(end)
		a.op(0x57)
	}
	n := 0
	base := int64(r.N(3) * 32)
	if r.P(4, 5) {
		n = 32
		if a.init {
			a.num(1)
		} else {
			a.num(1)
			fuel()
			a.op(0x03)
		}
		a.num(base)
		a.op(0x52)
		for k := r.N(4); k > 0; k-- {
			a.expr(2)
			a.num(base + int64(n))
			a.op(0x52)
			n += 32
		}
		if r.P(1, 6) {
			n += r.N(30) - 15
		}
	}
	if a.bad && r.P(1, 12) { // more than there can be
		a.push(new(big.Int).Lsh(big.NewInt(1), uint(r.Range(20, 70))))
	} else {
		a.num(int64(n))
	}
	a.num(base)
	switch r.N(8) { // amount
	case 0:
		a.op(0x34)
	case 1:
		a.num(2)
		a.op(0x34, 0x04)
	case 2:
		a.num(int64(r.Range(2, 9)))
		a.token()
		a.op(0x31, 0x04)
	case 3:
		if a.bad {
			a.token()
			a.op(0x31)
			if r.P(1, 2) {
				a.num(1)
				a.op(0x01)
			}
		} else {
			a.num(1)
		}
	case 4:
		a.num(int64(r.N(100)))
	default:
		a.num(0)
	}
	a.token()
	switch r.N(6) {
	case 0:
		a.op(0x33)
	case 1:
		if a.noSelf {
			a.op(0x33)
		} else {
			a.op(0x30)
		}
	default:
		a.addr(a.addrs[r.N(len(a.addrs))])
	}
	if r.P(1, 3) {
		a.op(0xf2)
		if r.P(1, 2) {
			a.small(8)
			a.op(0x55)
		} else {
			a.op(0x50)
		}
	} else {
		a.op(0xf1)
	}
	a.here(end)
}

// contract makes the creation code of a random contract
func (w *world) contract(r *sim.Rand, snap, early bool) []byte {
	mk := func(init bool) *asm {
		a := &asm{r: r, addrs: append([]types.Address(nil), w.users...), snap: snap, init: init, sar0: r.P(1, 2000)}
		a.bad = r.P(1, 2)
		for _, c := range w.contracts() {
			if !bytes.Equal(w.created[c].Data[createHead:], deeper()) {
				a.addrs = append(a.addrs, c)
			}
		}
		a.tokens = append(a.tokens, viteId)
		for _, t := range w.tokens {
			a.tokens = append(a.tokens, t.id)
		}
		return a
	}
	run := mk(false)
	run.block(r.Range(1, 8), 2)
	if r.P(1, 2) {
		run.num(32)
		run.small(64)
		run.op(0xf3)
	}
	code := run.link()
	in := mk(true)
	in.bad = r.P(1, 8)
	if !early {
		in.addrs, in.noSelf = w.users, true
	}
	in.block(r.N(4), 1)
	if r.P(1, 15) { // no code at all
		return in.link()
	}
	// code copy and return: PUSH2 len PUSH2 pos PUSH1 0 CODECOPY PUSH2 len PUSH1 0 RETURN
	n := len(code)
	pos := len(in.b) + 3 + 3 + 2 + 1 + 3 + 2 + 1
	in.op(0x61, byte(n>>8), byte(n), 0x61, byte(pos>>8), byte(pos), 0x60, 0, 0x39, 0x61, byte(n>>8), byte(n), 0x60, 0, 0xf3)
	return append(in.link(), code...)
}

// deeper calls itself for ever, passing on what it was sent
func deeper() []byte {
	code := []byte{
		0x60, 1, 0x60, 0, 0x54, 0x01, 0x60, 0, 0x55, // storage[0]++
		0x60, 0, 0x60, 0, 0x34, 0x46, 0x30, 0xf1, 0x00}
	n := len(code)
	in := []byte{0x60, byte(n), 0x60, 12, 0x60, 0, 0x39, 0x60, byte(n), 0x60, 0, 0xf3}
	return append(in, code...)
}
