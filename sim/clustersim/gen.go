package clustersim

import (
	"github.com/vitelabs/go-vite/v2/zzverif/core"
)

// gen draws a case. Profiles:
//
//	calm   client load only, ordinary delays
//	net    partitions, one-way cuts, slow links, resets, stalls, clock jumps
//	crash  the same with crashes and restarts
//	forge  forged account and snapshot blocks, made without the help of a producer
//	byz    the same, and one producer that signs competing and future blocks: nothing is promised about agreement
//	elect  more candidates than seats, votes, crashes and partitions
//	sync   a node joins or comes back after a long time
func gen(profile string, seed uint64, thorough bool) *core.Case {
	r := core.NewRand(seed ^ 0xc10)
	c := &core.Case{Sched: core.RandSched(r), Params: map[string]int64{}}
	p := c.Params
	if c.Sched.FsUs > 2000 {
		c.Sched.FsUs = 2000
	}
	p["producers"] = int64(r.Range(3, 4))
	p["full"] = int64(r.Range(1, 2))
	switch profile {
	case "byz", "forge":
		p["producers"] = 4
		p["byz"] = int64(r.N(4))
		if profile == "byz" {
			p["nolive"] = 1
		} else {
			p["honest"] = 1
		}
	case "elect":
		p["producers"] = int64(r.Range(4, 6))
		p["seats"] = 3
		p["full"] = int64(r.N(2))
	}
	p["users"] = 6
	p["genusers"] = 4
	p["percount"] = 3
	p["lat_us"] = int64([]int{500, 5000, 60000}[r.N(3)])
	p["jitter_us"] = int64([]int{500, 20000, 200000}[r.N(3)])
	p["start"] = (genesisTime + 10) * 1e9
	p["maxwork"] = 4e9
	p["settle_s"] = 300
	p["stagger_ms"] = int64([]int{0, 20, 2000}[r.N(3)])
	if profile == "byz" {
		p["settle_s"] = 60
	}
	if r.P(1, 2) && profile != "byz" {
		p["reboot"] = int64(r.Range(1, 2))
		p["reboot_n"] = int64(r.N(8))
	}
	dur := int64(r.Range(40, 110)) * 1000
	if profile == "elect" {
		dur = int64(r.Range(90, 200)) * 1000
	}
	if profile == "sync" {
		dur = int64(r.Range(180, 400)) * 1000
	}
	p["dur_ms"] = dur
	N := int(p["producers"] + p["full"])
	// load
	ntx := r.Range(20, 120)
	if profile == "sync" {
		ntx = r.Range(30, 200)
	}
	w := []int{14, 22, 4, 3, 1, 8, 16, 3, 5, 2, 1, 2, 2, 4, 0}
	switch profile {
	case "byz", "forge":
		w[kBad] = 60
	case "elect":
		w[kVote], w[kUnvote], w[kRegister], w[kFund] = 25, 3, 5, 10
	}
	// clients that keep to one node do not compete with themselves
	pin := r.P(1, 2)
	if pin {
		p["pin"] = 1
	}
	for i := 0; i < ntx; i++ {
		at := int64(r.Range(6000, int(dur)))
		if r.P(1, 3) {
			at = int64(r.Range(6000, 15000))
		}
		kind, u := r.Pick(w...), r.N(6)
		if u >= 4 && r.P(1, 2) {
			kind = kRecv
		}
		if i < 6 {
			kind, u, at = kFund, r.N(4), int64(r.Range(5000, 9000))
		}
		node := r.N(N)
		if pin {
			node = u % N
		}
		c.Ops = append(c.Ops, core.Op{K: "tx", A: at, B: int64(node), C: int64(u*16 + kind), R: r.U64()})
	}
	nf := r.Range(1, 6)
	at := func() int64 { return int64(r.Range(8000, int(dur))) }
	pair := func() int64 { return int64(r.N(N)*16 + r.N(N)) }
	netFault := func() {
		switch r.Pick(4, 3, 3, 2, 2, 2) {
		case 0:
			c.Ops = append(c.Ops, core.Op{K: "part", A: at(), B: int64(r.Range(1, 1<<uint(N)-2)), C: int64(r.Range(500, 40000))})
		case 1:
			c.Ops = append(c.Ops, core.Op{K: "cut1", A: at(), B: pair(), C: int64(r.Range(500, 40000))})
		case 2:
			c.Ops = append(c.Ops, core.Op{K: "slow", A: at(), B: pair(), C: int64(r.Range(500, 30000)), R: r.U64()})
		case 3:
			c.Ops = append(c.Ops, core.Op{K: "reset", A: at(), B: pair()})
		case 4:
			c.Ops = append(c.Ops, core.Op{K: "freeze", A: at(), B: int64(r.N(N)), C: int64(r.Range(100, 20000))})
		case 5:
			c.Ops = append(c.Ops, core.Op{K: "skew", A: at(), B: int64(r.N(N)), C: int64(r.Range(-3000, 3000))})
		}
	}
	switch profile {
	case "calm":
		p["calm"] = 1
	case "net":
		for i := 0; i < nf; i++ {
			netFault()
		}
	case "crash":
		for i := 0; i < nf; i++ {
			if r.P(1, 3) {
				netFault()
			}
			k := "crash"
			if r.P(1, 6) {
				k = "stop"
			} else if r.P(1, 12) {
				k = "wipe"
			}
			c.Ops = append(c.Ops, core.Op{K: k, A: at(), B: int64(r.N(N)), C: int64(r.Range(0, 25000))})
		}
	case "elect":
		for i := 0; i < nf/2; i++ {
			netFault()
		}
		if r.P(1, 2) {
			c.Ops = append(c.Ops, core.Op{K: "crash", A: at(), B: int64(r.N(N)), C: int64(r.Range(0, 25000))})
		}
	case "byz", "forge":
		for i := 0; i < nf*3; i++ {
			c.Ops = append(c.Ops, core.Op{K: "forge", A: at(), B: int64(r.N(N)), R: r.U64()})
		}
		if r.P(1, 2) {
			netFault()
		}
	case "sync":
		p["late"] = 1 << uint(N-1)
		if r.P(1, 2) {
			c.Ops = append(c.Ops, core.Op{K: "wipe", A: int64(r.Range(150000, int(dur))), B: int64(r.N(N)), C: int64(r.Range(0, 5000))})
		}
		for i := 0; i < nf/2; i++ {
			netFault()
		}
		if r.P(1, 2) {
			c.Ops = append(c.Ops, core.Op{K: "crash", A: int64(r.Range(150000, int(dur))), B: int64(r.N(N)), C: int64(r.Range(0, 25000))})
		}
	}
	return c
}
