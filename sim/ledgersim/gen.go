package ledgersim

import (
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
	"github.com/vitelabs/go-vite/v2/zzverif/simfs"
)

// gen draws a case. Profiles:
//
//	crash     process crashes at random disk operations, also during recovery
//	rollback  deletions of account and snapshot blocks, no crash, clean restarts
//	deep      long chains, rollbacks beyond the redo window
//	events    clients with filters and subscriptions
//	readers   concurrent readers while blocks are inserted and flushed
func gen(profile string, seed uint64, thorough bool) *sim.Case {
	r := sim.NewRand(seed*2654435761 + 17)
	c := &sim.Case{Sched: sim.RandSched(r), Params: map[string]int64{}}
	c.Params["users"] = int64(r.Range(2, 5))
	c.Params["plugins"] = int64(r.N(2))
	c.Params["cachelevel"] = int64(r.N(2))
	n := r.Range(15, 120)
	if thorough {
		n = r.Range(15, 300)
	}
	wSnap, wDelAb, wDelSb, wFlush, wRestart, wSleep := 8, 2, 2, 2, 1, 4
	switch profile {
	case "crash", "diskerr":
		wDelSb, wRestart = 2, 0
	case "rollback":
		wDelAb, wDelSb, wRestart = 4, 5, 1
		if r.P(1, 3) {
			c.Params["upgrade"] = int64(r.Range(2, 9))
		}
	case "readers":
		c.Params["readers"] = int64(r.Range(1, 5))
		c.Sched.Preempt = []uint32{0, 300, 60, 60, 20}[r.N(5)]
		wFlush = []int{2, 6, 12}[r.N(3)]
		wDelAb, wDelSb, wRestart = r.N(2), r.N(2), 0
		c.Params["plugins"] = 0
	case "events":
		c.Params["events"] = int64(r.Range(1, 6))
		c.Sched.Preempt = []uint32{0, 300, 60, 20}[r.N(4)]
		wDelAb, wDelSb, wRestart = 2+r.N(4), 2+r.N(4), r.N(6)/5
		wFlush = r.N(3)
		c.Params["lazy"] = int64(r.N(3))
		if r.P(1, 25) {
			c.Params["stall"] = 1
		}
		c.Sched.Mode = []uint32{1, 2, 2, 3}[r.N(4)]
		c.Sched.Epoch = []uint64{200, 2000, 20000, 200000}[r.N(4)]
	case "deep":
		return genDeep(c, r, thorough)
	}
	bigDel := r.P(1, 3)
	for i := 0; i < n; i++ {
		var op sim.Op
		switch r.Pick(12, 10, 2, wSnap, wDelAb, wDelSb, wFlush, wRestart, wSleep, 2) {
		case 0:
			op = sim.Op{K: "send", A: int64(r.N(8))}
		case 1:
			op = sim.Op{K: "recv", A: int64(r.N(100)), B: int64(r.N(100))}
		case 2:
			op = sim.Op{K: "create", A: int64(r.N(8))}
		case 3:
			op = sim.Op{K: "snap", B: int64(r.N(40))}
			if r.P(1, 3) {
				op.A = int64(r.Range(1, 1000))
			}
			if r.P(1, 4) {
				op.C = 1
			}
		case 4:
			op = sim.Op{K: "delab", A: int64(r.N(100)), B: int64(r.N(2))}
		case 5:
			op = sim.Op{K: "delsb", A: int64(r.N(4)), B: int64(r.N(2))}
			if bigDel && r.P(1, 4) {
				op.A = int64(r.N(40))
			}
		case 6:
			op = sim.Op{K: "flush"}
			if profile == "readers" && r.P(2, 3) {
				op.K = "flushbg"
			}
		case 7:
			op = sim.Op{K: "restart", A: int64(r.N(2))}
		case 8:
			op = sim.Op{K: "sleep", A: int64([]int{1, 200, 950, 2500}[r.N(4)])}
			if profile == "events" && r.P(1, 3) {
				op.A = int64([]int{30000, 150000, 299000, 310000, 605000, -1, -1, -1, -1}[r.N(9)])
			}
		case 9:
			op = sim.Op{K: "check", A: int64(r.N(2))}
		}
		op.R = r.U64()
		c.Ops = append(c.Ops, op)
		if op.K == "sleep" && op.A < 0 {
			c.Ops = append(c.Ops, sim.Op{K: "burst", A: int64(r.Range(2, 30)), R: r.U64()})
		}
	}
	if c.Params["stall"] > 0 {
		c.Ops = append(c.Ops, sim.Op{K: "burst", A: 300, R: r.U64()})
	}
	if profile == "crash" {
		k := r.Range(1, 3)
		for i := 0; i < k; i++ {
			f := sim.Op{K: "crash", A: int64(r.N(n)), C: simfs.CrashKill, R: r.U64()}
			// mostly during operations that write
			for t := 0; t < 6; t++ {
				o := c.Ops[f.A].K
				if o == "flush" || o == "delsb" || o == "sleep" {
					break
				}
				f.A = int64(r.N(n))
			}
			f.B = int64(r.N(40))
			if r.P(1, 10) {
				f.A = -1 // while the ledger is first created
				f.B = int64(r.N(200))
			}
			c.Faults = append(c.Faults, f)
			if r.P(1, 3) {
				c.Faults = append(c.Faults, sim.Op{K: "crash", A: int64(-1 - (i + 1)), B: int64(r.N(60)), C: simfs.CrashKill, R: r.U64()})
			}
		}
	}
	if profile == "diskerr" {
		for i, k := 0, r.Range(1, 3); i < k; i++ {
			f := sim.Op{K: "ioerr", A: int64(r.N(n)), C: int64(r.N(5)), R: r.U64()}
			for t := 0; t < 6; t++ {
				o := c.Ops[f.A].K
				if o == "flush" || o == "delsb" || o == "sleep" {
					break
				}
				f.A = int64(r.N(n))
			}
			f.B = int64(r.N([]int{2, 8, 25}[r.N(3)]))
			c.Faults = append(c.Faults, f)
		}
	}
	return c
}

func genDeep(c *sim.Case, r *sim.Rand, thorough bool) *sim.Case {
	c.Sched.FsSleep = 0
	c.Sched.Yield = 0
	c.Sched.Preempt = 0
	n := r.Range(130, 400)
	far := r.P(1, 2) // beyond what the log of changes reaches back
	if far {
		n = r.Range(1230, 1420)
	}
	c.Params["users"] = int64(r.Range(2, 4))
	del := func(last bool) {
		a := r.Range(1, 140)
		switch r.N(4) {
		case 0:
			a = r.Range(100, 250)
		case 1:
			a = r.Range(n-60, n+20)
		}
		if far && !last {
			a = r.Range(1, 20)
		} else if far {
			a = r.Range(1190, n+20)
		}
		if r.P(1, 2) {
			// with blocks that no snapshot has confirmed
			for j := r.Range(1, 8); j > 0; j-- {
				c.Ops = append(c.Ops, sim.Op{K: []string{"send", "recv", "recv", "create"}[r.N(4)], A: int64(r.N(100)), B: int64(r.N(100)), R: r.U64()})
			}
		}
		if r.P(1, 2) {
			c.Ops = append(c.Ops, sim.Op{K: "check", A: 1, R: r.U64()})
		}
		c.Ops = append(c.Ops, sim.Op{K: "delsb", A: int64(a), B: int64(r.N(2)), R: r.U64()}, sim.Op{K: "check", A: 1, R: r.U64()})
	}
	act := r.Range(2, 12) // how rare account blocks are
	for i := 0; i < n; i++ {
		rare := act
		if far && i < 150 {
			rare = 2 // what a far rollback has to bring back
		}
		for r.P(1, rare) {
			switch r.Pick(5, 5, 1) {
			case 0:
				c.Ops = append(c.Ops, sim.Op{K: "send", A: int64(r.N(8)), R: r.U64()})
			case 1:
				c.Ops = append(c.Ops, sim.Op{K: "recv", A: int64(r.N(100)), B: int64(r.N(100)), R: r.U64()})
			case 2:
				c.Ops = append(c.Ops, sim.Op{K: "create", A: int64(r.N(8)), R: r.U64()})
			}
		}
		op := sim.Op{K: "snap", B: int64(r.N(40)), R: r.U64()}
		if r.P(1, 4) {
			op.A = int64(r.Range(1, 1000))
		}
		c.Ops = append(c.Ops, op)
		if r.P(1, 100) {
			c.Ops = append(c.Ops, sim.Op{K: "sleep", A: 1000, R: r.U64()})
		}
		if r.P(1, 400) {
			c.Ops = append(c.Ops, sim.Op{K: "restart", R: r.U64()})
		}
		if r.P(1, 200) {
			del(false)
		}
	}
	del(true)
	for i := 0; i < 20; i++ {
		c.Ops = append(c.Ops, sim.Op{K: []string{"send", "recv", "snap", "create"}[r.N(4)], A: int64(r.N(50)), R: r.U64()})
	}
	far = false
	n = 40
	del(false)
	return c
}
