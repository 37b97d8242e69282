package vmsim

import (
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
	"github.com/vitelabs/go-vite/v2/zzverif/simfs"
)

// gen draws a case. Profiles:
//
//	books  stakes, block producers and tokens; rollbacks, restarts and crashes
//	dex    the exchange as well
//	match  the exchange, mostly orders
//	contracts  contracts of users
//	quota  transactions at the limit of what their accounts may send
func gen(profile string, seed uint64, thorough bool) *sim.Case {
	r := sim.NewRand(seed*2654435761 + 99)
	c := &sim.Case{Sched: sim.RandSched(r), Params: map[string]int64{}}
	c.Sched.Preempt = 0
	c.Sched.FsSleep = 0
	c.Params["users"] = int64(r.Range(3, 6))
	c.Params["regheight"] = int64(r.N(3))
	n := r.Range(60, 220)
	if thorough {
		n = r.Range(60, 500)
	}
	wt := []int{5, 5, 4, 1, 0, 0, 0}
	if profile == "contracts" {
		wt = []int{1, 0, 0, 1, 0, 0, 0, 20}
		if r.P(1, 15) {
			c.Params["deep"] = 1
			c.Params["maxwork"] = 400e6
		}
	} else if profile == "quota" {
		c.Params["quota"] = 1
		c.Params["rich"] = int64(r.N(4))
		wt = []int{0, 0, 0, 2, 0, 0, 0, 2, 30, 4}
	} else if profile == "dex" || profile == "match" {
		c.Params["dex"] = 1
		if r.P(1, 3) {
			c.Params["tiny"] = 1
		}
		c.Params["odd"] = int64(r.N(4))
		c.Params["focus"] = int64(r.N(6))
		if r.P(1, 20) {
			c.Params["flood"] = 1
		}
		wt = []int{0, 0, 0, 0, 12, 3, 2}
		switch r.N(6) {
		case 0:
			wt[0] = 1
		case 1:
			wt = []int{1, 0, 0, 1, 4, 10, 2}
		case 2:
			wt = []int{0, 0, 1, 1, 30, 1, 1}
		case 3:
			wt = []int{1, 0, 0, 0, 10, 6, 8}
			if r.P(1, 3) {
				c.Params["latejobs"] = int64(r.Range(8, 14))
			}
		}
		if profile == "match" {
			wt = []int{0, 0, 0, 0, 40, 2, 1}
			if r.P(1, 2) {
				c.Params["focus"] = int64(r.Range(1, 5))
			}
		}
	} else {
		switch r.N(5) {
		case 0:
			wt[0] = 20
		case 1:
			wt[1] = 20
		case 2:
			wt[2] = 20
		}
	}
	wRoll, wRestart, wDue := r.N(3), 0, 0
	if profile == "books" || profile == "dex" && r.P(1, 2) {
		wDue = r.N(3)
	}
	wPart, wFlood, wSqueeze := 0, 0, 0
	if profile == "quota" {
		wPart, wFlood, wSqueeze = r.N(12), r.N(3), r.N(10)
		wDue = r.N(2)
	}
	if r.P(1, 4) {
		wRestart = 1
	}
	if r.P(1, 3) {
		wRoll = 0
	}
	for i := 0; i < n; i++ {
		op := sim.Op{R: r.U64()}
		switch r.Pick(60, 10, 30, 22, 3, 3, wRoll, wRestart, 3, wDue, wPart, wFlood, wSqueeze) {
		case 0:
			op.K, op.A = "call", int64(r.Pick(wt...))
		case 1:
			op.K, op.A = "recv", int64(r.N(100))
		case 2:
			op.K, op.A = "pump", int64(r.Range(1, 8))
		case 3:
			op.K, op.A = "snap", int64([]int{1, 1, 1, 60, 1800, 3599, 3600, 7200, 43200, 86399, 86400, 86401, 200000}[r.N(13)])
		case 4:
			op.K, op.A = "empty", int64([]int{2, 19, 90, 300, 601}[r.N(5)])
			if profile == "quota" {
				op.A = int64([]int{1, 10, 40, 73, 74, 75, 76, 100, 300}[r.N(9)])
			}
		case 5:
			op.K = "settle"
		case 6:
			op.K, op.A = "delsb", int64(r.Range(1, 6))
			if r.P(1, 6) {
				op.A = int64(r.Range(6, 60))
			} else if r.P(1, 2) {
				op.K = "delab"
			}
		case 7:
			op.K = "restart"
		case 8:
			op.K, op.A = "sleep", int64([]int{200, 1500, 4000}[r.N(3)])
		case 9:
			op.K = "due"
		case 10:
			op.K, op.A = "part", 1
		case 11:
			op.K, op.A = "flood", int64(r.Range(10, 60))
		case 12:
			op.K = "squeeze"
		}
		c.Ops = append(c.Ops, op)
	}
	if r.P(1, 3) {
		for i, k := 0, r.Range(1, 2); i < k; i++ {
			at := r.N(n)
			for j := at; j < n && i == 0; j++ { // where the node writes to the disk
				if c.Ops[j].K == "sleep" {
					at = j
					break
				}
			}
			c.Faults = append(c.Faults, sim.Op{K: "crash", A: int64(at), B: int64(r.N(30)), C: simfs.CrashKill, R: r.U64()})
		}
	}
	return c
}
