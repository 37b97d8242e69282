// Package storesim runs the embedded key-value store (common/db/xleveldb) with several concurrent
// writers and readers on the simulated disk, and judges every answer against a map.
//
// The writers own disjoint keys, so what the store may contain is a vector: for every writer, how
// many of its writes are in. A scan or a snapshot determines that vector, and linearizability is:
// the writes acknowledged before the read began are in, none that had not begun is, and any two
// vectors are comparable.
package storesim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/errors"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/filter"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/iterator"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/opt"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
	"github.com/vitelabs/go-vite/v2/zzverif/simfs"
)

type kv map[string]string

type writer struct {
	id      int
	keys    []string
	vers    []kv     // vers[c]: this writer's keys after its first c writes
	edits   [][]edit // edits[c]: what its write c did; edits[0] is unused
	durable []bool   // durable[c]: its write c was acknowledged after a sync
	started int      // writes begun
	done    int      // writes acknowledged
	serial  int      // writes begun since the store was created, which makes every value unique
	stopped bool
}

type edit struct {
	del  bool
	k, v string
}

type snapRec struct {
	s     *leveldb.Snapshot
	want  kv
	users int
	gone  bool
}

func (s *snapRec) release() {
	if s.gone && s.users == 0 {
		s.s.Release()
	}
}

type world struct {
	c        *sim.Case
	node     *sim.Node
	db       *leveldb.DB
	ws       []*writer
	owner    map[string]*writer
	seg      int
	crashN   int
	degraded bool
	opening  bool
	vectors  [][]int // unambiguous vectors observed since the last opening, a chain
	snaps    []*snapRec
	opts     *opt.Options
	powered  bool // the power failed since the store was last open
}

func (w *world) options() *opt.Options {
	p := w.c.Params
	o := &opt.Options{
		WriteBuffer:            int(p["wbuf"]),
		CompactionTableSize:    int(p["table"]),
		CompactionTotalSize:    int(p["total"]),
		BlockSize:              int(p["block"]),
		BlockRestartInterval:   int(p["restart"]),
		CompactionL0Trigger:    int(p["l0"]),
		WriteL0SlowdownTrigger: int(p["l0"]) + 4,
		WriteL0PauseTrigger:    int(p["l0"]) + 8,
		BlockCacheCapacity:     int(p["cache"]),
		OpenFilesCacheCapacity: int(p["files"]),
		NoWriteMerge:           p["nomerge"] == 1,
		DisableBufferPool:      p["nopool"] == 1,
	}
	if p["nocomp"] == 1 {
		o.Compression = opt.NoCompression
	}
	if p["bloom"] == 1 {
		o.Filter = filter.NewBloomFilter(10)
	}
	if p["default"] == 1 {
		return nil
	}
	return o
}

// in runs f as the node and waits until it ends or the node dies.
func (w *world) in(f func()) string {
	done := make(chan struct{})
	n := w.node
	n.Go(func() { f(); close(done) })
	select {
	case <-done:
		if n.IsDead {
			return n.Why
		}
		return ""
	case <-n.Dead:
		return n.Why
	}
}

func (w *world) boot(dir string) (err error, died string) {
	w.node = sim.Boot("store", dir)
	w.node.OnPanic = func(n *sim.Node, msg string) {
		if w.degraded {
			n.Crash(0, nil, msg)
			return
		}
		sim.Fail("panic", "segment %d: the store panicked: %s", w.seg, msg)
	}
	w.arm()
	died = w.in(func() {
		var db *leveldb.DB
		db, err = leveldb.OpenFile(dir+"/db", w.opts)
		w.db = db
	})
	return
}

func (w *world) arm() {
	node := w.node
	base := node.Disk.Ops
	for i := range w.c.Faults {
		f := w.c.Faults[i]
		if f.A != int64(w.seg) {
			continue
		}
		switch f.K {
		case "crash":
			prev := node.Disk.OnOp
			node.Disk.OnOp = func(n int, kind, path string) {
				if prev != nil {
					prev(n, kind, path)
				}
				if n-base >= int(f.B)+1 && !node.IsDead {
					w.crashN++
					r := sim.NewRand(f.R)
					if f.C != 0 {
						w.powered = true
					}
					node.Crash(int(f.C), r.U64, fmt.Sprintf("crash before disk op %d (%s %s)", n, kind, path))
					if runtime.SimTag() == node.Tag {
						sim.Park()
					}
				}
			}
		case "ioerr":
			hits := 0
			skip := int(f.B)
			r := sim.NewRand(f.R)
			rd := f.C >= 4
			node.Disk.Fault = func(n int, kind, path string, size int) (x simfs.Fault) {
				if (kind == "read" || kind == "pread") != rd || w.opening {
					return
				}
				if skip > 0 {
					skip--
					return
				}
				if hits > 0 && f.C != 2 && f.C != 3 {
					return
				}
				hits++
				w.degraded = true
				x.Hit = true
				switch f.C {
				case 0, 4:
					x.Err = syscall.EIO
				case 1:
					x.Err = syscall.EIO
					if size > 0 {
						x.Short = 1 + r.N(size)
					}
				case 2:
					x.Err = syscall.ENOSPC
				default:
					x.Err = syscall.ENOSPC
					if size > 0 {
						x.Short = 1 + r.N(size)
					}
				}
				return
			}
		}
	}
}

func (w *world) disarm() { w.node.Disk.OnOp = nil; w.node.Disk.Fault = nil }

// ------------------------------------------------------------------ reads

func (w *world) bounds(hi bool) []int {
	v := make([]int, len(w.ws))
	for i, x := range w.ws {
		v[i] = x.done
		if hi {
			v[i] = x.started
		}
	}
	return v
}

func show(m kv, k string) string {
	v, ok := m[k]
	if !ok {
		return "absent"
	}
	if len(v) > 14 {
		v = v[:14]
	}
	return fmt.Sprintf("%q", v)
}

// judge finds the vector of a complete view of the store.
func (w *world) judge(what string, got kv, lo, hi []int) []int {
	parts := make([]kv, len(w.ws))
	for i := range parts {
		parts[i] = kv{}
	}
	for k, v := range got {
		o := w.owner[k]
		if o == nil {
			sim.Fail("wrong-data", "%s: key %q was never written", what, k)
		}
		parts[o.id][k] = v
	}
	vec := make([]int, len(w.ws))
	unique := true
	for i, x := range w.ws {
		n := 0
		for c := lo[i]; c <= hi[i] && c < len(x.vers); c++ {
			if same(x.vers[c], parts[i]) {
				vec[i] = c
				n++
			}
		}
		if n == 0 {
			for c := lo[i]; c <= hi[i] && c < len(x.vers); c++ {
				d := diff(x.vers[c], parts[i])
				sim.Logf("%s: writer %d version %d: %s", what, i, c, d)
			}
			older := -1
			for c := 0; c < len(x.vers); c++ {
				if same(x.vers[c], parts[i]) {
					older = c
				}
			}
			if older >= 0 {
				sim.Fail("lost-or-early-write", "%s: the keys of writer %d are as after its write %d, but its writes %d to %d are the ones it may end with", what, i, older, lo[i], hi[i])
			}
			sim.Fail("wrong-data", "%s: the keys of writer %d are not as after any of its writes %d to %d: versus the last %s", what, i, lo[i], hi[i], diff(x.vers[minInt(hi[i], len(x.vers)-1)], parts[i]))
		}
		if n > 1 {
			unique = false
		}
	}
	if unique {
		return vec
	}
	return nil
}

// judgePower: after a power failure every synced write is in, any others may be or not, and each is
// in as a whole or not at all.
func (w *world) judgePower(what string, got kv) {
	for k := range got {
		if w.owner[k] == nil {
			sim.Fail("wrong-data", "%s: key %q was never written", what, k)
		}
	}
	for _, x := range w.ws {
		in := map[int]bool{}   // writes that are certainly in
		at := map[string]int{} // where the value of a key is from; 0 is what was there before
		for _, k := range x.keys {
			v, ok := got[k]
			if !ok {
				continue
			}
			at[k] = -1
			if v == x.vers[0][k] {
				at[k] = 0
			}
			for c := 1; c <= x.started; c++ {
				for _, e := range x.edits[c] {
					if e.k == k && !e.del && e.v == v {
						at[k] = c
					}
				}
			}
			if at[k] < 0 {
				sim.Fail("wrong-data", "%s: %q is %s, which was never written", what, k, show(got, k))
			}
			if at[k] > 0 {
				in[at[k]] = true
			}
		}
		for c := 1; c <= x.started; c++ {
			if x.durable[c] {
				in[c] = true
			}
		}
		for c := range in {
			last := kv{} // what the write leaves of each of its keys
			gone := map[string]bool{}
			for _, e := range x.edits[c] {
				delete(last, e.k)
				delete(gone, e.k)
				if e.del {
					gone[e.k] = true
				} else {
					last[e.k] = e.v
				}
			}
			for k := range gone {
				if _, ok := got[k]; ok && at[k] < c {
					w.partial(what, x, c, k, got)
				}
			}
			for k, v := range last {
				if g, ok := got[k]; ok {
					if at[k] < c || at[k] == c && g != v {
						w.partial(what, x, c, k, got)
					}
					continue
				}
				later := false
				for d := c + 1; d <= x.started && !later; d++ {
					if n := len(x.edits[d]); n > 0 {
						for i := n - 1; i >= 0; i-- {
							if e := x.edits[d][i]; e.k == k {
								later = e.del
								break
							}
						}
					}
				}
				if !later {
					w.partial(what, x, c, k, got)
				}
			}
		}
		for k := range x.vers[0] {
			if _, ok := got[k]; ok {
				continue
			}
			del := false
			for c := 1; c <= x.started && !del; c++ {
				for _, e := range x.edits[c] {
					del = del || e.k == k && e.del
				}
			}
			if !del {
				sim.Fail("lost-write", "%s: %q, which was durable, is gone", what, k)
			}
		}
	}
}

func (w *world) partial(what string, x *writer, c int, k string, got kv) {
	if x.durable[c] {
		sim.Fail("lost-write", "%s: write %d of writer %d was synced, but %q is %s", what, c, x.id, k, show(got, k))
	}
	sim.Fail("partial-write", "%s: write %d of writer %d is there in part: %q is %s", what, c, x.id, k, show(got, k))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func same(a, b kv) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func diff(want, got kv) string {
	var ks []string
	for k := range want {
		if got[k] != want[k] {
			ks = append(ks, k)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var l []string
	for i, k := range ks {
		if i == 3 {
			l = append(l, fmt.Sprintf("and %d more", len(ks)-3))
			break
		}
		l = append(l, fmt.Sprintf("%q is %s, expected %s", k, show(got, k), show(want, k)))
	}
	return strings.Join(l, "; ")
}

// chain: any two complete views are comparable
func (w *world) chain(what string, vec []int) {
	if vec == nil {
		return
	}
	for _, o := range w.vectors {
		less, more := false, false
		for i := range vec {
			less = less || vec[i] < o[i]
			more = more || vec[i] > o[i]
		}
		if less && more {
			sim.Fail("not-serializable", "%s: this view has the writes %v, another had %v: neither contains the other", what, vec, o)
		}
	}
	w.vectors = append(w.vectors, vec)
}

func (w *world) bad(what string, err error) bool {
	if err == nil {
		return false
	}
	if !w.degraded {
		sim.Fail("unexpected-error", "%s: %v", what, err)
	}
	return true
}

// scan reads everything with the iterator, in one of several ways
func (w *world) scan(it iterator.Iterator, mode int, r *sim.Rand) (got kv, err error) {
	got = kv{}
	add := func() {
		k, v := string(it.Key()), string(it.Value())
		if _, dup := got[k]; dup {
			sim.Fail("wrong-data", "a scan returned the key %q twice", k)
		}
		got[k] = v
	}
	switch mode {
	case 0:
		last := ""
		for it.Next() {
			if k := string(it.Key()); k <= last {
				sim.Fail("wrong-data", "a scan is out of order: %q after %q", k, last)
			} else {
				last = k
			}
			add()
		}
	case 1:
		last := ""
		for ok := it.Last(); ok; ok = it.Prev() {
			if k := string(it.Key()); last != "" && k >= last {
				sim.Fail("wrong-data", "a backward scan is out of order: %q before %q", k, last)
			} else {
				last = k
			}
			add()
		}
	default: // forward with steps back and jumps to where it already was
		for ok := it.First(); ok; ok = it.Next() {
			add()
			switch r.N(6) {
			case 0:
				k := string(it.Key())
				if it.Prev() {
					if k2 := string(it.Key()); k2 >= k {
						sim.Fail("wrong-data", "Prev of %q gave %q", k, k2)
					}
					it.Next()
				} else if it.Error() == nil {
					it.First()
				}
				if it.Valid() && string(it.Key()) != k {
					sim.Fail("wrong-data", "Prev and Next from %q gave %q", k, it.Key())
				}
			case 1:
				k := append([]byte(nil), it.Key()...)
				if it.Seek(k) && !bytes.Equal(it.Key(), k) {
					sim.Fail("wrong-data", "Seek to the present key %q gave %q", k, it.Key())
				}
			}
		}
	}
	err = it.Error()
	it.Release()
	return
}

func (w *world) fullScan(what string, mode int, r *sim.Rand) []int {
	lo := w.bounds(false)
	it := w.db.NewIterator(nil, nil)
	hi := w.bounds(true)
	got, err := w.scan(it, mode, r)
	if w.bad(what, err) {
		return nil
	}
	v := w.judge(what, got, lo, hi)
	w.chain(what, v)
	sim.Count("scans", 1)
	return v
}

func inRange(k, from, to string) bool { return k >= from && (to == "" || k < to) }

// ------------------------------------------------------------------ operations of the clients

func (w *world) val(x *writer, key string, r *sim.Rand) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], r.U64())
	n := []int{0, 10, 40, 200, 900}[r.N(5)]
	if r.P(1, 40) {
		n = 6000
	}
	s := fmt.Sprintf("%d.%d.", x.id, x.serial)
	pad := make([]byte, n)
	for i := range pad {
		if r.P(1, 2) {
			pad[i] = byte(r.U64())
		}
	}
	return s + string(b[:]) + string(pad)
}

func (w *world) exec(op sim.Op) {
	r := sim.NewRand(op.R)
	if op.A >= 100 {
		w.read(op, r)
		return
	}
	x := w.ws[int(op.A)%len(w.ws)]
	if x.stopped {
		return
	}
	wo := &opt.WriteOptions{Sync: op.B%2 == 1, NoWriteMerge: op.B%7 == 3}
	cur := x.vers[x.started]
	next := kv{}
	for k, v := range cur {
		next[k] = v
	}
	b := new(leveldb.Batch)
	n := 1
	switch op.K {
	case "batch", "tx":
		n = 1 + r.N(12)
	case "big":
		n = 20 + r.N(40)
	}
	x.serial++
	var es []edit
	for i := 0; i < n; i++ {
		k := x.keys[r.N(len(x.keys))]
		_, has := next[k]
		if has && r.P(1, 3) || op.K == "del" {
			es = append(es, edit{true, k, ""})
			delete(next, k)
		} else {
			v := w.val(x, k, r)
			if i > 0 {
				v += fmt.Sprint(i)
			}
			es = append(es, edit{false, k, v})
			next[k] = v
		}
	}
	x.vers = append(x.vers, next)
	x.edits = append(x.edits, es)
	x.durable = append(x.durable, false)
	x.started++
	var err error
	switch op.K {
	case "put", "del":
		if e := es[0]; e.del {
			err = w.db.Delete([]byte(e.k), wo)
		} else {
			err = w.db.Put([]byte(e.k), []byte(e.v), wo)
		}
	case "batch", "big":
		for _, e := range es {
			if e.del {
				b.Delete([]byte(e.k))
			} else {
				b.Put([]byte(e.k), []byte(e.v))
			}
		}
		err = w.db.Write(b, wo)
	case "tx":
		var tr *leveldb.Transaction
		tr, err = w.db.OpenTransaction()
		if err == nil {
			mine := kv{}
			for k, v := range cur {
				mine[k] = v
			}
			for _, e := range es {
				if e.del {
					err = tr.Delete([]byte(e.k), wo)
					delete(mine, e.k)
				} else {
					err = tr.Put([]byte(e.k), []byte(e.v), wo)
					mine[e.k] = e.v
				}
				if err != nil {
					break
				}
				if r.P(1, 3) {
					k := x.keys[r.N(len(x.keys))]
					v, gerr := tr.Get([]byte(k), nil)
					if gerr != nil && gerr != errors.ErrNotFound {
						w.bad("read in a transaction", gerr)
					} else if want, ok := mine[k]; ok != (gerr == nil) || want != string(v) {
						sim.Fail("wrong-data", "a transaction read %q of its own writes wrongly", k)
					}
				}
			}
			if err != nil || op.C == 1 {
				tr.Discard()
				if err == nil { // nothing of it may remain
					x.vers, x.edits, x.durable = x.vers[:x.started], x.edits[:x.started], x.durable[:x.started]
					x.started--
					sim.Count("transactions_discarded", 1)
					return
				}
			} else {
				err = tr.Commit()
				wo.Sync = true
				if err != nil {
					tr.Discard()
				}
			}
		}
	}
	if w.bad(op.K, err) {
		x.stopped = true
		return
	}
	x.done = x.started
	if wo.Sync {
		x.durable[x.started] = true
		sim.Count("synced_writes", 1)
	}
	sim.Count("writes", 1)
}

func (w *world) read(op sim.Op, r *sim.Rand) {
	switch op.K {
	case "get", "has":
		x := w.ws[r.N(len(w.ws))]
		k := x.keys[r.N(len(x.keys))]
		lo := x.done
		var v []byte
		var err error
		var ok bool
		if op.K == "get" {
			v, err = w.db.Get([]byte(k), nil)
			ok = err == nil
			if err == errors.ErrNotFound {
				err = nil
			}
		} else {
			ok, err = w.db.Has([]byte(k), nil)
		}
		hi := x.started
		if w.bad(op.K, err) {
			return
		}
		for c := lo; c <= hi && c < len(x.vers); c++ {
			want, has := x.vers[c][k]
			if has == ok && (op.K == "has" || want == string(v)) {
				sim.Count("gets", 1)
				return
			}
		}
		sim.Fail("wrong-data", "%s %q: got %v %.14q, not its value after any of the writes %d to %d (last: %s)", op.K, k, ok, v, lo, hi, show(x.vers[minInt(hi, len(x.vers)-1)], k))
	case "scan":
		w.fullScan("scan", int(op.B)%3, r)
	case "range":
		x := w.ws[r.N(len(w.ws))]
		from, to := x.keys[r.N(len(x.keys))], x.keys[r.N(len(x.keys))]
		if from > to {
			from, to = to, from
		}
		lo := w.bounds(false)
		it := w.db.NewIterator(&util.Range{Start: []byte(from), Limit: []byte(to)}, nil)
		hi := w.bounds(true)
		got, err := w.scan(it, int(op.B)%3, r)
		if w.bad("range", err) {
			return
		}
		for _, y := range w.ws {
			good := false
			var last kv
			for c := lo[y.id]; c <= hi[y.id] && c < len(y.vers) && !good; c++ {
				want := kv{}
				for k, v := range y.vers[c] {
					if inRange(k, from, to) {
						want[k] = v
					}
				}
				have := kv{}
				for k, v := range got {
					if w.owner[k] == y {
						have[k] = v
					}
				}
				good = same(want, have)
				last = want
				if !good {
					sim.Debugf("range %s", diff(want, have))
				}
			}
			if !good {
				_ = last
				sim.Fail("wrong-data", "a scan of [%q,%q) does not show the keys of writer %d as after any of its writes %d to %d", from, to, y.id, lo[y.id], hi[y.id])
			}
		}
		sim.Count("range_scans", 1)
	case "seek":
		x := w.ws[r.N(len(w.ws))]
		from := x.keys[r.N(len(x.keys))]
		s, err := w.db.GetSnapshot()
		if w.bad("GetSnapshot", err) {
			return
		}
		it := s.NewIterator(nil, nil)
		var k1 string
		ok := it.Seek([]byte(from))
		if ok {
			k1 = string(it.Key())
		}
		e1 := it.Error()
		got, err := w.scan(it, 0, r)
		_ = got
		it2 := s.NewIterator(nil, nil)
		all, err2 := w.scan(it2, 1, r)
		s.Release()
		if e1 != nil || err != nil || err2 != nil {
			w.bad("seek", firstErr(e1, err, err2))
			return
		}
		want := ""
		for k := range all {
			if k >= from && (want == "" || k < want) {
				want = k
			}
		}
		if want != k1 {
			sim.Fail("wrong-data", "Seek(%q) gave %q, a scan of the same snapshot says %q", from, k1, want)
		}
	case "snap":
		lo := w.bounds(false)
		s, err := w.db.GetSnapshot()
		hi := w.bounds(true)
		if w.bad("GetSnapshot", err) {
			return
		}
		got, err := w.scan(s.NewIterator(nil, nil), int(op.B)%3, r)
		if w.bad("snapshot scan", err) {
			s.Release()
			return
		}
		w.chain("snapshot", w.judge("snapshot", got, lo, hi))
		w.snaps = append(w.snaps, &snapRec{s: s, want: got})
		if len(w.snaps) > 4 {
			o := w.snaps[0]
			w.snaps = w.snaps[1:]
			o.gone = true
			o.release()
		}
		sim.Count("snapshots", 1)
	case "resnap":
		if len(w.snaps) == 0 {
			return
		}
		s := w.snaps[r.N(len(w.snaps))]
		s.users++ // a snapshot may not be used after its release
		defer func() { s.users--; s.release() }()
		if r.P(1, 2) {
			got, err := w.scan(s.s.NewIterator(nil, nil), int(op.B)%3, r)
			if err == leveldb.ErrSnapshotReleased || w.bad("snapshot scan", err) {
				return
			}
			if !same(s.want, got) {
				sim.Fail("snapshot-changed", "a snapshot read twice differs: %s", diff(s.want, got))
			}
		} else {
			x := w.ws[r.N(len(w.ws))]
			for i := 0; i < 5; i++ {
				k := x.keys[r.N(len(x.keys))]
				v, err := s.s.Get([]byte(k), nil)
				if err == leveldb.ErrSnapshotReleased {
					return
				}
				if err != errors.ErrNotFound && w.bad("snapshot get", err) {
					return
				}
				if want, ok := s.want[k]; ok != (err == nil) || want != string(v) {
					sim.Fail("snapshot-changed", "a snapshot read twice differs: %q", k)
				}
			}
		}
		sim.Count("snapshot_rereads", 1)
	case "compact":
		rg := util.Range{}
		if op.B%2 == 1 {
			x := w.ws[r.N(len(w.ws))]
			rg.Start = []byte(x.keys[r.N(len(x.keys))])
		}
		if err := w.db.CompactRange(rg); err != nil {
			w.bad("CompactRange", err)
		}
		sim.Count("manual_compactions", 1)
	case "sleep":
		time.Sleep(time.Duration(op.B) * time.Millisecond)
	}
}

func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

// ------------------------------------------------------------------ run

// reopen boots on dir until it comes up, and judges what is there.
func (w *world) reopen(dir string, what string) {
	w.opening = true
	for try := 0; ; try++ {
		w.degraded = false
		err, died := w.boot(dir)
		if died != "" {
			if try > 10 {
				sim.Bug("too many crashes while opening")
			}
			sim.Injected("crash_while_opening", 1)
			dir = w.node.Dir
			w.seg = -1 - w.crashN
			continue
		}
		if err != nil {
			sim.Fail("open-failed", "%s the store does not open: %v", what, err)
		}
		break
	}
	w.disarm()
	w.opening = false
	w.vectors = nil
	w.snaps = nil
	died := w.in(func() {
		r := sim.NewRand(w.c.Seed + uint64(w.crashN))
		got, err := w.scan(w.db.NewIterator(nil, nil), r.N(3), r)
		if err != nil {
			sim.Fail("unexpected-error", "%s a scan fails: %v", what, err)
		}
		if w.powered {
			w.judgePower(what, got)
			sim.Count("openings_after_power_failure", 1)
		} else {
			w.judge(what, got, w.bounds(false), w.bounds(true))
		}
		w.powered = false
		for _, x := range w.ws { // what is there now was flushed and synced by the opening
			part := kv{}
			for k, v := range got {
				if w.owner[k] == x {
					part[k] = v
				}
			}
			x.vers, x.edits, x.durable = []kv{part}, make([][]edit, 1), make([]bool, 1)
			x.started, x.done, x.stopped = 0, 0, false
		}
	})
	if died != "" {
		sim.Bug("died while judging: %s", died)
	}
	sim.Count("openings", 1)
}

func run(c *sim.Case) {
	w := &world{c: c, owner: map[string]*writer{}}
	w.opts = w.options()
	nk := int(c.Params["keys"])
	for i := 0; i < int(c.Params["writers"]); i++ {
		x := &writer{id: i, vers: []kv{{}}, edits: make([][]edit, 1), durable: make([]bool, 1)}
		r := sim.NewRand(c.Seed*31 + uint64(i))
		for k := 0; k < nk; k++ {
			key := fmt.Sprintf("%c%02d", 'a'+r.N(3), r.N(60))
			switch r.N(8) {
			case 0:
				key += string([]byte{0, byte(r.N(3)), byte(i)})
			case 1:
				key += string([]byte{255, 255, byte(i)})
			case 2:
				key = string([]byte{255, byte(r.N(256)), byte(i)})
			case 3:
				key += strings.Repeat("long", 20) + fmt.Sprint(i)
			default:
				key += fmt.Sprint("-", i)
			}
			if w.owner[key] == nil {
				w.owner[key] = x
				x.keys = append(x.keys, key)
			}
		}
		w.ws = append(w.ws, x)
	}
	w.seg = -1
	w.reopen(sim.NewDir("store"), "fresh:")
	// segments: the operations between two barriers run concurrently, one goroutine per client
	var seg []sim.Op
	n := 0
	flush := func() {
		w.seg = n
		n++
		w.arm()
		by := map[int64][]sim.Op{}
		var who []int64
		for _, o := range seg {
			if by[o.A] == nil {
				who = append(who, o.A)
			}
			by[o.A] = append(by[o.A], o)
		}
		sim.Logf("segment %d: %d operations of %d clients", w.seg, len(seg), len(who))
		seg = nil
		died := ""
		if len(who) > 0 {
			died = w.in(func() {
				ch := make(chan int, len(who))
				for _, a := range who {
					l := by[a]
					go func() {
						for _, o := range l {
							w.exec(o)
						}
						ch <- 1
					}()
				}
				tm := time.After(2 * time.Hour)
				for range who {
					select {
					case <-ch:
					case <-tm:
						if w.degraded {
							sim.Count("stuck_after_disk_error", 1)
							return
						}
						sim.Fail("stuck", "segment %d: an operation does not end", w.seg)
					}
				}
			})
		}
		if died != "" {
			sim.Injected("crash", 1)
			w.reopen(w.node.Dir, "after "+died+":")
			return
		}
		if w.degraded {
			w.node.Crash(0, nil, "restart after a disk error")
			sim.Injected("restart_after_disk_error", 1)
			w.reopen(w.node.Dir, "after a disk error and a restart:")
			return
		}
		w.disarm()
		var parts []interface{}
		for _, x := range w.ws {
			parts = append(parts, x.started, len(x.vers[x.started]))
		}
		lv, _ := w.levels()
		parts = append(parts, lv)
		sim.State(sim.Sig(parts...))
	}
	for _, op := range c.Ops {
		switch op.K {
		case "barrier":
			flush()
			if died := w.in(func() { w.fullScan("scan at rest", int(op.B)%3, sim.NewRand(op.R)) }); died != "" {
				sim.Bug("died: %s", died)
			}
		case "reopen":
			flush()
			died := w.in(func() {
				for _, s := range w.snaps {
					s.s.Release()
				}
				if err := w.db.Close(); err != nil {
					sim.Fail("unexpected-error", "Close: %v", err)
				}
			})
			if died == "" {
				w.node.Crash(0, nil, "reopen")
			}
			w.reopen(w.node.Dir, "after closing and opening:")
		case "power":
			flush()
			r := sim.NewRand(op.R)
			w.node.Crash(int(op.A), r.U64, "power failure at rest")
			if op.A != 0 {
				w.powered = true
			}
			sim.Injected("crash", 1)
			w.reopen(w.node.Dir, "after a power failure at rest:")
		default:
			seg = append(seg, op)
		}
	}
	flush()
	w.in(func() { w.fullScan("final scan", 0, sim.NewRand(1)) })
	w.node.Crash(0, nil, "end")
	w.reopen(w.node.Dir, "at the end:")
	w.in(func() { w.db.Close() })
}

func (w *world) levels() (string, error) {
	var out string
	var err error
	w.in(func() {
		out, err = w.db.GetProperty("leveldb.stats")
		n := 0
		for _, l := range strings.Split(out, "\n") {
			if strings.Contains(l, "|") {
				n++
			}
		}
		sim.Count("levels", int64(n))
		var parts []string
		for l := 0; l < 7; l++ {
			s, _ := w.db.GetProperty(fmt.Sprintf("leveldb.num-files-at-level%d", l))
			parts = append(parts, s)
			if l >= 2 && s != "0" && s != "" {
				sim.Count("tables_at_level_2_or_more", 1)
			}
		}
		out = strings.Join(parts, ",")
	})
	return out, err
}

func gen(profile string, seed uint64, thorough bool) *sim.Case {
	r := sim.NewRand(seed*2654435761 + 99)
	c := &sim.Case{Sim: "store", Profile: profile, Seed: seed, Sched: sim.RandSched(r)}
	pick := func(xs ...int64) int64 { return xs[r.N(len(xs))] }
	c.Params = map[string]int64{
		"writers": int64(1 + r.N(4)), "keys": pick(4, 12, 30),
		"wbuf": pick(600, 2000, 8000), "table": pick(500, 2000, 8000), "total": pick(1000, 4000, 20000),
		"block": pick(64, 256, 4096), "restart": pick(1, 4, 16), "l0": pick(1, 2, 4),
		"cache": pick(-1, 1000, 100000), "files": pick(1, 5, 500),
		"nomerge": pick(0, 0, 1), "nopool": pick(0, 1), "nocomp": pick(0, 1), "bloom": pick(0, 1), "default": pick(0, 0, 0, 0, 0, 0, 1),
	}
	segs := 3 + r.N(6)
	per := []int{10, 40, 90}[r.N(3)]
	if thorough {
		per *= 2
	}
	nw := int(c.Params["writers"])
	for s := 0; s < segs; s++ {
		for i := 0; i < per; i++ {
			op := sim.Op{R: r.U64(), B: int64(r.N(14))}
			if r.P(3, 5) {
				op.A = int64(r.N(nw))
				op.K = []string{"put", "put", "del", "batch", "batch", "batch", "batch", "big"}[r.N(8)]
				if op.K == "tx" && r.P(1, 4) {
					op.C = 1
				}
			} else {
				op.A = int64(100 + r.N(2))
				op.K = []string{"get", "get", "get", "has", "scan", "scan", "range", "seek", "snap", "resnap", "resnap", "compact", "sleep"}[r.N(13)]
				if op.K == "compact" && r.P(1, 2) {
					op.A = 102
				}
			}
			c.Ops = append(c.Ops, op)
		}
		k := r.Pick(5, 2, 2)
		if s == segs-1 {
			k = 0
		}
		switch k {
		case 0:
			c.Ops = append(c.Ops, sim.Op{K: "barrier", R: r.U64(), B: int64(r.N(3))})
		case 1:
			c.Ops = append(c.Ops, sim.Op{K: "reopen"})
		case 2:
			c.Ops = append(c.Ops, sim.Op{K: "power", A: pick(0, 1, 2, 2), R: r.U64()})
		}
	}
	for s := 0; s < segs; s++ {
		if r.P(1, 3) {
			f := sim.Op{K: "crash", A: int64(s), B: int64(r.N(1 + []int{10, 60, 400}[r.N(3)])), C: pick(0, 1, 2, 2), R: r.U64()}
			if profile == "diskerr" || r.P(1, 4) {
				f.K, f.C = "ioerr", int64(r.N(5))
				if f.C == 4 {
					f.B = int64(r.N(60))
				}
			}
			c.Faults = append(c.Faults, f)
		}
	}
	for s := 0; s < 4; s++ { // while opening
		if r.P(1, 3) {
			c.Faults = append(c.Faults, sim.Op{K: "crash", A: int64(-2 - s), B: int64(r.N(25)), C: pick(0, 1, 2, 2), R: r.U64()})
		}
	}
	return c
}

func init() { sim.Sims["store"] = sim.Sim{Gen: gen, Run: run} }
