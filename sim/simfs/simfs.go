// Package simfs is the simulated disk. Files live in a scratch directory (tmpfs) and every
// file-system call is mirrored in a shadow model that knows which bytes and directory entries are
// durable, so that the disk contents after a crash at this very instant can be produced.
package simfs

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

const (
	CrashKill      = iota // process death: every completed call survives
	CrashPower            // power loss: per file a prefix of the unsynced writes, the last one torn
	CrashPowerAny         // power loss: any subset of the unsynced writes
	CrashPowerNone        // power loss: nothing unsynced survives
)

type wop struct {
	off   int64
	data  []byte
	trunc bool // truncate to off
}

type inode struct {
	id      int
	data    []byte
	durable []byte
	pend    []wop
}

type mop struct {
	kind int // 0 link path->ino, 1 unlink, 2 rename, 3 mkdir, 4 rmdir
	path string
	to   string
	ino  *inode
}

type fdInfo struct {
	ino  *inode
	path string
	disk *Disk
	wr   bool
}

// Disk is one node's disk: a directory.
type Disk struct {
	Root string
	Tag  uint32

	ns       map[string]*inode // nil value = directory
	durNs    map[string]*inode
	journal  []mop
	nextIno  int
	Ops      int // mutating calls so far
	SyncOps  int
	ReadOps  int
	OnOp     func(n int, kind string, path string) // called before mutating call number n
	AfterOp  func(n int, kind string, path string)
	Fault    func(n int, kind string, path string, size int) Fault
	LogOps   bool
	Oplog    []string
	Degraded bool // a fault was injected
}

type Fault struct {
	Err   syscall.Errno
	Short int // bytes really written before the error (or short count when Err==0)
	Hit   bool
}

var (
	disks  []*Disk
	fds    = map[int]*fdInfo{}
	Rnd    func() uint64
	YieldN uint64 // 1 in YieldN calls yields (0 = never)
	SleepN uint64 // 1 in SleepN calls sleeps
	SleepD time.Duration
	Stats  = map[string]int{}
)

func Install() { syscall.SimHook = hook }

func NewDisk(root string, tag uint32) *Disk {
	os.MkdirAll(root, 0755)
	d := &Disk{Root: root, Tag: tag, ns: map[string]*inode{}, durNs: map[string]*inode{}}
	// adopt whatever is there as durable
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == root {
			return nil
		}
		if fi.IsDir() {
			d.ns[p] = nil
			d.durNs[p] = nil
		} else {
			b, _ := os.ReadFile(p)
			d.nextIno++
			in := &inode{id: d.nextIno, data: b, durable: append([]byte(nil), b...)}
			d.ns[p] = in
			d.durNs[p] = in
		}
		return nil
	})
	disks = append(disks, d)
	return d
}

// Detach stops tracking a disk (its node is dead).
func (d *Disk) Detach() {
	for i, x := range disks {
		if x == d {
			disks = append(disks[:i:i], disks[i+1:]...)
			break
		}
	}
}

// clean knows the absolute name of the working directory, under which all disks are.
func clean(path string) string { return strings.TrimPrefix(filepath.Clean(path), "/proc/self/cwd/") }

func find(path string) *Disk {
	for _, d := range disks {
		if strings.HasPrefix(path, d.Root) && (len(path) == len(d.Root) || path[len(d.Root)] == '/') {
			return d
		}
	}
	return nil
}

func pause() {
	if Rnd == nil {
		return
	}
	if SleepN != 0 && Rnd()%SleepN == 0 {
		time.Sleep(time.Duration(Rnd() % uint64(SleepD)))
		return
	}
	if YieldN != 0 && Rnd()%YieldN == 0 {
		runtime.Gosched()
	}
}

var opNames = []string{"open", "close", "write", "pwrite", "fsync", "ftruncate", "truncate", "rename", "unlink", "rmdir", "mkdir", "read", "pread"}

func hook(c *syscall.SimCall, do func() (int, error)) (int, error) {
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	var d *Disk
	var fi *fdInfo
	path := c.Path
	switch c.Op {
	case syscall.SimOpOpen, syscall.SimOpTruncate, syscall.SimOpRename, syscall.SimOpUnlink, syscall.SimOpRmdir, syscall.SimOpMkdir:
		path = clean(path)
		d = find(path)
	default:
		fi = fds[c.Fd]
		if fi != nil {
			d, path = fi.disk, fi.path
		}
	}
	if d == nil {
		n, err := do()
		if c.Op == syscall.SimOpClose {
			delete(fds, c.Fd)
		}
		return n, err
	}
	kind := opNames[c.Op]
	flags := int(c.Off)
	mut := false
	switch c.Op {
	case syscall.SimOpOpen:
		if flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			_, exist := d.ns[path]
			mut = !exist || flags&syscall.O_TRUNC != 0
		}
	case syscall.SimOpClose, syscall.SimOpRead, syscall.SimOpPread:
	default:
		mut = true
	}
	if mut {
		d.Ops++
		if d.OnOp != nil {
			d.OnOp(d.Ops, kind, path)
		}
	} else {
		d.ReadOps++
	}
	if d.Fault != nil && (mut || c.Op == syscall.SimOpRead || c.Op == syscall.SimOpPread) {
		f := d.Fault(d.Ops, kind, path, len(c.P))
		if f.Hit {
			d.Degraded = true
			Stats["fault_"+kind+"_"+f.Err.Error()]++
			if (c.Op == syscall.SimOpWrite || c.Op == syscall.SimOpPwrite) && f.Short > 0 && f.Short < len(c.P) {
				full := c.P
				c.P = full[:f.Short]
				n, err := d.apply(c, fi, path, flags, do)
				c.P = full
				if err != nil {
					return n, err
				}
				if f.Err == 0 {
					return n, nil
				}
				return n, f.Err // what os.File reports: n bytes, then the error
			}
			if f.Err != 0 {
				return -1, f.Err
			}
		}
	}
	if d.LogOps {
		d.Oplog = append(d.Oplog, fmt.Sprintf("%d %s %s %d", d.Ops, kind, strings.TrimPrefix(path, d.Root), len(c.P)))
	}
	n, err := d.apply(c, fi, path, flags, do)
	if mut && d.AfterOp != nil {
		d.AfterOp(d.Ops, kind, path)
	}
	if mut || c.Op == syscall.SimOpOpen {
		runtime.SimNoPreempt(false)
		pause()
		runtime.SimNoPreempt(true)
	}
	return n, err
}

func (d *Disk) apply(c *syscall.SimCall, fi *fdInfo, path string, flags int, do func() (int, error)) (int, error) {
	switch c.Op {
	case syscall.SimOpOpen:
		n, err := do()
		if err != nil {
			return n, err
		}
		in, ok := d.ns[path]
		if !ok {
			if flags&syscall.O_CREAT == 0 {
				// the root directory itself, or something we do not track
				return n, err
			}
			d.nextIno++
			in = &inode{id: d.nextIno}
			d.ns[path] = in
			d.journal = append(d.journal, mop{kind: 0, path: path, ino: in})
		} else if in != nil && flags&syscall.O_TRUNC != 0 && len(in.data) > 0 {
			in.data = nil
			in.pend = append(in.pend, wop{off: 0, trunc: true})
		}
		if n > 2 {
			fds[n] = &fdInfo{ino: in, path: path, disk: d, wr: flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0}
		}
		return n, err
	case syscall.SimOpClose:
		delete(fds, c.Fd)
		return do()
	case syscall.SimOpWrite:
		n, err := do()
		if n > 0 && fi.ino != nil {
			pos, e := syscall.Seek(c.Fd, 0, 1)
			if e != nil {
				panic(e)
			}
			fi.ino.write(pos-int64(n), c.P[:n])
		}
		return n, err
	case syscall.SimOpPwrite:
		n, err := do()
		if n > 0 && fi.ino != nil {
			fi.ino.write(c.Off, c.P[:n])
		}
		return n, err
	case syscall.SimOpFsync:
		n, err := do()
		if err == nil {
			d.SyncOps++
			if fi.ino != nil {
				fi.ino.sync()
			}
			d.commitJournal(len(d.journal))
		}
		return n, err
	case syscall.SimOpFtruncate:
		n, err := do()
		if err == nil && fi.ino != nil {
			fi.ino.truncate(c.Off)
		}
		return n, err
	case syscall.SimOpTruncate:
		n, err := do()
		if in := d.ns[path]; err == nil && in != nil {
			in.truncate(c.Off)
		}
		return n, err
	case syscall.SimOpRename:
		n, err := do()
		if err == nil {
			to := clean(c.Path2)
			m := mop{kind: 2, path: path, to: to}
			d.journal = append(d.journal, m)
			applyMeta(d.ns, m)
			for _, f := range fds {
				if f.disk == d && f.path == path {
					f.path = to
				}
			}
		}
		return n, err
	case syscall.SimOpUnlink, syscall.SimOpRmdir:
		n, err := do()
		if err == nil {
			m := mop{kind: 1, path: path}
			d.journal = append(d.journal, m)
			applyMeta(d.ns, m)
		}
		return n, err
	case syscall.SimOpMkdir:
		n, err := do()
		if err == nil {
			m := mop{kind: 3, path: path}
			d.journal = append(d.journal, m)
			applyMeta(d.ns, m)
		}
		return n, err
	}
	return do()
}

func applyMeta(ns map[string]*inode, m mop) {
	switch m.kind {
	case 0:
		ns[m.path] = m.ino
	case 1, 4:
		delete(ns, m.path)
	case 3:
		ns[m.path] = nil
	case 2:
		in, ok := ns[m.path]
		if !ok {
			return
		}
		delete(ns, m.path)
		ns[m.to] = in
		if in == nil { // a directory: move its entries
			pre := m.path + "/"
			var ks []string
			for k := range ns {
				if strings.HasPrefix(k, pre) {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				v := ns[k]
				delete(ns, k)
				ns[m.to+"/"+k[len(pre):]] = v
			}
		}
	}
}

func (d *Disk) commitJournal(n int) {
	for _, m := range d.journal[:n] {
		applyMeta(d.durNs, m)
	}
	d.journal = append([]mop(nil), d.journal[n:]...)
}

func writeAt(b []byte, off int64, p []byte) []byte {
	end := off + int64(len(p))
	if int64(len(b)) < end {
		if int64(cap(b)) < end {
			nb := make([]byte, end, end+end/2+64)
			copy(nb, b)
			b = nb
		} else {
			old := len(b)
			b = b[:end]
			for i := old; i < int(end); i++ {
				b[i] = 0
			}
		}
	}
	copy(b[off:], p)
	return b
}

func truncTo(b []byte, n int64) []byte {
	if int64(len(b)) > n {
		return append([]byte(nil), b[:n]...)
	}
	for int64(len(b)) < n {
		b = append(b, 0)
	}
	return b
}

func (in *inode) write(off int64, p []byte) {
	in.data = writeAt(in.data, off, p)
	in.pend = append(in.pend, wop{off: off, data: append([]byte(nil), p...)})
}
func (in *inode) truncate(n int64) {
	in.data = truncTo(in.data, n)
	in.pend = append(in.pend, wop{off: n, trunc: true})
}
func (in *inode) sync() {
	in.durable = append(in.durable[:0:0], in.data...)
	in.pend = nil
}

// Image writes what a restart after a crash right now would find to dir.
func (d *Disk) Image(dir string, model int, rnd func() uint64) (lost int) {
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	h := syscall.SimHook
	syscall.SimHook = nil
	defer func() { syscall.SimHook = h }()
	ns := map[string]*inode{}
	if model == CrashKill {
		ns = d.ns
	} else {
		for k, v := range d.durNs {
			ns[k] = v
		}
		n := len(d.journal)
		switch model {
		case CrashPowerNone:
			n = 0
		default:
			if n > 0 {
				n = int(rnd() % uint64(n+1))
			}
		}
		for _, m := range d.journal[:n] {
			applyMeta(ns, m)
		}
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	var ks []string
	for k := range ns {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := dir + strings.TrimPrefix(k, d.Root)
		in := ns[k]
		if in == nil {
			if err := os.MkdirAll(p, 0755); err != nil {
				panic(err)
			}
			continue
		}
		b := in.data
		if model != CrashKill && len(in.pend) > 0 {
			b = append([]byte(nil), in.durable...)
			switch model {
			case CrashPower:
				n := int(rnd() % uint64(len(in.pend)+1))
				for i := 0; i < n; i++ {
					w := in.pend[i]
					if w.trunc {
						b = truncTo(b, w.off)
						continue
					}
					p := w.data
					if i == n-1 && len(p) > 1 && rnd()%3 == 0 {
						p = p[:rnd()%uint64(len(p))]
						lost++
					}
					b = writeAt(b, w.off, p)
				}
				lost += len(in.pend) - n
			case CrashPowerAny:
				for _, w := range in.pend {
					if rnd()%2 == 0 {
						lost++
						continue
					}
					if w.trunc {
						b = truncTo(b, w.off)
					} else {
						b = writeAt(b, w.off, w.data)
					}
				}
			default:
				lost += len(in.pend)
			}
		}
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, b, 0644); err != nil {
			panic(err)
		}
	}
	return
}

// Unsynced reports how many writes are not durable.
func (d *Disk) Unsynced() (n int) {
	for _, in := range d.ns {
		if in != nil {
			n += len(in.pend)
		}
	}
	return n + len(d.journal)
}

// Verify checks the shadow against the real files (self-test of the simulator).
func (d *Disk) Verify() error {
	h := syscall.SimHook
	syscall.SimHook = nil
	defer func() { syscall.SimHook = h }()
	seen := map[string]bool{}
	err := filepath.Walk(d.Root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == d.Root {
			return err
		}
		in, ok := d.ns[p]
		seen[p] = true
		if !ok {
			return fmt.Errorf("untracked %s", p)
		}
		if fi.IsDir() != (in == nil) {
			return fmt.Errorf("kind %s", p)
		}
		if in != nil {
			b, _ := os.ReadFile(p)
			if string(b) != string(in.data) {
				return fmt.Errorf("content of %s differs: %d vs %d", p, len(b), len(in.data))
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	for k := range d.ns {
		if !seen[k] {
			return fmt.Errorf("ghost %s", k)
		}
	}
	return nil
}
