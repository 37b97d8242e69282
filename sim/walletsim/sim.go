// Package walletsim runs the wallet (wallet, wallet/entropystore, wallet/hd-bip) with several
// concurrent clients on the simulated disk, with crashes, power failures, disk errors and damaged
// files, and judges every answer against the mnemonics and passwords the clients know and against
// its own derivation of the keys.
package walletsim

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	bip39 "github.com/tyler-smith/go-bip39"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/wallet"
	"github.com/vitelabs/go-vite/v2/wallet/entropystore"
	"github.com/vitelabs/go-vite/v2/wallet/hd-bip/derivation"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
	"github.com/vitelabs/go-vite/v2/zzverif/simfs"
)

var passwords = []string{"", "a", "ab", "123456", "pässwörter", strings.Repeat("long", 30), "A", "ab ", "1234567"}

const searched = 12 // addresses of a mnemonic the wallet is configured to look for

// ------------------------------------------------------------------ the reference

type keys struct {
	mnemonic string
	entropy  []byte
	seed     []byte
	addrs    []types.Address
	privs    []ed25519.PrivateKey
}

func hm(key, data []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	return h.Sum(nil)
}

// derive computes the keys of m/44'/666666'/i' of a seed.
func derive(seed []byte, path ...uint32) []byte {
	s := hm([]byte("ed25519 blake2b seed"), seed)
	for _, i := range path {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], i|1<<31)
		d := append([]byte{0}, s[:32]...)
		s = hm(s[32:], append(d, b[:]...))
	}
	return s[:32]
}

func keysOf(mnemonic string) *keys {
	e, err := bip39.EntropyFromMnemonic(mnemonic)
	if err != nil {
		return nil
	}
	k := &keys{mnemonic: mnemonic, entropy: e, seed: bip39.NewSeed(mnemonic, "")}
	for i := uint32(0); i < searched+1; i++ {
		raw := derive(k.seed, 44, 666666, i)
		pub, priv, err := ed25519.GenerateKey(bytes.NewReader(raw))
		if err != nil {
			sim.Bug("%v", err)
		}
		k.addrs = append(k.addrs, types.PubkeyToAddress(pub))
		k.privs = append(k.privs, priv)
	}
	return k
}

// ------------------------------------------------------------------ what the clients know

type store struct {
	k     *keys
	owner int64
	file  string

	// pass[v] is the password after the v-th writing of the file, of which `started` began and `done`
	// ended; pass[0] of a new store is meaningless, there is no file
	pass    []string
	started int
	done    int
	maybe   bool // the last writing failed: the file is as before or as it should be
	absent  bool // there is no file at version `done`

	busy   int // operations that lock or unlock it are under way
	seq    int
	open   bool
	fuzzy  bool // nobody knows whether it is open
	moving bool // being taken out or put back
	gone   bool // taken out of the wallet (the file stays)
}

type world struct {
	c        *sim.Case
	node     *sim.Node
	m        *wallet.Manager
	stores   []*store
	making   []string // passwords of creations under way: nobody knows their mnemonics yet
	seg      int
	crashN   int
	degraded bool
	max      uint32
}

func (w *world) in(f func()) string {
	done := make(chan struct{})
	n := w.node
	n.Go(func() { f(); close(done) })
	select {
	case <-done:
		if n.IsDead {
			return n.Why
		}
		return ""
	case <-n.Dead:
		return n.Why
	}
}

// data is an absolute path: the wallet takes relative ones to be in its directory.
func (w *world) data() string { return "/proc/self/cwd/" + w.node.Dir + "/wallet" }

func (w *world) arm() {
	node := w.node
	base := node.Disk.Ops
	for i := range w.c.Faults {
		f := w.c.Faults[i]
		if f.A != int64(w.seg) {
			continue
		}
		switch f.K {
		case "crash":
			prev := node.Disk.OnOp
			node.Disk.OnOp = func(n int, kind, path string) {
				if prev != nil {
					prev(n, kind, path)
				}
				if n-base >= int(f.B)+1 && !node.IsDead {
					w.crashN++
					r := sim.NewRand(f.R)
					node.Crash(int(f.C), r.U64, fmt.Sprintf("crash before disk op %d (%s)", n-base, kind))
					if runtime.SimTag() == node.Tag {
						sim.Park()
					}
				}
			}
		case "ioerr":
			hits := 0
			skip := int(f.B)
			r := sim.NewRand(f.R)
			rd := f.C >= 4
			node.Disk.Fault = func(n int, kind, path string, size int) (x simfs.Fault) {
				if (kind == "read" || kind == "pread") != rd {
					return
				}
				if skip > 0 {
					skip--
					return
				}
				if hits > 0 && f.C != 2 && f.C != 3 {
					return
				}
				hits++
				w.degraded = true
				x.Hit = true
				x.Err = syscall.EIO
				if f.C == 2 || f.C == 3 {
					x.Err = syscall.ENOSPC
				}
				if (f.C == 1 || f.C == 3) && size > 0 {
					x.Short = 1 + r.N(size)
				}
				return
			}
		}
	}
}

func (w *world) disarm() { w.node.Disk.OnOp = nil; w.node.Disk.Fault = nil }

// boot starts the wallet as a new process on the disk left by the last one.
func (w *world) boot(dir, what string) {
	for try := 0; ; try++ {
		w.node = sim.Boot("wallet", dir)
		w.node.OnPanic = func(n *sim.Node, msg string) {
			sim.Fail("panic", "segment %d: the wallet panicked: %s", w.seg, msg)
		}
		var err error
		died := w.in(func() {
			os.MkdirAll(w.data(), 0700)
			w.arm()
			w.m = wallet.New(&config.Wallet{DataDir: w.data(), MaxSearchIndex: w.max})
			err = w.m.Start()
		})
		if died == "" {
			w.disarm()
			if err != nil {
				sim.Fail("start", "%s the wallet does not start: %v", what, err)
			}
			break
		}
		if try > 5 {
			sim.Bug("too many crashes")
		}
		dir = w.node.Dir
		w.seg = -100
	}
	for _, s := range w.stores {
		s.file = filepath.Join(w.data(), s.k.addrs[0].Hex())
		s.busy, s.seq, s.open, s.fuzzy, s.gone, s.moving = 0, s.seq+1, false, false, false, false
	}
	if died := w.in(func() { w.judge(what) }); died != "" {
		sim.Bug("died while judging: %s", died)
	}
	sim.Count("starts", 1)
}

// opens tells which of the passwords open the store.
func (w *world) opens(s *store, what string) (ps []string) {
	for _, p := range passwords {
		mn, err := w.m.ExtractMnemonic(s.file, p)
		if err != nil {
			continue
		}
		if mn != s.k.mnemonic {
			sim.Fail("other-keys", "%s %s gives the mnemonic %.20q instead of %.20q", what, s.k.addrs[0], mn, s.k.mnemonic)
		}
		ps = append(ps, p)
	}
	return
}

// judge checks every store at rest and settles what the interrupted writings left.
func (w *world) judge(what string) {
	for _, s := range w.stores {
		if s.maybe {
			w.settle()
		}
	}
	listed := map[string]bool{}
	files, err := w.m.ListEntropyFilesInStandardDir()
	if err != nil {
		sim.Fail("unexpected-error", "%s the files cannot be listed: %v", what, err)
	}
	for _, f := range files {
		if listed[f] {
			sim.Fail("listed-twice", "%s %s is listed twice", what, filepath.Base(f))
		}
		listed[f] = true
	}
	for _, s := range w.stores {
		var allowed []string
		for v := s.done; v <= s.started; v++ {
			if v > 0 && !(v == s.done && s.absent) {
				allowed = append(allowed, s.pass[v])
			}
		}
		there := listed[s.file]
		delete(listed, s.file)
		mayMiss := s.absent
		if !there {
			if !mayMiss {
				sim.Fail("lost", "%s the wallet file of %s is gone or unreadable: %s", what, s.k.addrs[0], w.look(s.file))
			}
			if _, err := os.Stat(s.file); err == nil {
				sim.Fail("unreadable", "%s the wallet file of %s cannot be read: %s", what, s.k.addrs[0], w.look(s.file))
			}
			s.pass, s.started, s.done, s.absent = s.pass[:1], 0, 0, true
			continue
		}
		if s.gone {
			if _, err := w.m.GetEntropyStoreManager(s.file); err == nil {
				sim.Fail("not-removed", "%s %s was taken out of the wallet and is still in it", what, s.k.addrs[0])
			}
			if err := w.m.AddEntropyStore(s.file); err != nil {
				sim.Fail("unexpected-error", "%s AddEntropyStore: %v", what, err)
			}
			s.gone, s.open, s.fuzzy = false, false, false
		}
		if _, err := w.m.GetEntropyStoreManager(s.file); err != nil {
			if s.maybe && s.absent { // the file got there though its creation failed
				if err := w.m.AddEntropyStore(s.file); err != nil {
					sim.Fail("unexpected-error", "%s AddEntropyStore: %v", what, err)
				}
			} else {
				sim.Fail("not-loaded", "%s %s is not in the wallet: %v", what, s.k.addrs[0], err)
			}
		}
		ps := w.opens(s, what)
		if len(ps) == 0 {
			sim.Fail("lost", "%s the wallet of %s does not open with its password any more: %s", what, s.k.addrs[0], w.look(s.file))
		}
		if len(ps) > 1 {
			sim.Fail("password", "%s the wallet of %s opens with %d passwords", what, s.k.addrs[0], len(ps))
		}
		ok := false
		for _, a := range allowed {
			ok = ok || a == ps[0]
		}
		if !ok {
			sim.Fail("password", "%s the wallet of %s opens with %q, which is not its password", what, s.k.addrs[0], ps[0])
		}
		s.pass, s.started, s.done, s.maybe, s.absent = []string{"", ps[0]}, 1, 1, false, false
		b, err := os.ReadFile(s.file)
		if err != nil {
			sim.Fail("unexpected-error", "%s reading %s: %v", what, s.file, err)
		}
		for _, x := range [][]byte{s.k.entropy, []byte(hex.EncodeToString(s.k.entropy)), s.k.seed, []byte(s.k.mnemonic)} {
			if bytes.Contains(b, x) {
				sim.Fail("in-the-clear", "%s the file of %s holds its secret", what, s.k.addrs[0])
			}
		}
		sim.Count("stores_judged", 1)
	}
	// files nobody knows: interrupted creations
	var rest []string
	for f := range listed {
		rest = append(rest, f)
	}
	sort.Strings(rest)
	for _, f := range rest {
		if err := w.m.AddEntropyStore(f); err != nil {
			sim.Fail("unexpected-error", "%s AddEntropyStore: %v", what, err)
		}
		var mn string
		var by []string
		for _, p := range passwords {
			if x, err := w.m.ExtractMnemonic(f, p); err == nil {
				mn = x
				by = append(by, p)
			}
		}
		ok := false
		for _, p := range w.making {
			ok = ok || (len(by) == 1 && by[0] == p)
		}
		if !ok {
			sim.Fail("stray", "%s there is a file %s that nobody made (it opens with %q)", what, filepath.Base(f), by)
		}
		k := keysOf(mn)
		if k == nil || filepath.Base(f) != k.addrs[0].Hex() {
			sim.Fail("other-keys", "%s the file %s holds other keys", what, filepath.Base(f))
		}
		w.stores = append(w.stores, &store{k: k, owner: -1, file: f, pass: []string{"", by[0]}, started: 1, done: 1})
		sim.Count("interrupted_creations_found", 1)
	}
	if len(rest) > 0 {
		w.settle()
	}
	w.making = nil
}

// settle makes durable what failed writings left in the directory.
func (w *world) settle() {
	d, err := os.Open(w.data())
	if err == nil {
		err = d.Sync()
		d.Close()
	}
	if err != nil {
		sim.Bug("settle: %v", err)
	}
}

func (w *world) look(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		return err.Error()
	}
	if len(b) > 40 {
		return fmt.Sprintf("%d bytes %q...", len(b), b[:40])
	}
	return fmt.Sprintf("%d bytes %q", len(b), b)
}

// ------------------------------------------------------------------ operations

func (w *world) soft(err error) bool { return err != nil && w.degraded }

// atom keeps the bookkeeping of one client from being interrupted by another.
func atom(f func()) {
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	f()
}

// write runs a writing of the store's file.
func (w *world) write(s *store, pass string, f func() error) {
	v, my := 0, 0
	alone := false
	atom(func() {
		if s.maybe || s.moving {
			return // nobody knows what is in the file: wait for the next judgement
		}
		s.pass = append(s.pass[:s.started+1], pass)
		s.started++
		v = s.started
		alone = s.busy == 0
		s.busy++
		s.seq++
		my = s.seq
	})
	if v == 0 {
		return
	}
	err := f()
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	alone = alone && s.seq == my // else somebody may have opened the new one already
	s.busy--
	s.seq++
	if err != nil {
		if !w.degraded {
			sim.Fail("unexpected-error", "segment %d: writing the wallet of %s fails: %v", w.seg, s.k.addrs[0], err)
		}
		s.maybe = true
		s.fuzzy = true
		sim.Count("failed_writes", 1)
		return
	}
	s.done, s.absent = v, false
	s.open, s.fuzzy, s.gone = false, !alone, false
	sim.Count("writes", 1)
}

// access is an attempt with a password; it reports whether the password was right (1), wrong (0) or
// changing (2) at that time.
type access struct {
	lo     int
	gone   bool
	absent bool // it was not there yet
}

func (s *store) begin() access { return access{s.done, s.gone || s.moving, s.absent} }
func (s *store) right(a access, pass string) int {
	n, m := 0, 0
	for v := a.lo; v <= s.started; v++ {
		if v == 0 || (v == a.lo && s.absent) {
			continue
		}
		m++
		if s.pass[v] == pass {
			n++
		}
	}
	switch {
	case n == 0:
		return 0
	case n == m && !s.absent && !a.absent:
		return 1
	}
	return 2
}

func (w *world) verdict(what string, s *store, a access, pass string, err error) bool {
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	switch s.right(a, pass) {
	case 1:
		if err != nil {
			if w.degraded || s.gone || a.gone || s.moving {
				return false
			}
			sim.Fail("refused", "segment %d: %s: the right password %q of %s is refused: %v", w.seg, what, pass, s.k.addrs[0], err)
		}
	case 0:
		if err == nil {
			sim.Fail("password", "segment %d: %s: %q opens %s, it is not its password", w.seg, what, pass, s.k.addrs[0])
		}
	}
	return err == nil
}

func (w *world) checkSig(what string, s *store, i int, msg, sig, pub []byte) {
	if types.PubkeyToAddress(pub) != s.k.addrs[i] {
		sim.Fail("other-keys", "segment %d: %s signs for %s with the key of %s", w.seg, what, s.k.addrs[i], types.PubkeyToAddress(pub))
	}
	if !ed25519.Verify(pub, msg, sig) {
		sim.Fail("signature", "segment %d: %s gives a signature of %s that does not verify", w.seg, what, s.k.addrs[i])
	}
	sim.Count("signatures", 1)
}

// use runs an operation that needs the store to be open.
func (w *world) use(what string, s *store, f func() error) bool {
	return w.useSince(s.seq, what, s, f)
}

// useSince is the same with something got when the store had changed so many times.
func (w *world) useSince(since int, what string, s *store, f func() error) bool {
	var strict, open bool
	var seq int
	atom(func() {
		strict = s.seq == since && s.busy == 0 && !s.fuzzy && !s.gone && !s.absent && !s.maybe
		seq, open = s.seq, s.open
	})
	err := f()
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	strict = strict && s.busy == 0 && s.seq == seq
	if !strict {
		return err == nil
	}
	if open && err != nil {
		sim.Fail("refused", "segment %d: %s: %s is open and refuses: %v", w.seg, what, s.k.addrs[0], err)
	}
	if !open && err == nil {
		sim.Fail("locked", "segment %d: %s works with %s, which is locked", w.seg, what, s.k.addrs[0])
	}
	sim.Count("uses_strict", 1)
	return err == nil
}

// unlocking runs an operation that may change whether the store is open; f returns the new state:
// 0 locked, 1 open, 2 as before, 3 unknown.
func (w *world) unlocking(s *store, f func() int) {
	var alone bool
	var my int
	atom(func() {
		alone = s.busy == 0
		s.busy++
		s.seq++
		my = s.seq
	})
	st := f()
	runtime.SimNoPreempt(true)
	defer runtime.SimNoPreempt(false)
	alone = alone && s.seq == my
	s.busy--
	s.seq++
	switch {
	case !alone || s.busy > 0 || st == 3:
		s.fuzzy = true
	case st == 2:
	default:
		s.open, s.fuzzy = st == 1, false
	}
}

func (w *world) exec(op sim.Op) {
	r := sim.NewRand(op.R)
	sim.Logf("client %d: %s %d", op.A, op.K, op.B)
	pass := passwords[r.N(len(passwords))]
	switch op.K {
	case "sleep":
		time.Sleep(time.Duration(r.N(3000)) * time.Microsecond)
		return
	case "create":
		atom(func() { w.making = append(w.making, pass) })
		mn, em, err := w.m.NewMnemonicAndEntropyStore(pass)
		if err != nil || em == nil {
			if !w.degraded {
				sim.Fail("unexpected-error", "segment %d: a wallet cannot be created: %v", w.seg, err)
			}
			return
		}
		k := keysOf(mn)
		if k == nil {
			sim.Fail("other-keys", "segment %d: a new wallet has the mnemonic %q", w.seg, mn)
		}
		s := &store{k: k, owner: op.A, file: em.GetEntropyStoreFile(), pass: []string{"", pass}, started: 1, done: 1}
		if s.file != filepath.Join(w.data(), k.addrs[0].Hex()) || em.GetPrimaryAddr() != k.addrs[0] {
			sim.Fail("other-keys", "segment %d: the wallet of %s is called %s (%s)", w.seg, k.addrs[0], filepath.Base(s.file), em.GetPrimaryAddr())
		}
		runtime.SimNoPreempt(true)
		defer runtime.SimNoPreempt(false)
		for _, o := range w.stores {
			if o.k.addrs[0] == k.addrs[0] {
				sim.Fail("other-keys", "segment %d: the mnemonic of a new wallet is not new", w.seg)
			}
		}
		w.stores = append(w.stores, s)
		sim.Count("creations", 1)
		return
	case "import":
		e := make([]byte, []int{16, 32}[r.N(2)])
		for i := range e {
			e[i] = byte(r.N(256))
		}
		mn, err := bip39.NewMnemonic(e)
		if err != nil {
			sim.Bug("%v", err)
		}
		k := keysOf(mn)
		for _, o := range w.stores {
			if o.k.addrs[0] == k.addrs[0] {
				return
			}
		}
		s := &store{k: k, owner: op.A, pass: []string{""}, absent: true, file: filepath.Join(w.data(), k.addrs[0].Hex())}
		atom(func() { w.stores = append(w.stores, s) })
		w.write(s, pass, func() error { _, err := w.m.RecoverEntropyStoreFromMnemonic(mn, pass); return err })
		return
	case "bad":
		ws := strings.Fields("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about")
		switch r.N(3) {
		case 0:
			ws[11] = "abandon"
		case 1:
			ws[r.N(12)] = "notaword"
		default:
			ws = ws[:11]
		}
		if _, err := w.m.RecoverEntropyStoreFromMnemonic(strings.Join(ws, " "), pass); err == nil {
			sim.Fail("bad-mnemonic", "segment %d: the mnemonic %q is taken", w.seg, strings.Join(ws, " "))
		}
		return
	}
	if len(w.stores) == 0 {
		return
	}
	s := w.stores[int(op.B)%len(w.stores)]
	if r.P(2, 3) && s.started > 0 {
		pass = s.pass[s.started]
	}
	i := r.N(searched)
	if r.P(1, 2) {
		i = 0
	}
	addr := s.k.addrs[i]
	msg := []byte(fmt.Sprint("message ", op.R))
	switch op.K {
	case "repass": // a new password by recovering from the mnemonic
		if s.owner != op.A && !(s.owner == -1 && op.A == 0) {
			return
		}
		w.write(s, pass, func() error { _, err := w.m.RecoverEntropyStoreFromMnemonic(s.k.mnemonic, pass); return err })
	case "unlock":
		w.unlocking(s, func() int {
			a := s.begin()
			name := s.file
			if r.P(1, 3) {
				name = filepath.Base(s.file)
			}
			err := w.m.Unlock(name, pass)
			if w.verdict("Unlock", s, a, pass, err) {
				return 1
			}
			return 2
		})
	case "lock":
		w.unlocking(s, func() int {
			away := s.gone || s.moving || s.absent || s.maybe
			if err := w.m.Lock(s.file); err != nil {
				if !away && !s.gone && !s.moving {
					sim.Fail("unexpected-error", "segment %d: Lock: %v", w.seg, err)
				}
				return 3
			}
			return 0
		})
	case "sign":
		w.use("Account", s, func() error {
			x, err := w.m.Account(addr)
			if err != nil {
				return err
			}
			sig, pub, err := x.Sign(msg)
			if err != nil {
				return err
			}
			if x.Address() != addr {
				sim.Fail("other-keys", "segment %d: Account(%s) gives %s", w.seg, addr, x.Address())
			}
			w.checkSig("Account", s, i, msg, sig, pub)
			return nil
		})
	case "isopen":
		w.use("IsUnlocked", s, func() error {
			if !w.m.IsUnlocked(s.file) {
				return fmt.Errorf("says it is not unlocked")
			}
			return nil
		})
		w.use("GlobalCheckAddrUnlock", s, func() error {
			if !w.m.GlobalCheckAddrUnlock(addr) {
				return fmt.Errorf("says it is not unlocked")
			}
			return nil
		})
	case "atindex":
		w.use("AccountAtIndex", s, func() error {
			x, err := w.m.AccountAtIndex(s.file, addr, uint32(i))
			if err != nil {
				return err
			}
			sig, pub, _ := x.Sign(msg)
			w.checkSig("AccountAtIndex", s, i, msg, sig, pub)
			return nil
		})
		w.use("MatchAddress", s, func() error { return w.m.MatchAddress(s.file, addr, uint32(i)) })
		if err := w.m.MatchAddress(s.file, addr, uint32(i+1)); err == nil {
			sim.Fail("other-keys", "segment %d: address %d of %s is said to be number %d", w.seg, i, s.k.addrs[0], i+1)
		}
	case "manager":
		away, seq := s.gone || s.moving || s.absent || s.maybe, s.seq
		em, err := w.m.GetEntropyStoreManager(s.file)
		if err != nil {
			if !away && !s.gone && !s.moving && s.seq == seq {
				sim.Fail("unexpected-error", "segment %d: GetEntropyStoreManager: %v", w.seg, err)
			}
			return
		}
		w.useManager(s, em, seq, r, i, addr, msg)
	case "pass":
		w.withPassword(s, r, i, addr, msg, pass)
	case "search":
		w.unlocking(s, func() int {
			a := s.begin()
			x, err := w.m.AccountSearch(&s.file, addr, pass)
			if w.verdict("AccountSearch", s, a, pass, err) {
				sig, pub, _ := x.Sign(msg)
				w.checkSig("AccountSearch", s, i, msg, sig, pub)
			}
			return 3
		})
	case "remove":
		free := false
		atom(func() {
			free = !s.maybe && !s.absent && s.busy == 0 && s.started == s.done && !s.moving
			s.moving = s.moving || free
		})
		if !free {
			return
		}
		defer func() { s.moving = false }()
		w.unlocking(s, func() int {
			name := s.file
			if r.P(1, 2) {
				name = filepath.Base(s.file)
			}
			s.gone = true
			w.m.RemoveEntropyStore(name)
			return 0
		})
	case "add":
		free := false
		atom(func() {
			free = !s.maybe && !s.absent && s.busy == 0 && s.started == s.done && !s.moving
			s.moving = s.moving || free
		})
		if !free {
			return
		}
		defer func() { s.moving = false }()
		w.unlocking(s, func() int {
			if err := w.m.AddEntropyStore(s.file); err != nil {
				if !w.degraded {
					sim.Fail("unexpected-error", "segment %d: AddEntropyStore: %v", w.seg, err)
				}
				return 3
			}
			was := s.gone
			s.gone = false
			if was {
				return 0
			}
			return 2
		})
	case "list":
		known := map[string]bool{}
		var sure []*store
		atom(func() {
			for _, o := range w.stores {
				if !o.gone && !o.absent && !o.maybe && o.busy == 0 && !o.moving {
					sure = append(sure, o)
				}
			}
		})
		for _, f := range w.m.ListAllEntropyFiles() {
			known[f] = true
		}
		for _, o := range sure {
			if !known[o.file] && !o.gone && o.busy == 0 {
				sim.Fail("not-loaded", "segment %d: %s is not listed", w.seg, o.k.addrs[0])
			}
		}
		w.m.RefreshCache()
	}
}

func (w *world) useManager(s *store, em *entropystore.Manager, since int, r *sim.Rand, i int, addr types.Address, msg []byte) {
	if em.GetPrimaryAddr() != s.k.addrs[0] {
		sim.Fail("other-keys", "segment %d: the manager of %s says %s", w.seg, s.k.addrs[0], em.GetPrimaryAddr())
	}
	match := func(what string, k *derivation.Key) {
		p, err := k.PrivateKey()
		if err != nil || !bytes.Equal(p, s.k.privs[i]) {
			sim.Fail("other-keys", "segment %d: %s gives another key for address %d of %s (%v)", w.seg, what, i, s.k.addrs[0], err)
		}
	}
	switch r.N(6) {
	case 0:
		w.useSince(since, "ListAddress", s, func() error {
			l, err := em.ListAddress(uint32(i), searched)
			if err != nil {
				return err
			}
			for j, a := range l {
				if a != s.k.addrs[i+j] {
					sim.Fail("other-keys", "segment %d: ListAddress gives %s as address %d of %s", w.seg, a, i+j, s.k.addrs[0])
				}
			}
			if len(l) != searched-i {
				sim.Fail("other-keys", "segment %d: ListAddress gives %d of %d addresses", w.seg, len(l), searched-i)
			}
			return nil
		})
	case 1:
		w.useSince(since, "SignData", s, func() error {
			sig, pub, err := em.SignData(addr, msg)
			if err != nil {
				return err
			}
			w.checkSig("SignData", s, i, msg, sig, pub)
			return nil
		})
	case 2:
		w.useSince(since, "GetPrivateKey", s, func() error {
			p, err := em.GetPrivateKey(addr)
			if err != nil {
				return err
			}
			if !bytes.Equal(p, s.k.privs[i]) {
				sim.Fail("other-keys", "segment %d: GetPrivateKey gives another key for %s", w.seg, addr)
			}
			return nil
		})
	case 3:
		w.useSince(since, "DeriveForIndexPath", s, func() error {
			p, k, err := em.DeriveForIndexPath(uint32(i))
			if err != nil {
				return err
			}
			if p != fmt.Sprintf("m/44'/666666'/%d'", i) {
				sim.Fail("other-keys", "segment %d: path %s for index %d", w.seg, p, i)
			}
			match("DeriveForIndexPath", k)
			return nil
		})
	case 4:
		w.useSince(since, "FindAddr", s, func() error {
			k, n, err := em.FindAddr(addr)
			if err != nil {
				return err
			}
			if int(n) != i {
				sim.Fail("other-keys", "segment %d: FindAddr says %d for address %d", w.seg, n, i)
			}
			match("FindAddr", k)
			return nil
		})
	case 5:
		w.useSince(since, "IsAddrUnlocked", s, func() error {
			if !em.IsAddrUnlocked(addr) {
				return fmt.Errorf("says it is not unlocked")
			}
			return nil
		})
		// not an address of this mnemonic
		var other types.Address
		for _, o := range w.stores {
			if o != s {
				other = o.k.addrs[i]
			}
		}
		if em.IsAddrUnlocked(other) {
			sim.Fail("other-keys", "segment %d: %s is said to be unlocked", w.seg, other)
		}
		if _, _, err := em.SignData(other, msg); err == nil {
			sim.Fail("other-keys", "segment %d: something was signed for %s", w.seg, other)
		}
	}
}

func (w *world) withPassword(s *store, r *sim.Rand, i int, addr types.Address, msg []byte, pass string) {
	em, err := w.m.GetEntropyStoreManager(s.file)
	if err != nil {
		return
	}
	a := s.begin()
	switch r.N(5) {
	case 0:
		mn, err := em.ExtractMnemonic(pass)
		if w.verdict("ExtractMnemonic", s, a, pass, err) && mn != s.k.mnemonic {
			sim.Fail("other-keys", "segment %d: the mnemonic of %s is said to be %.20q", w.seg, s.k.addrs[0], mn)
		}
	case 1:
		sig, pub, err := em.SignDataWithPassphrase(addr, pass, msg)
		if w.verdict("SignDataWithPassphrase", s, a, pass, err) {
			w.checkSig("SignDataWithPassphrase", s, i, msg, sig, pub)
		}
	case 2:
		k, n, err := em.FindAddrWithPassphrase(pass, addr)
		if w.verdict("FindAddrWithPassphrase", s, a, pass, err) {
			p, _ := k.PrivateKey()
			if int(n) != i || !bytes.Equal(p, s.k.privs[i]) {
				sim.Fail("other-keys", "segment %d: FindAddrWithPassphrase says %d for address %d", w.seg, n, i)
			}
		}
	case 3:
		_, k, err := em.DeriveForIndexPathWithPassphrase(uint32(i), pass)
		if w.verdict("DeriveForIndexPathWithPassphrase", s, a, pass, err) {
			p, _ := k.PrivateKey()
			if !bytes.Equal(p, s.k.privs[i]) {
				sim.Fail("other-keys", "segment %d: DeriveForIndexPathWithPassphrase gives another key for address %d", w.seg, i)
			}
		}
	case 4: // whichever wallet has the address
		x, err := w.m.AccountSearch(nil, addr, pass)
		if w.verdict("AccountSearch in all wallets", s, a, pass, err) {
			sig, pub, _ := x.Sign(msg)
			w.checkSig("AccountSearch in all wallets", s, i, msg, sig, pub)
		}
	}
}

// damage spoils a file while the wallet is stopped, and puts it back afterwards.
func (w *world) damage(op sim.Op) {
	r := sim.NewRand(op.R)
	var l []*store
	for _, s := range w.stores {
		if !s.absent {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return
	}
	s := l[int(op.B)%len(l)]
	var was []byte
	died := w.in(func() {
		b, err := os.ReadFile(s.file)
		if err != nil {
			sim.Bug("%v", err)
		}
		was = append([]byte(nil), b...)
		switch r.N(5) {
		case 3: // the address of another wallet
			o := l[r.N(len(l))]
			b = bytes.Replace(b, []byte(s.k.addrs[0].String()), []byte(o.k.addrs[0].String()), 1)
		case 0:
			b[r.N(len(b))] ^= byte(1 << uint(r.N(8)))
		case 1:
			b = b[:r.N(len(b))]
		case 2: // a digit or a letter for another
			for n := 0; n < 200; n++ {
				j := r.N(len(b))
				c := "0123456789abcdef"[r.N(16)]
				if strings.IndexByte("0123456789abcdef", b[j]) >= 0 && b[j] != c {
					b[j] = c
					break
				}
			}
		default: // the file of another wallet
			o := l[r.N(len(l))]
			if o == s {
				return
			}
			x, err := os.ReadFile(o.file)
			if err != nil {
				sim.Bug("%v", err)
			}
			b = x
		}
		os.WriteFile(s.file, b, 0600)
		m := wallet.New(&config.Wallet{DataDir: w.data(), MaxSearchIndex: w.max})
		if err := m.Start(); err != nil {
			sim.Fail("start", "with a damaged file the wallet does not start: %v", err)
		}
		for _, p := range passwords {
			mn, err := m.ExtractMnemonic(s.file, p)
			if err != nil {
				continue
			}
			ok := false
			for _, o := range w.stores {
				ok = ok || (!o.absent && mn == o.k.mnemonic && o.pass[o.done] == p)
			}
			if em, err := m.GetEntropyStoreManager(s.file); err != nil || em.GetPrimaryAddr() != keysOf(mn).addrs[0] {
				sim.Fail("other-keys", "the damaged file of %s opens and is taken for another wallet (%v)", s.k.addrs[0], err)
			}
			if !ok {
				sim.Fail("other-keys", "the damaged file of %s opens with %q and gives %.20q", s.k.addrs[0], p, mn)
			}
			sim.Count("damaged_files_that_open", 1)
		}
		for _, o := range w.stores {
			if o == s || o.absent {
				continue
			}
			if mn, err := m.ExtractMnemonic(o.file, o.pass[o.done]); err != nil || mn != o.k.mnemonic {
				sim.Fail("lost", "with the file of %s damaged, %s does not open: %v", s.k.addrs[0], o.k.addrs[0], err)
			}
		}
		os.WriteFile(s.file, was, 0600)
		f, err := os.OpenFile(s.file, os.O_RDWR, 0600)
		if err == nil {
			f.Sync()
			f.Close()
		}
	})
	if died != "" {
		sim.Bug("died: %s", died)
	}
	sim.Injected("damaged_file", 1)
}

// ------------------------------------------------------------------ runs

func run(c *sim.Case) {
	w := &world{c: c, max: searched}
	w.seg = -1
	w.boot(sim.NewDir("wallet"), "fresh:")
	var seg []sim.Op
	n := 0
	restart := func(what string) {
		dir := w.node.Dir
		w.seg = -1000 - n
		w.boot(dir, what)
	}
	flush := func() {
		w.seg = n
		n++
		w.degraded = false
		w.arm()
		by := map[int64][]sim.Op{}
		var who []int64
		for _, o := range seg {
			if by[o.A] == nil {
				who = append(who, o.A)
			}
			by[o.A] = append(by[o.A], o)
		}
		seg = nil
		died := ""
		if len(who) > 0 {
			died = w.in(func() {
				ch := make(chan int, len(who))
				for _, a := range who {
					l := by[a]
					go func() {
						for _, o := range l {
							w.exec(o)
						}
						ch <- 1
					}()
				}
				tm := time.After(2 * time.Hour)
				for range who {
					select {
					case <-ch:
					case <-tm:
						sim.Fail("stuck", "segment %d: an operation does not end", w.seg)
					}
				}
			})
		}
		if died != "" {
			sim.Injected("crash", 1)
			restart("after " + died + ":")
			return
		}
		w.disarm()
		w.degraded = false
		if d := w.in(func() { w.judge("at rest:") }); d != "" {
			sim.Bug("died: %s", d)
		}
		var parts []interface{}
		for _, s := range w.stores {
			parts = append(parts, s.open, s.fuzzy, s.pass[s.done])
		}
		sim.State(sim.Sig(parts...))
	}
	for _, op := range c.Ops {
		switch op.K {
		case "barrier":
			flush()
		case "restart":
			flush()
			w.in(func() { w.m.Stop() })
			w.node.Crash(0, nil, "restart")
			restart("after a restart:")
		case "power":
			flush()
			r := sim.NewRand(op.R)
			w.node.Crash(int(op.C), r.U64, "power failure at rest")
			sim.Injected("power_failure_at_rest", 1)
			restart("after a power failure at rest:")
		case "damage":
			flush()
			w.damage(op)
			w.node.Crash(0, nil, "restart")
			restart("after a file was damaged and restored:")
		default:
			seg = append(seg, op)
		}
	}
	flush()
}

func gen(profile string, seed uint64, thorough bool) *sim.Case {
	r := sim.NewRand(seed*2654435761 + 1234)
	c := &sim.Case{Sim: "wallet", Profile: profile, Seed: seed, Sched: sim.RandSched(r)}
	c.Params = map[string]int64{}
	pick := func(xs ...int64) int64 { return xs[r.N(len(xs))] }
	segs := 3 + r.N(5)
	per := []int{4, 12, 25}[r.N(3)]
	if thorough {
		per *= 2
	}
	clients := 1 + r.N(4)
	kinds := []string{"create", "import", "repass", "repass", "unlock", "unlock", "unlock", "lock", "sign", "sign", "isopen", "atindex", "manager", "manager", "pass", "pass", "pass", "search", "remove", "add", "list", "bad", "sleep"}
	for s := 0; s < segs; s++ {
		for i := 0; i < per; i++ {
			op := sim.Op{K: kinds[r.N(len(kinds))], A: int64(r.N(clients)), B: int64(r.N(6)), R: r.U64()}
			if s == 0 && i < 2 {
				op.K = []string{"create", "import"}[i]
			}
			c.Ops = append(c.Ops, op)
		}
		switch r.Pick(4, 2, 3, 2) {
		case 0:
			c.Ops = append(c.Ops, sim.Op{K: "barrier"})
		case 1:
			c.Ops = append(c.Ops, sim.Op{K: "restart"})
		case 2:
			c.Ops = append(c.Ops, sim.Op{K: "power", C: pick(1, 2, 3), R: r.U64()})
		case 3:
			c.Ops = append(c.Ops, sim.Op{K: "damage", B: int64(r.N(6)), R: r.U64()})
		}
	}
	for s := 0; s < segs; s++ {
		switch r.Pick(4, 3, 3) {
		case 1:
			c.Faults = append(c.Faults, sim.Op{K: "crash", A: int64(s), B: int64(r.N([]int{6, 20, 60}[r.N(3)])), C: pick(0, 1, 2, 3), R: r.U64()})
		case 2:
			c.Faults = append(c.Faults, sim.Op{K: "ioerr", A: int64(s), B: int64(r.N([]int{6, 20}[r.N(2)])), C: int64(r.N(5)), R: r.U64()})
		}
	}
	return c
}

func init() { sim.Sims["wallet"] = sim.Sim{Gen: gen, Run: run} }
