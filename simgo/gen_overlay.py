#!/usr/bin/env python3
"""Builds the overlay that turns Go 1.23's standard library into a deterministic simulator.

usage: gen_overlay.py OUTDIR OVERLAY.json REPO HARNESSDIR

Every patch is a literal search/replace against the pinned GOROOT; a pattern that is not found is a
hard error (exit 3), never a silent degradation.
"""
import json, os, sys, subprocess, re

out, ovjson, repo, hdir = [os.path.abspath(p) for p in sys.argv[1:5]]
here = os.path.dirname(os.path.abspath(__file__))
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
ver = open(os.path.join(goroot, "VERSION")).read().split()[0]
if not ver.startswith("go1.23"):
    sys.exit(f"gen_overlay: expected go1.23, have {ver}")
src = os.path.join(goroot, "src")
rep = {}

def die(m):
    print("gen_overlay:", m, file=sys.stderr)
    sys.exit(3)

def emit(rel, text):
    dst = os.path.join(out, "std", rel.replace("/", "__"))
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not (os.path.exists(dst) and open(dst).read() == text):
        open(dst, "w").write(text)
    rep[os.path.join(src, rel)] = dst

def patch(rel, *subs):
    p = os.path.join(src, rel)
    t = open(p).read()
    for old, new in subs:
        n = t.count(old)
        if n != 1:
            die(f"{rel}: pattern occurs {n} times: {old[:70]!r}")
        t = t.replace(old, new)
    emit(rel, t)

def delete(rel):
    assert os.path.exists(os.path.join(src, rel)), rel
    rep[os.path.join(src, rel)] = ""

def add(rel, fn):
    emit(rel, open(os.path.join(here, "std", fn)).read())

# a dependency opens its own executable when it is initialised: its path must not reach the heap
patch("os/executable_procfs.go", ("	path, err := Readlink(procfn)\n", "	path, err := \"/vsim.absent\", error(nil)\n	_ = procfn\n"))

# ------------------------------------------------------------------ runtime
add("runtime/sim_verif.go", "runtime_sim.go.txt")
delete("runtime/time_nofake.go")
delete("runtime/timeasm.go")
delete("runtime/time_linux_amd64.s")

patch("runtime/rand.go",
  ("""	if startupRand != nil {
		for i, c := range startupRand {
			seed[i%len(seed)] ^= c
		}
		clear(startupRand)
		startupRand = nil
	} else {
		if readRandom(seed[:]) != len(seed) {
			// readRandom should never fail, but if it does we'd rather
			// not make Go binaries completely unusable, so make up
			// some random data based on the current time.
			readRandomFailed = true
			readTimeRandom(seed[:])
		}
	}
""", "	startupRand = nil\n	seed[0] = 7\n"),
  ("""	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,
		// so we don't need to use mp.locks
		// on the fast path, which is that the
		// first attempt succeeds.
		x, ok := c.Next()
		if ok {
			return x
		}
		mp.locks++ // hold m even though c.Refill may do stack split checks
		c.Refill()
		mp.locks--
	}
""", "	return simNext(&simUserRand)\n"),
  ("""	mp := getg().m
	// Implement wyrand: https://github.com/wangyi-fudan/wyhash
""", """	if true {
		return uint32(simNext(&simIntRand))
	}
	mp := getg().m
	// Implement wyrand: https://github.com/wangyi-fudan/wyhash
"""))

patch("runtime/os_linux.go", ("	ncpu = getproccount()", "	ncpu = 4 // simulated"))
patch("runtime/debug.go", ("	if n <= 0 || n == ret {\n		return ret\n	}", "	if true {\n		return ret\n	}"))
patch("runtime/runtime2.go", ("	goid         uint64\n	schedlink    guintptr\n", "	goid         uint64\n	simTag       uint32\n	simNoPreempt uint32\n	schedlink    guintptr\n"))
patch("runtime/proc.go",
  ("""	if haveSysmon {
		systemstack(func() {
			newm(sysmon, nil, -1)
		})
	}
""", ""),
  # the main goroutine is not tied to a thread: then one thread runs everything, and what the runtime
  # allocates for threads cannot move the heap
  ("	lockOSThread()\n\n	if mp != &m0 {", "	if mp != &m0 {"),
  ("	defer func() {\n		if needUnlock {\n			unlockOSThread()\n		}\n	}()\n", ""),
  ("	needUnlock = false\n	unlockOSThread()\n", "	_ = needUnlock\n"),
  ("	procs := ncpu\n	if n, ok := atoi32(gogetenv(\"GOMAXPROCS\")); ok && n > 0 {\n		procs = n\n	}\n", "	procs := int32(1)\n"),
  ("	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.simNoPreempt = 0\n	if mp.curg != nil {\n		newg.simTag = mp.curg.simTag\n	} else {\n		newg.simTag = simTimerTag\n	}\n"),
  ("	gp.waitsince = 0\n	gp.preempt = false\n	gp.stackguard0 = gp.stack.lo + stackGuard\n	if !inheritTime {\n", "	gp.waitsince = 0\n	gp.preempt = false\n	gp.stackguard0 = gp.stack.lo + stackGuard\n	simOnExecute(gp)\n	if !inheritTime {\n"),
  ("func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if simMode != 0 {\n		next = false\n	}\n"),
  ("func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simMode != 0 {\n		simPick(pp)\n	}\n"),
  ("""	dropg()
	lock(&sched.lock)
	globrunqput(gp)
	unlock(&sched.lock)

	if mainStarted {
		wakep()
	}

	schedule()
}
""", """	dropg()
	if simMode != 0 {
		runqput(gp.m0p(), gp, false)
	} else {
		lock(&sched.lock)
		globrunqput(gp)
		unlock(&sched.lock)
	}

	if mainStarted {
		wakep()
	}

	schedule()
}
"""),
  ("""	// Before we drop our P, make a snapshot of the allp slice,
	// which can change underfoot once we no longer block
	// safe-points. We don't need to snapshot the contents because
""", """	if pollUntil != 0 && gcBlackenEnabled == 0 && sched.runqsize == 0 {
		// simulated time: nothing is runnable, jump to the next timer
		if pollUntil > faketime {
			faketime = pollUntil
		}
		if mp.spinning {
			mp.spinning = false
			sched.nmspinning.Add(-1)
		}
		goto top
	}

	// Before we drop our P, make a snapshot of the allp slice,
	// which can change underfoot once we no longer block
	// safe-points. We don't need to snapshot the contents because
"""),
)
patch("runtime/malloc.go",
  ("""	if size == 0 {
		return unsafe.Pointer(&zerobase)
	}

	// It's possible for any malloc to trigger sweeping, which may in
""", """	if size == 0 {
		return unsafe.Pointer(&zerobase)
	}
	simWork++
	if simWork > simWorkMax && simWorkMax != 0 {
		simWorkOver()
	}
	if simPreemptEvery != 0 {
		simMaybePreempt()
	}

	// It's possible for any malloc to trigger sweeping, which may in
"""))
patch("runtime/time.go",
  ("	async := debug.asynctimerchan.Load() != 0\n	if !async && t.isChan && t.period == 0 {\n		// Tell Stop", "	simTimerTag = t.simTag\n	async := debug.asynctimerchan.Load() != 0\n	if !async && t.isChan && t.period == 0 {\n		// Tell Stop"),
  ("	isChan bool         // timer has a channel; immutable; can be read without lock\n", "	isChan bool         // timer has a channel; immutable; can be read without lock\n	simTag uint32\n"),
  ("func (t *timer) modify(when, period int64, f func(arg any, seq uintptr, delay int64), arg any, seq uintptr) bool {\n", "func (t *timer) modify(when, period int64, f func(arg any, seq uintptr, delay int64), arg any, seq uintptr) bool {\n	if cg := getg().m.curg; cg != nil {\n		t.simTag = cg.simTag\n	}\n"))
patch("runtime/panic.go",
  ("	fatalpanic(&p)   // should not return\n", "	if SimPanicHook != nil && gp.simTag != 0 {\n		SimPanicHook(gp.simTag, p.arg)\n		for {\n			Gosched()\n		}\n	}\n	fatalpanic(&p)   // should not return\n"))
patch("runtime/chan.go",
  ("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	simYieldPoint()\n"),
  ("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	simYieldPoint()\n"))

# ------------------------------------------------------------------ sync
# a goroutine is not preempted (hence not killed) while it holds a lock of the process as a whole (a
# package-level variable, of the standard library mostly): in a real crash such a lock dies with the
# process, here the next incarnation shares it
patch("sync/mutex.go",
  ("func fatal(string)\n", "func fatal(string)\nfunc runtime_simYieldPoint()\nfunc runtime_simGlobal(p unsafe.Pointer, d int)\n"),
  ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	runtime_simYieldPoint()\n	runtime_simGlobal(unsafe.Pointer(m), 1)\n"),
  ("func (m *Mutex) TryLock() bool {\n", "func (m *Mutex) TryLock() (ok bool) {\n	defer func() {\n		if ok {\n			runtime_simGlobal(unsafe.Pointer(m), 1)\n		}\n	}()\n"),
  ("func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n	defer runtime_simYieldPoint()\n	defer runtime_simGlobal(unsafe.Pointer(m), -1)\n"))
patch("sync/once.go",
  ("	\"sync/atomic\"\n", "	\"sync/atomic\"\n	\"unsafe\"\n"),
  ("func (o *Once) doSlow(f func()) {\n", "func (o *Once) doSlow(f func()) {\n	runtime_simGlobal(unsafe.Pointer(o), 1)\n	defer runtime_simGlobal(unsafe.Pointer(o), -1)\n"))
patch("sync/rwmutex.go",
  ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_simYieldPoint()\n	runtime_simGlobal(unsafe.Pointer(rw), 1)\n"),
  ("func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	defer runtime_simYieldPoint()\n	defer runtime_simGlobal(unsafe.Pointer(rw), -1)\n"))

# a critical section of the harness neither takes from nor adds to the pools of the nodes
patch("sync/pool.go",
  ("func (p *Pool) Put(x any) {\n", "func runtime_simNoPool() bool\n\nfunc (p *Pool) Put(x any) {\n	if runtime_simNoPool() {\n		return\n	}\n"),
  ("func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n	if runtime_simNoPool() {\n		if p.New != nil {\n			return p.New()\n		}\n		return nil\n	}\n"))

# ------------------------------------------------------------------ syscall / os
add("syscall/sim_verif.go", "syscall_sim.go.txt")
zs = "syscall/zsyscall_linux_amd64.go"
t = open(os.path.join(src, zs)).read()
def ren(t, old, new):
    if t.count(old) != 1: die(f"{zs}: {old!r} x{t.count(old)}")
    return t.replace(old, new)
for f in ["openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)",
          "unlinkat(dirfd int, path string, flags int) (err error)",
          "Close(fd int) (err error)", "Fdatasync(fd int) (err error)", "Fsync(fd int) (err error)",
          "Ftruncate(fd int, length int64) (err error)", "Truncate(path string, length int64) (err error)",
          "Mkdirat(dirfd int, path string, mode uint32) (err error)",
          "write(fd int, p []byte) (n int, err error)", "read(fd int, p []byte) (n int, err error)",
          "pwrite(fd int, p []byte, offset int64) (n int, err error)",
          "pread(fd int, p []byte, offset int64) (n int, err error)"]:
    t = ren(t, "\nfunc " + f, "\nfunc sim0_" + f)
emit(zs, t)
sl = open(os.path.join(src, "syscall/syscall_linux.go")).read()
if sl.count("	return Renameat(_AT_FDCWD, oldpath, _AT_FDCWD, newpath)\n") != 1: die("Rename")
emit("syscall/syscall_linux.go", sl.replace("	return Renameat(_AT_FDCWD, oldpath, _AT_FDCWD, newpath)\n", "	return simRename(oldpath, newpath)\n"))

delete("os/removeall_at.go")
t = open(os.path.join(src, "os/removeall_noat.go")).read()
emit("os/removeall_noat.go".replace("noat", "sim"), t.replace("//go:build !unix\n", ""))
delete("os/removeall_noat.go")
delete("os/zero_copy_linux.go")
add("os/zero_copy_sim.go", "os_zero_copy.go.txt")
patch("os/dir_unix.go",
  ("func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n",
   "func (f *File) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {\n	if n <= 0 {\n		defer func() { simSortDir(names, dirents, infos) }()\n	}\n"))
add("os/sim_verif.go", "os_sim.go.txt")
patch("os/proc.go", ("func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"))

# ------------------------------------------------------------------ crypto/rand
cr = open(os.path.join(src, "crypto/rand/rand.go")).read()
add("crypto/rand/sim_verif.go", "crypto_rand_sim.go.txt")

# ------------------------------------------------------------------ net
add("net/sim_verif.go", "net_sim.go.txt")
patch("net/dial.go",
  ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		return SimDial(d, ctx, network, address)\n	}\n"),
  ("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(network, address)\n	}\n"),
  ("func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n", "func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n	if SimListenPacket != nil {\n		return SimListenPacket(network, address)\n	}\n"))

# ------------------------------------------------------------------ the repository: the constant missing from this copy
emit_dir = os.path.join(out, "repo"); os.makedirs(emit_dir, exist_ok=True)
has = subprocess.run(["grep", "-rlE", r"^\s*(const|var)?\s*genesisJson\s*=", os.path.join(repo, "common/config")], capture_output=True, text=True).stdout.strip()
if not has:
    g = os.path.join(emit_dir, "genesis_json.go")
    txt = "package config\n\nconst genesisJson = mockGenesisJson\n"
    if not (os.path.exists(g) and open(g).read() == txt): open(g, "w").write(txt)
    rep[os.path.join(repo, "common/config/zz_genesis_json_verif.go")] = g

# the key derivation of the wallet takes a second and 256 MB by design: a stand-in that depends on the same inputs
try:
    sd = subprocess.check_output(["go", "list", "-f", "{{.Dir}}", "golang.org/x/crypto/scrypt"], text=True, cwd=repo).strip()
except subprocess.CalledProcessError:
    die("golang.org/x/crypto/scrypt not found")
rep[os.path.join(sd, "scrypt.go")] = os.path.join(here, "std", "scrypt.go.txt")

# harness packages appear as github.com/vitelabs/go-vite/v2/zzverif/...
for d, _, fs in os.walk(hdir):
    for f in fs:
        if f.endswith(".go"):
            rel = os.path.relpath(os.path.join(d, f), hdir)
            rep[os.path.join(repo, "zzverif", rel)] = os.path.join(d, f)

json.dump({"Replace": rep}, open(ovjson + ".tmp", "w"), indent=1)
os.replace(ovjson + ".tmp", ovjson)
