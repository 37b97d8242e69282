// Package clustersim runs a network of complete nodes (vite.Vite: chain, pool, consensus, verifier, vm,
// producer, on-road processing and the real network layer) in one process over a simulated network,
// simulated disks and simulated clocks.
package clustersim

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/tyler-smith/go-bip39"
	"golang.org/x/crypto/scrypt"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	vcrypto "github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/pow"
	"github.com/vitelabs/go-vite/v2/wallet"
	"github.com/vitelabs/go-vite/v2/wallet/hd-bip/derivation"
	"github.com/vitelabs/go-vite/v2/zzverif/core"
	"github.com/vitelabs/go-vite/v2/zzverif/simnet"
)

const genesisTime = 1558411200

type user struct {
	i    int
	addr types.Address
	priv ed25519.PrivateKey
}

func (u *user) signer() interfaces.SignFunc {
	return func(data []byte) ([]byte, ed25519.PublicKey, error) {
		return ed25519.Sign(u.priv, data), u.priv.PubByte(), nil
	}
}

type cnode struct {
	i        int
	name, ip string
	producer bool
	entropy  []byte
	addr     types.Address // coinbase
	priv     ed25519.PrivateKey
	peerKey  ed25519.PrivateKey
	dir      string
	n        *core.Node
	v        *vite.Vite
	up       bool // started completely
	offset   int64
	boots    int
	frozen   bool
	dels     int                          // changes at every removal of blocks from the ledger
	mods     int                          // changes at every change of the ledger
	signers  map[types.Hash]types.Address // who signed the blocks of contracts it inserted
	top      *ledger.SnapshotBlock        // latest snapshot block, as the event listener sees it
	lock     *ledger.SnapshotBlock        // the irreversible block by the ledger since the last insertion
	final    *ledger.SnapshotBlock        // latest block this incarnation reported as irreversible
}

type cluster struct {
	c     *core.Case
	net   *simnet.Net
	nodes []*cnode
	users []*user
	gen   *config.Genesis
	rnd   *core.Rand
	t0    int64

	book            book
	headers         map[types.Hash]*ledger.SnapshotBlock
	plan            int64 // seconds of a period
	need            int   // producers that make a block irreversible
	healedAt        time.Duration
	slots           map[slot]*ledger.SnapshotBlock
	genesisHeads    map[types.Address]*ledger.AccountBlock
	genesisBalances map[types.Address]map[types.TokenTypeId]*big.Int
	cuts            [][]int
	healed          bool
	forged          map[types.Hash][]forgery // blocks made by the adversary
	forgedSnaps     map[string]string
	copies          map[types.Hash]bool
	down            map[int]int // node -> number of pending restarts
}

func key(seed string) ed25519.PrivateKey {
	var d [32]byte
	copy(d[:], seed)
	_, priv, err := ed25519.GenerateKeyFromD(d)
	if err != nil {
		core.Bug("%v", err)
	}
	return priv
}

func vite18(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), big.NewInt(1e18)) }

const viteToken = "tti_5649544520544f4b454e6e40"

func newCluster(c *core.Case) *cluster {
	cl := &cluster{c: c, rnd: core.NewRand(c.Seed ^ 0xc1)}
	cl.headers = map[types.Hash]*ledger.SnapshotBlock{}
	cl.slots = map[slot]*ledger.SnapshotBlock{}
	cl.forged = map[types.Hash][]forgery{}
	cl.forgedSnaps = map[string]string{}
	cl.copies = map[types.Hash]bool{}
	cl.down = map[int]int{}
	cl.t0 = runtime.SimGetStats().Now
	nr := core.NewRand(c.Seed ^ 0x4e7)
	cl.net = simnet.Install(nr.U64)
	cl.net.Base = time.Duration(c.Params["lat_us"]) * time.Microsecond
	cl.net.Jitter = time.Duration(c.Params["jitter_us"]) * time.Microsecond
	P, F := int(c.Params["producers"]), int(c.Params["full"])
	for i := 0; i < P+F; i++ {
		n := &cnode{i: i, name: fmt.Sprintf("n%d", i), ip: fmt.Sprintf("10.0.0.%d", i+1), producer: i < P, signers: map[types.Hash]types.Address{}}
		n.entropy = make([]byte, 32)
		copy(n.entropy, fmt.Sprintf("entropy of node %d", i))
		mn, err := bip39.NewMnemonic(n.entropy)
		if err != nil {
			core.Bug("%v", err)
		}
		k, err := derivation.DeriveWithIndex(0, bip39.NewSeed(mn, ""))
		if err != nil {
			core.Bug("%v", err)
		}
		a, _ := k.Address()
		n.addr = *a
		n.priv, _ = k.PrivateKey()
		n.peerKey = key(fmt.Sprintf("peer %d", i))
		n.dir = core.NewDir(n.name)
		cl.nodes = append(cl.nodes, n)
	}
	for i := 0; i < int(c.Params["users"]); i++ {
		k := key(fmt.Sprintf("user %d", i))
		cl.users = append(cl.users, &user{i: i, addr: types.PubkeyToAddress(k.PubByte()), priv: k})
	}
	cl.genesis()
	upgrade.CleanupUpgradeBox()
	pow.Init(false)
	return cl
}

func (cl *cluster) genesis() {
	g := config.MockGenesis()
	P := int(cl.c.Params["producers"])
	cnt := cl.c.Params["seats"]
	if cnt == 0 {
		cnt = int64(P)
	}
	gi := g.GovernanceInfo
	s, d := gi.ConsensusGroupInfoMap["00000000000000000001"], gi.ConsensusGroupInfoMap["00000000000000000002"]
	s.NodeCount, d.NodeCount = uint8(cnt), uint8(cnt)
	s.PerCount = cl.c.Params["percount"]
	s.RandCount, d.RandCount = 1, 1
	d.Interval, d.PerCount, d.Repeat = 3, 1, 2
	cl.plan = s.Interval * int64(s.NodeCount) * s.PerCount * int64(s.Repeat)
	cl.need = int(cnt)/3*2 + 1
	reg := map[string]*config.RegistrationInfo{}
	for i := 0; i < P; i++ {
		a := cl.nodes[i].addr
		reg[fmt.Sprintf("s%d", i+1)] = &config.RegistrationInfo{BlockProducingAddress: &a, StakeAddress: &a, Amount: vite18(100000), ExpirationHeight: 7776000, RewardTime: 1, HistoryAddressList: []types.Address{a}}
	}
	gi.RegistrationInfoMap = map[string]map[string]*config.RegistrationInfo{"00000000000000000001": reg}
	gen := *g.GenesisAccountAddress
	rich := gen.Hex()
	total := vite18(1000000000)
	g.AccountBalanceMap = map[string]map[string]*big.Int{}
	q := &config.QuotaContractInfo{StakeInfoMap: map[string][]*config.StakeInfo{}, StakeBeneficialMap: map[string]*big.Int{}}
	give := func(a types.Address, amount, stake int64) {
		x := a
		if stake > 0 {
			q.StakeInfoMap[rich] = append(q.StakeInfoMap[rich], &config.StakeInfo{Amount: vite18(stake), ExpirationHeight: 259200, Beneficiary: &x})
			q.StakeBeneficialMap[a.Hex()] = vite18(stake)
			total.Sub(total, vite18(stake))
		}
		if amount == 0 {
			return
		}
		g.AccountBalanceMap[a.Hex()] = map[string]*big.Int{viteToken: vite18(amount)}
		total.Sub(total, vite18(amount))
	}
	for i, u := range cl.users {
		if int64(i) < cl.c.Params["genusers"] {
			give(u.addr, 1000000, 20000)
		} else {
			give(u.addr, 0, 5000)
		}
	}
	for i := range cl.nodes {
		give(cl.nodes[i].addr, 1000, 1000)
	}
	staked := new(big.Int)
	for _, x := range q.StakeBeneficialMap {
		staked.Add(staked, x)
	}
	reged := vite18(int64(P) * 100000)
	total.Sub(total, reged)
	g.AccountBalanceMap[types.AddressQuota.Hex()] = map[string]*big.Int{viteToken: staked}
	g.AccountBalanceMap[types.AddressGovernance.Hex()] = map[string]*big.Int{viteToken: reged}
	g.AccountBalanceMap[rich] = map[string]*big.Int{viteToken: total}
	g.QuotaInfo = q
	cl.gen = g
}

// genesisCopy: every incarnation gets its own configuration object.
func (cl *cluster) genesisCopy() *config.Genesis {
	b, err := json.Marshal(cl.gen)
	if err != nil {
		core.Bug("%v", err)
	}
	g := new(config.Genesis)
	if err := json.Unmarshal(b, g); err != nil {
		core.Bug("%v", err)
	}
	return g
}

// wallet is the absolute path of the key store (it must not depend on the process); it is not part of
// the simulated disk.
func (n *cnode) wallet() string { return "/proc/self/cwd/wallet-" + n.name }

func (n *cnode) writeWallet() error {
	f := filepath.Join(n.wallet(), n.addr.Hex())
	if _, err := os.Stat(f); err == nil {
		return nil
	}
	salt := make([]byte, 32)
	dk, err := scrypt.Key([]byte("pw"), salt, 2, 8, 1, 32)
	if err != nil {
		return err
	}
	ct, nonce, err := vcrypto.AesGCMEncrypt(dk, n.entropy)
	if err != nil {
		return err
	}
	b, _ := json.Marshal(map[string]interface{}{"primaryAddress": n.addr.Hex(), "seedstoreversion": 1, "timestamp": 1, "crypto": map[string]interface{}{
		"ciphername": "aes-256-gcm", "ciphertext": hex.EncodeToString(ct), "nonce": hex.EncodeToString(nonce), "kdf": "scrypt",
		"scryptparams": map[string]interface{}{"n": 2, "r": 8, "p": 1, "keylen": 32, "salt": hex.EncodeToString(salt)}}})
	if err := os.MkdirAll(filepath.Dir(f), 0700); err != nil {
		return err
	}
	return os.WriteFile(f, b, 0600)
}

// boot starts an incarnation of the node; the returned channel is closed when it is up or dead.
func (cl *cluster) boot(n *cnode) chan struct{} {
	n.boots++
	n.n = core.Boot(n.name, n.dir)
	n.v, n.up = nil, false
	inc := n.n
	inc.OnPanic = func(x *core.Node, msg string) { cl.died(n, msg) }
	cl.net.SetHost(inc.Tag, n.ip)
	runtime.SimClockOffset(inc.Tag, n.offset)
	done := make(chan struct{})
	inc.Go(func() {
		v, err := cl.start(n)
		if err != nil {
			cl.startFailed(n, err)
		}
		n.v, n.up = v, true
		close(done)
	})
	return done
}

func (cl *cluster) start(n *cnode) (*vite.Vite, error) {
	if err := n.writeWallet(); err != nil {
		return nil, err
	}
	wm := wallet.New(&config.Wallet{DataDir: n.wallet()})
	if err := wm.Start(); err != nil {
		return nil, err
	}
	path := n.addr.Hex()
	if err := wm.Unlock(path, "pw"); err != nil {
		return nil, err
	}
	var static []string
	for _, m := range cl.nodes {
		// one node of every pair dials: two nodes that dial each other in the same round trip time
		// refuse each other's connections, and do so again every 5 s while their tickers stay in phase
		if m.i < n.i {
			static = append(static, fmt.Sprintf("%x@%s:8483/7", m.peerKey.PubByte(), m.ip))
		}
	}
	gc := true
	cfg := &config.Config{
		Producer:   &config.Producer{Producer: n.producer, EntropyStorePath: path},
		Chain:      &config.Chain{LedgerGc: gc, OpenPlugins: cl.c.Params["plugins"] != 0, VmLogAll: true},
		Vm:         &config.Vm{IsUseVmTestParam: true, IsUseQuotaTestParam: true},
		Subscribe:  &config.Subscribe{},
		NodeReward: &config.NodeReward{},
		Genesis:    cl.genesisCopy(),
		DataDir:    n.dir,
		LogLevel:   "error",
		Net: &config.Net{Name: n.name, NetID: 7, ListenInterface: n.ip, Port: 8483, FilePort: 8484, PublicAddress: n.ip + ":8483", FilePublicAddress: n.ip + ":8484",
			DataDir: filepath.Join(n.dir, "net"), PeerKey: hex.EncodeToString(n.peerKey), StaticNodes: static, MaxPeers: 60, MaxInboundRatio: 2, MinPeers: 5, MaxPendingPeers: 10,
			ForwardStrategy: "cross", AccessControl: "any"},
	}
	if n.producer {
		cfg.Producer.Coinbase = "0:" + n.addr.Hex()
		if err := cfg.Producer.Parse(); err != nil {
			return nil, err
		}
	}
	// the upgrade box is one per process: replace it without letting another node see the gap
	runtime.SimNoPreempt(true)
	upgrade.CleanupUpgradeBox()
	v, err := vite.New(cfg, wm)
	runtime.SimNoPreempt(false)
	if err != nil {
		return nil, fmt.Errorf("New: %v", err)
	}
	// so are the parameters of the virtual machine and of the quota calculation
	runtime.SimNoPreempt(true)
	err = v.Init()
	runtime.SimNoPreempt(false)
	if err != nil {
		return nil, fmt.Errorf("Init: %v", err)
	}
	n.final, n.lock = nil, nil
	n.top = v.Chain().GetLatestSnapshotBlock()
	cl.header(n.top)
	if n.boots > 1 {
		core.Logf("%s starts at %d %s", n.name, n.top.Height, n.top.Hash)
	}
	if cl.genesisBalances == nil {
		cl.readGenesis(v)
	}
	v.Chain().Register(&listener{cl: cl, n: n, inc: n.n})
	if err := v.Start(); err != nil {
		return nil, fmt.Errorf("Start: %v", err)
	}
	return v, nil
}

// readGenesis takes the balances of the genesis ledger from the first node that starts (at height 1).
func (cl *cluster) readGenesis(v *vite.Vite) {
	cl.genesisBalances = map[types.Address]map[types.TokenTypeId]*big.Int{}
	cl.genesisHeads = map[types.Address]*ledger.AccountBlock{}
	sum := new(big.Int)
	addrs := append([]types.Address{*cl.gen.GenesisAccountAddress}, types.BuiltinContracts...)
	for _, n := range cl.nodes {
		addrs = append(addrs, n.addr)
	}
	for _, u := range cl.users {
		addrs = append(addrs, u.addr)
	}
	for _, a := range addrs {
		m, err := v.Chain().GetBalanceMap(a)
		if err != nil {
			core.Bug("genesis: %v", err)
		}
		cl.genesisBalances[a] = m
		if b, err := v.Chain().GetLatestAccountBlock(a); err != nil {
			core.Bug("genesis: %v", err)
		} else if b != nil {
			cl.genesisHeads[a] = b
		}
		sum.Add(sum, z(m[ledger.ViteTokenId]))
	}
	if sum.Cmp(vite18(1000000000)) != 0 {
		core.Bug("genesis: balances sum up to %v", sum)
	}
}

func (cl *cluster) died(n *cnode, msg string) {
	core.Fail("node-died", "%s died by itself: %s", n.name, msg)
}

func (cl *cluster) startFailed(n *cnode, err error) {
	core.Fail("start-failed", "%s (start %d) does not start: %v", n.name, n.boots, err)
}

// on runs f as a goroutine of the node and waits for it; false if the node died or the time ran out.
func (cl *cluster) on(n *cnode, limit time.Duration, f func(v *vite.Vite)) bool {
	if !n.up || n.n.IsDead {
		return false
	}
	done := make(chan struct{})
	v, inc := n.v, n.n
	inc.Go(func() {
		f(v)
		close(done)
	})
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-inc.Dead:
		return false
	case <-t.C:
		return false
	}
}

func (cl *cluster) crash(n *cnode, silent bool) {
	if n.n == nil || n.n.IsDead {
		return
	}
	n.up = false
	n.dir = n.n.Crash(0, cl.rnd.U64, "fault")
	cl.net.Down(n.ip, silent)
	runtime.SimFreeze(n.n.Tag, false)
}

func (cl *cluster) sim() time.Duration {
	return time.Duration(runtime.SimGetStats().Now - cl.t0)
}

func (cl *cluster) header(b *ledger.SnapshotBlock) {
	runtime.SimNoPreempt(true)
	cl.headers[b.Hash] = b
	runtime.SimNoPreempt(false)
}
