package ledgersim

import (
	"context"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"time"
	"unsafe"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/rpc"
	"github.com/vitelabs/go-vite/v2/rpcapi/api"
	"github.com/vitelabs/go-vite/v2/rpcapi/api/filters"
	sim "github.com/vitelabs/go-vite/v2/zzverif/core"
)

// Clients of the event system: each keeps a filter (polled) or a subscription (pushed over an in-process
// rpc connection) of one kind. What it was told must be what happened to the ledger since, in that order.

// change is one thing that happened to the ledger: blocks came, in this order, or went
type change struct {
	removed bool
	blks    []*blk
	sbs     []*ledger.SnapshotBlock
}

const filterLife = 5 * time.Minute

type evClient struct {
	id     int
	r      *sim.Rand
	push   bool
	kind   int // 0 snapshot blocks, 1 account blocks, 2 of an address, 3 unreceived of an address, 4 logs
	v2     bool
	addr   types.Address
	ranges map[string]*api.Range
	topics [][]types.Hash

	on      bool
	fid     rpc.ID
	conn    *rpc.Client
	sub     *rpc.ClientSubscription
	from    int // number of changes when the client was known to be installed
	settled bool
	last    time.Time
	got     []string
	mu      sync.Mutex // held while the client calls the node
	since   time.Time
	busy    bool
}

type events struct {
	changes []change
	api     *filters.SubscribeApi
	srv     *rpc.Server
	clients []*evClient
	start   time.Time // of the api
}

func (w *world) changed(c change) {
	if w.ev != nil && (len(c.blks) > 0 || len(c.sbs) > 0) {
		w.ev.changes = append(w.ev.changes, c)
	}
}

func viteOver(c chain.Chain) *vite.Vite {
	v := &vite.Vite{}
	e := reflect.ValueOf(v).Elem()
	t := reflect.TypeOf((*chain.Chain)(nil)).Elem()
	n := 0
	for i := 0; i < e.NumField(); i++ {
		if f := e.Field(i); f.Type() == t {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(c))
			n++
		}
	}
	if n != 1 {
		sim.Bug("vite.Vite has %d chains", n)
	}
	return v
}

func (w *world) startEvents() {
	if w.c.Params["events"] == 0 {
		return
	}
	ev := &events{}
	w.ev = ev
	died := w.in(func() {
		v := viteOver(w.ch)
		filters.Es = filters.NewEventSystem(v)
		filters.Es.Start()
		ev.api = filters.NewSubscribeApi(v)
		ev.start = time.Now()
		ev.srv = rpc.NewServer()
		if err := ev.srv.RegisterName("subscribe", ev.api); err != nil {
			sim.Bug("%v", err)
		}
		if w.c.Params["stall"] > 0 {
			w.stall(ev)
		}
	})
	if died != "" {
		return
	}
	n := int(w.c.Params["events"])
	if w.c.Params["stall"] > 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		c := &evClient{id: i, r: sim.NewRand(w.c.Seed*131 + uint64(i) + uint64(w.bootN)*977)}
		w.bootN++
		ev.clients = append(ev.clients, c)
		w.node.Go(func() { w.runClient(ev, c) })
	}
}

// stall: a client that subscribes and then stops reading
func (w *world) stall(ev *events) {
	p1, p2 := net.Pipe()
	w.node.Go(func() {
		ev.srv.ServeCodec(rpc.NewJSONCodec(p1), rpc.OptionMethodInvocation|rpc.OptionSubscriptions)
	})
	if _, err := p2.Write([]byte(`{"jsonrpc":"2.0","id":1,"method":"subscribe_subscribe","params":["newAccountBlock"]}` + "\n")); err != nil {
		sim.Bug("%v", err)
	}
	buf := make([]byte, 4096)
	n, err := p2.Read(buf)
	if err != nil || n == 0 {
		sim.Bug("no answer to a subscription: %v", err)
	}
	sim.Injected("client_stops_reading", 1)
}

func (w *world) runClient(ev *events, c *evClient) {
	r := c.r
	for !w.stopped {
		c.lock()
		if !c.on {
			w.create(ev, c)
		} else if !c.push {
			w.poll(ev, c)
			if c.on && r.P(1, 25) {
				if !ev.api.UninstallFilter(c.fid) {
					sim.Fail("filter-lost", "op %d: client %d uninstalls its filter %s, which it polled just now, and it is unknown", w.opIdx, c.id, c.fid)
				}
				w.judge(ev, c, true)
				c.on = false
			}
		} else if r.P(1, 60) {
			if r.P(1, 2) {
				c.sub.Unsubscribe()
			}
			c.conn.Close()
			w.judge(ev, c, true)
			c.on = false
		}
		c.unlock()
		d := time.Duration(r.N(1500)) * time.Millisecond
		switch {
		case r.P(1, 3):
			d = time.Duration(r.N(3000)) * time.Microsecond
		case r.P(1, 12) || w.c.Params["lazy"] > 0 && r.P(int(w.c.Params["lazy"]), 4):
			d = time.Duration(r.Range(100, 700)) * time.Second
		}
		time.Sleep(d)
	}
}

func (c *evClient) lock()   { c.mu.Lock(); c.busy, c.since = true, time.Now() }
func (c *evClient) unlock() { c.busy = false; c.mu.Unlock() }

func rm(b bool) string {
	if b {
		return "-"
	}
	return "+"
}

func (w *world) create(ev *events, c *evClient) {
	r := c.r
	c.got, c.settled = nil, false
	c.kind = r.N(5)
	c.v2 = r.P(1, 2)
	c.push = r.P(1, 3)
	addrs := append(append([]types.Address(nil), w.users...), w.builtin...)
	c.addr = addrs[r.N(len(addrs))]
	c.ranges, c.topics = map[string]*api.Range{}, nil
	if c.kind == 4 {
		for _, a := range append(append([]types.Address(nil), w.contracts...), w.builtin...) {
			if r.P(3, 4) {
				rg := &api.Range{FromHeight: "0", ToHeight: "0"}
				if r.P(1, 3) {
					rg.FromHeight = strconv.Itoa(r.Range(1, 4))
				}
				if r.P(1, 3) {
					rg.ToHeight = strconv.Itoa(r.Range(4, 9))
				}
				c.ranges[a.String()] = rg
			}
		}
		if len(c.ranges) == 0 {
			c.ranges[w.builtin[0].String()] = &api.Range{FromHeight: "0", ToHeight: "0"}
		}
		if r.P(1, 2) {
			var l []types.Hash
			for i := 0; i < 4; i++ {
				if r.P(1, 2) {
					l = append(l, types.DataHash(u64b(uint64(i))))
				}
			}
			c.topics = [][]types.Hash{l}
		}
	}
	var err error
	p4 := api.VmLogFilterParam{AddrRange: c.ranges, Topics: c.topics}
	if !c.push {
		switch {
		case c.kind == 0 && c.v2:
			c.fid, err = ev.api.NewSnapshotBlockFilter()
		case c.kind == 0:
			c.fid, err = ev.api.NewSnapshotBlocksFilter()
		case c.kind == 1:
			c.fid, err = ev.api.NewAccountBlockFilter()
		case c.kind == 2 && c.v2:
			c.fid, err = ev.api.NewAccountBlockByAddressFilter(c.addr)
		case c.kind == 2:
			c.fid, err = ev.api.NewAccountBlocksByAddrFilter(c.addr)
		case c.kind == 3 && c.v2:
			c.fid, err = ev.api.NewUnreceivedBlockByAddressFilter(c.addr)
		case c.kind == 3:
			c.fid, err = ev.api.NewOnroadBlocksByAddrFilter(c.addr)
		case c.v2:
			c.fid, err = ev.api.NewVmLogFilter(p4)
		default:
			c.fid, err = ev.api.NewLogsFilter(filters.RpcFilterParam{AddrRange: c.ranges, Topics: c.topics})
		}
		if err != nil {
			sim.Fail("event-error", "op %d: creating a filter failed: %v", w.opIdx, err)
		}
		c.from, c.settled = len(ev.changes)+1, true
		c.last = time.Now()
		c.on = true
		sim.Count("filters", 1)
		return
	}
	ctx := context.Background()
	c.conn = rpc.DialInProc(ev.srv)
	switch c.kind {
	case 0:
		ch := make(chan []*filters.SnapshotBlockV2, 16)
		c.sub, err = c.conn.Subscribe(ctx, "subscribe", ch, "newSnapshotBlock")
		go push(c, ch)
	case 1:
		ch := make(chan []*filters.AccountBlock, 16)
		c.sub, err = c.conn.Subscribe(ctx, "subscribe", ch, "newAccountBlock")
		go push(c, ch)
	case 2:
		ch := make(chan []*filters.AccountBlockWithHeightV2, 16)
		c.sub, err = c.conn.Subscribe(ctx, "subscribe", ch, "newAccountBlockByAddress", c.addr)
		go push(c, ch)
	case 3:
		ch := make(chan []*filters.OnroadMsgV2, 16)
		c.sub, err = c.conn.Subscribe(ctx, "subscribe", ch, "newUnreceivedBlockByAddress", c.addr)
		go push(c, ch)
	case 4:
		ch := make(chan []*filters.LogsV2, 16)
		c.sub, err = c.conn.Subscribe(ctx, "subscribe", ch, "newVmLog", p4)
		go push(c, ch)
	}
	if err != nil {
		sim.Fail("event-error", "op %d: subscribing failed: %v", w.opIdx, err)
	}
	c.on = true
	c.last = time.Now()
	sim.Count("subscriptions", 1)
}

// push takes what the server sends
func push(c *evClient, ch interface{}) {
	v := reflect.ValueOf(ch)
	sub := c.sub
	cases := []reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: v}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(sub.Err())}}
	for {
		i, x, ok := reflect.Select(cases)
		if i == 1 || !ok || c.sub != sub {
			return
		}
		c.add(x.Interface())
	}
}

// add notes messages in one form
func (c *evClient) add(x interface{}) {
	switch l := x.(type) {
	case []*filters.SnapshotBlock:
		for _, b := range l {
			if b.HeightStr != strconv.FormatUint(b.Height, 10) {
				sim.Fail("event-wrong", "height %d is given as %s", b.Height, b.HeightStr)
			}
			c.got = append(c.got, rm(b.Removed)+b.HeightStr+" "+b.Hash.String())
		}
	case []*filters.SnapshotBlockV2:
		for _, b := range l {
			c.got = append(c.got, rm(b.Removed)+b.Height+" "+b.Hash.String())
		}
	case []*filters.AccountBlock:
		for _, b := range l {
			c.got = append(c.got, rm(b.Removed)+b.Hash.String())
		}
	case []*filters.AccountBlockWithHeight:
		for _, b := range l {
			if b.HeightStr != strconv.FormatUint(b.Height, 10) {
				sim.Fail("event-wrong", "height %d is given as %s", b.Height, b.HeightStr)
			}
			c.got = append(c.got, rm(b.Removed)+b.HeightStr+" "+b.Hash.String())
		}
	case []*filters.AccountBlockWithHeightV2:
		for _, b := range l {
			c.got = append(c.got, rm(b.Removed)+b.Height+" "+b.Hash.String())
		}
	case []*filters.OnroadMsg:
		for _, b := range l {
			c.got = append(c.got, onroad(b.Hash, b.Closed, b.Removed))
		}
	case []*filters.OnroadMsgV2:
		for _, b := range l {
			c.got = append(c.got, onroad(b.Hash, b.Received, b.Removed))
		}
	case []*filters.Logs:
		for _, b := range l {
			c.got = append(c.got, logMsg(b.Removed, *b.Addr, b.AccountHeight, b.AccountBlockHash, b.Log))
		}
	case []*filters.LogsV2:
		for _, b := range l {
			c.got = append(c.got, logMsg(b.Removed, *b.Addr, b.AccountHeight, b.AccountBlockHash, b.Log))
		}
	default:
		sim.Bug("message %T", x)
	}
}

func logMsg(removed bool, a types.Address, height string, h types.Hash, l *ledger.VmLog) string {
	return fmt.Sprintf("%s%s/%s %s %v %x", rm(removed), a, height, h, l.Topics, l.Data)
}

func onroad(h types.Hash, closed, removed bool) string {
	switch {
	case removed:
		return "removed " + h.String()
	case closed:
		return "received " + h.String()
	}
	return "open " + h.String()
}

func (w *world) poll(ev *events, c *evClient) {
	idle := time.Since(c.last)
	var x interface{}
	var err error
	if c.v2 {
		x, err = ev.api.GetChangesByFilterId(c.fid)
	} else {
		x, err = ev.api.GetFilterChanges(c.fid)
	}
	if err != nil {
		if idle < filterLife {
			sim.Fail("filter-lost", "op %d: client %d polls its filter %s after %v: %v", w.opIdx, c.id, c.fid, idle, err)
		}
		sim.Count("filters_expired", 1)
		w.judge(ev, c, true)
		c.on = false
		return
	}
	if idle > 2*filterLife+time.Second {
		sim.Fail("filter-kept", "op %d: filter %s was not polled for %v and is still there", w.opIdx, c.fid, idle)
	}
	c.last = time.Now()
	v := reflect.ValueOf(x)
	if f := v.FieldByName("Id"); !f.IsValid() || f.Interface() != interface{}(c.fid) {
		sim.Fail("event-wrong", "op %d: polling %s answers for another filter: %v", w.opIdx, c.fid, x)
	}
	for _, n := range []string{"Blocks", "Logs"} {
		if f := v.FieldByName(n); f.IsValid() {
			c.add(f.Interface())
		}
	}
	sim.Count("polls", 1)
}

func (c *evClient) wantLog(b *blk, l *ledger.VmLog) bool {
	rg := c.ranges[b.ab.AccountAddress.String()]
	if rg == nil {
		return false
	}
	lo, _ := strconv.Atoi(rg.FromHeight)
	hi, _ := strconv.Atoi(rg.ToHeight)
	if lo > 0 && b.ab.Height < uint64(lo) || hi > 0 && b.ab.Height > uint64(hi) {
		return false
	}
	for i, t := range c.topics {
		if i >= len(l.Topics) {
			return false
		}
		in := len(t) == 0
		for _, x := range t {
			in = in || x == l.Topics[i]
		}
		if !in {
			return false
		}
	}
	return true
}

// tell: what a change means for this client (not for unreceived blocks)
func (c *evClient) tell(ch change) (l []string) {
	sg := rm(ch.removed)
	if c.kind == 0 {
		for _, s := range ch.sbs {
			l = append(l, fmt.Sprintf("%s%d %s", sg, s.Height, s.Hash))
		}
		return
	}
	for _, b := range ch.blks {
		switch c.kind {
		case 1:
			l = append(l, sg+b.ab.Hash.String())
		case 2:
			if b.ab.AccountAddress == c.addr {
				l = append(l, fmt.Sprintf("%s%d %s", sg, b.ab.Height, b.ab.Hash))
			}
		case 4:
			for _, g := range b.logs {
				if c.wantLog(b, g) {
					l = append(l, logMsg(ch.removed, b.ab.AccountAddress, strconv.FormatUint(b.ab.Height, 10), b.ab.Hash, g))
				}
			}
		}
	}
	return
}

// match: got is what the changes from s on say; partly: it may end early
func (c *evClient) match(ev *events, s int, partly bool) (int, string) {
	at := 0
	for _, ch := range ev.changes[s:] {
		want := c.tell(ch)
		if len(want) == 0 {
			continue
		}
		n := len(want)
		if at+n > len(c.got) {
			if !partly {
				return at, fmt.Sprintf("it was not told %v", want[len(c.got)-at:])
			}
			n = len(c.got) - at
		}
		have := append([]string(nil), c.got[at:at+n]...)
		if ch.removed {
			if n < len(want) {
				return len(c.got), ""
			}
			sort.Strings(want)
			sort.Strings(have)
		}
		for i := range have {
			if have[i] != want[i] {
				return at + i, fmt.Sprintf("it was told %s instead of %s", have[i], want[i])
			}
		}
		at += n
	}
	if at < len(c.got) && !partly {
		return at, "it was told " + c.got[at] + ", which did not happen"
	}
	return at, ""
}

func (w *world) judge(ev *events, c *evClient, partly bool) {
	what := fmt.Sprintf("op %d: client %d (%s, push %v)", w.opIdx, c.id, []string{"snapshot blocks", "account blocks", "account blocks of " + c.addr.String(), "unreceived blocks of " + c.addr.String(), "logs"}[c.kind], c.push)
	if c.kind == 3 {
		w.judgeRoad(c, what, partly)
		return
	}
	if !c.settled && !partly {
		return
	}
	from := c.from
	if from > len(ev.changes) || !c.settled {
		from = len(ev.changes)
	}
	best, why := -1, ""
	for s := from; s >= 0; s-- {
		at, y := c.match(ev, s, partly)
		if y == "" {
			return
		}
		if at > best {
			best, why = at, y
		}
	}
	if partly && len(ev.changes) > 0 { // the change going on is not in the list yet
		return
	}
	sim.Fail("event-wrong", "%s installed at change %d of %d: after %d messages %s", what, c.from, len(ev.changes), best, why)
}

func (w *world) judgeRoad(c *evClient, what string, partly bool) {
	st := map[string]string{}
	for i, m := range c.got {
		var k, h string
		fmt.Sscan(m, &k, &h)
		p := st[h]
		if p == k || p == "removed" || p == "received" && k == "removed" {
			sim.Fail("event-wrong", "%s: message %d says %s is %s after %s", what, i, h, k, p)
		}
		st[h] = k
	}
	if partly {
		return
	}
	road := w.m.state().road[c.addr]
	var hs []string
	for h := range st {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		x, err := types.HexToHash(h)
		if err != nil {
			sim.Bug("%v", err)
		}
		if (st[h] == "open") != road[x] {
			sim.Fail("event-wrong", "%s: it was last told %s is %s; unreceived in the ledger: %v", what, h, st[h], road[x])
		}
	}
	// what came since the client was installed
	if !c.settled {
		return
	}
	for i := c.from; i < len(w.ev.changes); i++ {
		ch := w.ev.changes[i]
		if ch.removed {
			continue
		}
		for _, b := range ch.blks {
			var l []*ledger.AccountBlock
			l = append(l, b.sends...)
			for _, s := range l {
				if s.ToAddress == c.addr && st[s.Hash.String()] == "" {
					sim.Fail("event-wrong", "%s: it was never told of %s", what, s.Hash)
				}
			}
			if b.ab.IsReceiveBlock() && b.ab.AccountAddress == c.addr && st[b.ab.FromBlockHash.String()] == "" {
				sim.Fail("event-wrong", "%s: it was never told that %s was received", what, b.ab.FromBlockHash)
			}
		}
	}
}

// checkEvents: nothing goes on; every client catches up, and then knows all
func (w *world) checkEvents() {
	ev := w.ev
	if ev == nil || w.node.IsDead || w.stopped {
		return
	}
	died := w.in(func() {
		for i := 0; i < 4; i++ { // also when the scheduler starves somebody for a while
			time.Sleep(time.Second)
		}
		for _, c := range ev.clients {
			for i := 0; c.busy && i < 40; i++ {
				time.Sleep(500 * time.Millisecond)
			}
			if c.busy && time.Since(c.since) > 10*time.Second {
				sim.Fail("event-stuck", "op %d: client %d waits for an answer about its filter since %v and nothing goes on", w.opIdx, c.id, time.Since(c.since))
			}
			c.lock()
			if c.on && !c.push {
				w.poll(ev, c)
			}
			if c.on {
				w.judge(ev, c, false)
				sim.Count("event_checks", 1)
			}
			if c.on && !c.settled && time.Since(c.last) >= 3*time.Second { // from here on it must know everything
				c.settled, c.got, c.from = true, nil, len(ev.changes)
			}
			c.unlock()
		}
	})
	if died != "" {
		w.recoverNow()
	}
}
