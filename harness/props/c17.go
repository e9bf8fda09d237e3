package props

import (
	"fmt"
	"sort"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
)

const (
	mgConnect = iota
	mgConnectBad
	mgRegister     // upgrade, then Register
	mgRegisterDead // upgrade, close, then Register
	mgRegisterMore // a registered connection under another key
	mgClose
	mgCloseCode
	mgClient
	mgEOF
	mgReset
	mgStall
	mgQuery
	mgKinds
)

// MgOp is one operation on the managers.
type MgOp struct {
	K   int   `json:"k"`
	M   int   `json:"m,omitempty"` // manager
	Key int   `json:"key,omitempty"`
	I   int   `json:"i,omitempty"` // connection, counted among those that exist
	Ex  []int `json:"ex,omitempty"`
	At  int   `json:"at,omitempty"` // ms before the operation
}

type c17Plan struct {
	Hooks   int      `json:"hooks,omitempty"` // 0 none, 1 counting, 2 counting and querying the manager, 3 slow, 4 OnUnregister reconnects nothing but closes again
	Latency int      `json:"latency,omitempty"`
	Seq     []MgOp   `json:"seq,omitempty"`
	Conc    [][]MgOp `json:"conc,omitempty"`
}

func genMgOp(t *rapid.T, keys int) MgOp {
	o := MgOp{K: pick(t, "k", mgConnect, mgConnect, mgConnect, mgConnect, mgConnectBad, mgRegister, mgRegisterDead, mgRegisterMore, mgClose, mgClose, mgCloseCode, mgClient, mgEOF, mgReset, mgStall, mgQuery)}
	o.M = pick(t, "m", 0, 0, 0, 1)
	o.Key = intn(t, "key", 0, keys-1)
	o.I = intn(t, "i", 0, 20)
	if o.K == mgQuery {
		for range pick(t, "nex", 0, 0, 1, 2, 3, 12, 24) {
			o.Ex = append(o.Ex, intn(t, "ex", 0, keys))
		}
	}
	return o
}

func init() {
	core.Register(&core.Prop{
		ID:         "C17",
		RaceShards: 2,
		New:        func() any { return &c17Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c17Plan{Hooks: intn(t, "hooks", 0, 4), Latency: pick(t, "latency", 0, 0, 1, 5)}
			keys := pick(t, "keys", 1, 2, 3, 5)
			for range intn(t, "nseq", 0, 14) {
				p.Seq = append(p.Seq, genMgOp(t, keys))
			}
			if chance(t, "conc", 60) {
				for range intn(t, "nthreads", 2, 5) {
					var l []MgOp
					for range intn(t, "nops", 1, 6) {
						o := genMgOp(t, keys)
						o.At = pick(t, "at", 0, 0, 0, 1, 2, 6)
						l = append(l, o)
					}
					p.Conc = append(p.Conc, l)
				}
			}
			return p
		},
		Run:      c17Run,
		Quick:    60000,
		Thorough: 500000,
		Rule:     "a sequential history of 0-14 operations (connects, refused connects, registrations of open, closed and already registered connections, closes by server and client, transport ends, stalled peers, queries with exclusions) on two managers with 1-5 keys, compared with a model after every operation, then 0-5 concurrent threads of such operations, with invariants at quiescence; hooks count, call back, block or close; non-trivial: a key was used again, or concurrent threads",
	})
}

type mgConn struct {
	id   int
	mc   *mem.Conn
	w    *snapws.ManagedConn[int]
	regs []mgReg
	ends bool // somebody asked for its end
}

type mgReg struct {
	m, key     int
	start, end int64 // of the registering call, in a global order
}

func c17Run(c *core.Case, plan any) {
	p := plan.(*c17Plan)
	ms := time.Millisecond
	opts := &snapws.Options{WriteWait: 100 * ms, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour}
	u := snapws.NewUpgrader(opts)
	var mu sync.Mutex
	var clock int64
	tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	type hk struct {
		m int
		w *snapws.ManagedConn[int]
	}
	regs, unregs := map[hk]int{}, map[hk]int{}
	var mgrs [2]*snapws.Manager[int]
	for i := range mgrs {
		m := snapws.NewManager[int](u)
		mgrs[i] = m
		if p.Hooks == 0 {
			continue
		}
		m.OnRegister = func(k *snapws.ManagedConn[int]) {
			mu.Lock()
			regs[hk{i, k}]++
			mu.Unlock()
			switch p.Hooks {
			case 2:
				m.Get(k.Key)
				m.GetAllConns(k.Key)
			case 3:
				time.Sleep(3 * ms)
			}
		}
		m.OnUnregister = func(k *snapws.ManagedConn[int]) {
			mu.Lock()
			unregs[hk{i, k}]++
			mu.Unlock()
			switch p.Hooks {
			case 2:
				m.Get(k.Key)
				m.GetAllConnsAsConn()
			case 3:
				time.Sleep(3 * ms)
			case 4:
				k.Close()
			}
		}
	}
	var conns []*mgConn
	add := func(k *mgConn) { mu.Lock(); k.id = len(conns); conns = append(conns, k); mu.Unlock() }
	nth := func(i int) *mgConn {
		mu.Lock()
		defer mu.Unlock()
		if len(conns) == 0 {
			return nil
		}
		return conns[i%len(conns)]
	}
	byConn := func(w *snapws.ManagedConn[int]) *mgConn {
		mu.Lock()
		defer mu.Unlock()
		for _, k := range conns {
			if k.w == w {
				return k
			}
		}
		return nil
	}
	reg := func(k *mgConn, m, key int, start int64) {
		e := tick()
		mu.Lock()
		k.regs = append(k.regs, mgReg{m, key, start, e})
		mu.Unlock()
	}
	newMC := func() *mem.Conn {
		mc := mem.New("c")
		mc.Latency = time.Duration(p.Latency) * ms
		c.Cleanup(mc.Kill)
		return mc
	}
	reader := func(k *mgConn) {
		c.Cleanup(func() { k.w.Close() })
		drain(c, fmt.Sprint("connection ", k.id), k.w.Conn)
	}
	do := func(o MgOp) *mgConn {
		switch o.K {
		case mgConnect:
			mc := newMC()
			s := tick()
			w, err := mgrs[o.M].Connect(o.Key, newRW(mc, OpenOpts{}), goodReq())
			if err != nil || w == nil {
				c.Violate("connect", "Connect failed: %v", err)
				return nil
			}
			if w.Key != o.Key || w.Manager != mgrs[o.M] {
				c.Violate("identity", "Connect(%d) returned a connection with key %v", o.Key, w.Key)
			}
			k := &mgConn{mc: mc, w: w}
			reg(k, o.M, o.Key, s)
			add(k)
			reader(k)
			return k
		case mgConnectBad:
			req := goodReq()
			req.Header.Del("Upgrade")
			if w, err := mgrs[o.M].Connect(o.Key, newRW(newMC(), OpenOpts{}), req); err == nil || w != nil {
				c.Violate("connect", "Connect of an invalid request returned %v, %v", w, err)
			}
		case mgRegister, mgRegisterDead:
			mc := newMC()
			conn, err := u.Upgrade(newRW(mc, OpenOpts{}), goodReq())
			if err != nil {
				c.Violate("connect", "Upgrade failed: %v", err)
				return nil
			}
			k := &mgConn{mc: mc, w: &snapws.ManagedConn[int]{Conn: conn, Key: o.Key, Manager: mgrs[o.M]}}
			if o.K == mgRegisterDead {
				conn.Close()
				k.ends = true
			}
			s := tick()
			mgrs[o.M].Register(o.Key, k.w)
			reg(k, o.M, o.Key, s)
			add(k)
			reader(k)
			return k
		case mgRegisterMore:
			k := nth(o.I)
			if k == nil {
				return nil
			}
			s := tick()
			mgrs[o.M].Register(o.Key, k.w)
			reg(k, o.M, o.Key, s)
			return k
		case mgStall:
			if k := nth(o.I); k != nil {
				k.mc.SetCredit(0)
			}
		case mgQuery:
			l := mgrs[o.M].GetAllConns(o.Ex...)
			for _, w := range l {
				if w == nil || byConn(w) == nil && len(p.Conc) == 0 {
					c.Violate("query", "GetAllConns lists an unknown connection")
				}
			}
			mgrs[o.M].Get(o.Key)
			mgrs[o.M].GetAllConnsAsConn(o.Ex...)
		default:
			k := nth(o.I)
			if k == nil {
				return nil
			}
			mu.Lock()
			k.ends = true
			mu.Unlock()
			switch o.K {
			case mgClose:
				k.w.Close()
			case mgCloseCode:
				k.w.CloseWithCode(1008, "go")
			case mgClient:
				k.mc.Feed(closeFrame(1000, ""))
			case mgEOF:
				k.mc.FeedEOF()
			case mgReset:
				k.mc.Kill()
			}
			return k
		}
		return nil
	}
	// sequential part, against the model
	held := [2]map[int]*mgConn{{}, {}}
	drop := func(k *mgConn) {
		k.ends = true
		for m := range held {
			for key, x := range held[m] {
				if x == k {
					delete(held[m], key)
				}
			}
		}
	}
	compare := func(where string) {
		for m := range mgrs {
			var want, got []int
			for key := 0; key < 6; key++ {
				g := mgrs[m].Get(key)
				k := held[m][key]
				switch {
				case g == nil && k != nil:
					c.Violate("missing", "%s: manager %d has no connection for key %d, want connection %d", where, m, key, k.id)
				case g != nil && (k == nil || g != k.w):
					id := -1
					if x := byConn(g); x != nil {
						id = x.id
					}
					w := "none"
					if k != nil {
						w = fmt.Sprint("connection ", k.id)
					}
					c.Violate("wrong", "%s: manager %d holds connection %d for key %d, want %s", where, m, id, key, w)
				}
				if k != nil {
					want = append(want, k.id)
				}
			}
			for _, w := range mgrs[m].GetAllConns() {
				if x := byConn(w); x != nil {
					got = append(got, x.id)
				} else {
					got = append(got, -1)
				}
			}
			sort.Ints(want)
			sort.Ints(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				c.Violate("listing", "%s: manager %d lists connections %v, want %v", where, m, got, want)
			}
		}
		for _, k := range conns {
			if k.mc.LibClosed() != k.ends {
				c.Violate("open", "%s: connection %d closed: %v, want %v", where, k.id, k.mc.LibClosed(), k.ends)
			}
		}
	}
	for i, o := range p.Seq {
		where := fmt.Sprintf("after operation %d (%d)", i, o.K)
		if o.K == mgRegisterMore {
			// under a manager that already lists it with another connection's key
			if k := nth(o.I); k == nil || held[o.M][o.Key] == k {
				continue
			}
		}
		if held[o.M][o.Key] != nil && (o.K == mgConnect || o.K == mgRegister || o.K == mgRegisterDead || o.K == mgRegisterMore) {
			c.NonTrivial()
			c.Class("key-reused")
		}
		var k *mgConn
		if !c.Must("hang", fmt.Sprintf("operation %d (%d)", i, o.K), time.Minute, func() { k = do(o) }) || c.Failed() {
			return
		}
		time.Sleep(time.Second)
		switch o.K {
		case mgConnect, mgRegister, mgRegisterDead, mgRegisterMore:
			if k == nil {
				break
			}
			if old := held[o.M][o.Key]; old != nil && old != k {
				drop(old)
			}
			if !k.ends {
				held[o.M][o.Key] = k
			}
			c.ClassIf(o.K != mgConnect, fmt.Sprint("register-", o.K))
		case mgClose, mgCloseCode, mgClient, mgEOF, mgReset:
			if k != nil {
				drop(k)
			}
		case mgQuery:
			var want, got []int
			for key, k := range held[o.M] {
				out := false
				for _, e := range o.Ex {
					out = out || e == key
				}
				if !out {
					want = append(want, k.id)
				}
			}
			var plain []*snapws.Conn
			for _, w := range mgrs[o.M].GetAllConns(o.Ex...) {
				if x := byConn(w); x != nil {
					got = append(got, x.id)
				}
			}
			plain = mgrs[o.M].GetAllConnsAsConn(o.Ex...)
			sort.Ints(want)
			sort.Ints(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				c.Violate("exclude", "GetAllConns(%v) is %v, want %v", o.Ex, got, want)
			}
			for _, x := range plain {
				ok := false
				for _, k := range held[o.M] {
					ok = ok || k.w.Conn == x
				}
				if !ok {
					c.Violate("exclude", "GetAllConnsAsConn(%v) lists another connection", o.Ex)
				}
			}
			if len(plain) != len(want) {
				c.Violate("exclude", "GetAllConnsAsConn(%v) lists %d connections, want %d", o.Ex, len(plain), len(want))
			}
		}
		compare(where)
		if c.Failed() {
			return
		}
	}
	// concurrent part
	var ops []*core.Op
	for i, l := range p.Conc {
		ops = append(ops, c.Go(fmt.Sprint("thread ", i), func() {
			for _, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				if o.K == mgRegisterMore {
					continue // ends of one registration overlapping the next: not defined
				}
				do(o)
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(10 * time.Minute) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(10 * time.Second)
	if len(p.Conc) > 0 {
		c.NonTrivial()
		c.Class("concurrent")
	}
	// invariants at quiescence
	mu.Lock()
	defer mu.Unlock()
	for m := range mgrs {
		listed := map[*snapws.ManagedConn[int]]bool{}
		for _, w := range mgrs[m].GetAllConns() {
			listed[w] = true
		}
		total := 0
		for key := 0; key < 6; key++ {
			w := mgrs[m].Get(key)
			if w == nil {
				continue
			}
			total++
			var k *mgConn
			for _, x := range conns {
				if x.w == w {
					k = x
				}
			}
			if k == nil || !listed[w] {
				c.Violate("listing", "manager %d: key %d has a connection that is not listed", m, key)
				continue
			}
			if k.mc.LibClosed() {
				c.Violate("closed-member", "manager %d still holds the closed connection %d for key %d", m, k.id, key)
			}
			var mine *mgReg
			for i := range k.regs {
				if k.regs[i].m == m && k.regs[i].key == key {
					mine = &k.regs[i]
				}
			}
			if mine == nil {
				c.Violate("wrong", "manager %d holds connection %d for key %d, under which it was not registered", m, k.id, key)
				continue
			}
			for _, x := range conns {
				for _, r := range x.regs {
					if x != k && r.m == m && r.key == key && r.start > mine.end {
						c.Violate("stale", "manager %d holds connection %d for key %d although connection %d was registered later", m, k.id, key, x.id)
					}
				}
			}
		}
		if len(p.Seq) == 0 && total > len(listed) {
			c.Violate("listing", "manager %d: %d keys have connections, %d are listed", m, total, len(listed))
		}
		for _, k := range conns {
			in := 0
			for _, r := range k.regs {
				if r.m == m {
					in++
				}
			}
			if in == 0 {
				continue
			}
			open := !k.mc.LibClosed()
			if open && !listed[k.w] {
				c.Violate("forgotten", "connection %d is open and registered, but manager %d does not hold it", k.id, m)
			}
			if p.Hooks > 0 {
				r, un := regs[hk{m, k.w}], unregs[hk{m, k.w}]
				if r != in {
					c.Violate("on-register", "OnRegister of manager %d ran %d times for connection %d, registered %d times", m, r, k.id, in)
				}
				if open && in == 1 && un != 0 {
					c.Violate("on-unregister", "OnUnregister of manager %d ran %d times for the open connection %d", m, un, k.id)
				}
				if !open && (un < 1 || un > in) {
					c.Violate("on-unregister", "OnUnregister of manager %d ran %d times for the closed connection %d, registered %d times", m, un, k.id, in)
				}
			}
			if !open && k.regs != nil && !k.ends && len(k.regs) == 1 {
				// nobody asked for it: it must have been replaced
				r0, replaced := k.regs[0], false
				for _, x := range conns {
					for _, r := range x.regs {
						replaced = replaced || x != k && r.m == r0.m && r.key == r0.key && r.end > r0.start
					}
				}
				if !replaced {
					c.Violate("closed", "connection %d was closed although nothing replaced it", k.id)
				}
			}
		}
		for k, n := range regs {
			known := false
			for _, x := range conns {
				known = known || x.w == k.w
			}
			if !known {
				c.Violate("on-register", "OnRegister ran %d times for an unknown connection", n)
			}
		}
	}
}
