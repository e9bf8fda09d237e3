package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
)

const (
	rmConnect = iota
	rmConnectBad
	rmUpgrade // a connection in no room
	rmNewRoom
	rmAdd
	rmRemove
	rmMove
	rmRemoveAll
	rmCloseRoom
	rmCloseConn
	rmClientConn
	rmEOFConn
	rmResetConn
	rmStallConn
	rmQuery
	rmKinds
)

// RmOp is one operation on rooms.
type RmOp struct {
	K    int   `json:"k"`
	Room int   `json:"r,omitempty"`
	To   int   `json:"to,omitempty"`
	I    int   `json:"i,omitempty"`
	Args int   `json:"args,omitempty"` // number of arguments
	Ex   []int `json:"ex,omitempty"`
	At   int   `json:"at,omitempty"`
}

type c18Plan struct {
	Join    int      `json:"join,omitempty"`  // 0 none, 1 default hook, 2 set on the room
	Leave   int      `json:"leave,omitempty"` //
	Act     int      `json:"act,omitempty"`   // what the hooks do: 1 query, 2 broadcast, 3 slow, 4 OnLeave closes the connection
	Latency int      `json:"latency,omitempty"`
	Seq     []RmOp   `json:"seq,omitempty"`
	Conc    [][]RmOp `json:"conc,omitempty"`
	Storm   []int    `json:"storm,omitempty"` // instead: so many connections, what each thread does to all of them at once
}

// c18Storm: several threads do the same to the same connections at the same instant.
func c18Storm(c *core.Case, p *c18Plan) {
	u := snapws.NewUpgrader(&snapws.Options{PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour})
	rm := snapws.NewRoomManager[string](u)
	var mu sync.Mutex
	n := map[*snapws.Room[string]]map[*snapws.Conn][2]int{}
	count := func(d int) func(*snapws.Room[string], *snapws.Conn, ...any) {
		return func(r *snapws.Room[string], k *snapws.Conn, _ ...any) {
			mu.Lock()
			defer mu.Unlock()
			if n[r] == nil {
				n[r] = map[*snapws.Conn][2]int{}
			}
			x := n[r][k]
			x[d]++
			n[r][k] = x
		}
	}
	rm.DefaultOnJoin, rm.DefaultOnLeave = count(0), count(1)
	var conns []*snapws.Conn
	for i := range p.Storm[0] {
		mc := mem.New(fmt.Sprint("connection ", i))
		conn := open(c, u, mc, OpenOpts{})
		if conn == nil {
			return
		}
		conns = append(conns, conn)
	}
	a := rm.Add("a")
	rooms := map[*snapws.Room[string]]bool{a: true, rm.Add("b"): true}
	phase := func(f func(th int, k *snapws.Conn)) bool {
		start := make(chan struct{})
		var ops []*core.Op
		for th := range p.Storm[1:] {
			ops = append(ops, c.Go(fmt.Sprint("thread ", th), func() {
				<-start
				for _, k := range conns {
					f(th, k)
				}
			}))
		}
		time.Sleep(time.Millisecond)
		close(start)
		for _, o := range ops {
			if !o.Wait(time.Hour) {
				c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
				return false
			}
		}
		return true
	}
	judge := func(what string) {
		mu.Lock()
		defer mu.Unlock()
		for r := range rooms {
			in := map[*snapws.Conn]bool{}
			for _, k := range r.GetAllConns() {
				in[k] = true
			}
			for i, k := range conns {
				x := n[r][k]
				if d := x[0] - x[1]; d != 0 && d != 1 || (d == 1) != in[k] || r == a && x[0] != 1 {
					c.Violate("hook-balance", "after %s: connection %d: OnJoin of room %s ran %d times, OnLeave %d times, member: %v", what, i, r.Key, x[0], x[1], in[k])
					return
				}
			}
		}
	}
	if !phase(func(th int, k *snapws.Conn) { a.Add(k) }) {
		return
	}
	judge("everybody joined at once")
	if c.Failed() {
		return
	}
	if !phase(func(th int, k *snapws.Conn) {
		switch p.Storm[1+th] {
		case 0:
			a.Remove(k)
		case 1:
			a.Move(k, "b")
		case 2:
			k.Close()
		case 3:
			a.RemoveAll()
		case 4:
			r := rm.Add("c" + fmt.Sprint(len(rm.GetRoomKeys())%2))
			mu.Lock()
			rooms[r] = true
			mu.Unlock()
			r.Add(k)
		}
	}) {
		return
	}
	judge("everybody left at once")
	c.Class("storm")
}

func genRmOp(t *rapid.T, rooms int) RmOp {
	o := RmOp{K: pick(t, "k", rmConnect, rmConnect, rmConnectBad, rmUpgrade, rmUpgrade, rmNewRoom, rmAdd, rmAdd, rmAdd, rmAdd, rmRemove, rmRemove, rmMove, rmMove, rmRemoveAll, rmCloseRoom,
		rmCloseConn, rmClientConn, rmEOFConn, rmResetConn, rmStallConn, rmQuery, rmQuery)}
	o.Room, o.To = intn(t, "room", 0, rooms-1), intn(t, "to", 0, rooms) // rooms: one that never exists
	o.I = intn(t, "i", 0, 12)
	o.Args = intn(t, "args", 0, 2)
	if o.K == rmQuery {
		for range pick(t, "nex", 0, 0, 1, 2, 3, 12, 24) {
			o.Ex = append(o.Ex, intn(t, "ex", 0, 12))
		}
	}
	return o
}

func init() {
	core.Register(&core.Prop{
		ID:         "C18",
		RaceShards: 2,
		New:        func() any { return &c18Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c18Plan{Join: pick(t, "join", 0, 1, 1, 2), Leave: pick(t, "leave", 0, 1, 1, 2), Act: intn(t, "act", 0, 4), Latency: pick(t, "latency", 0, 0, 1, 5)}
			if chance(t, "storm", 4) {
				p.Storm = []int{pick(t, "nstorm", 5, 20, 60)}
				for range intn(t, "nst", 2, 4) {
					p.Storm = append(p.Storm, pick(t, "what", 0, 0, 1, 2, 2, 3, 4))
				}
				return p
			}
			rooms := pick(t, "rooms", 1, 2, 3)
			for range intn(t, "nseq", 0, 16) {
				p.Seq = append(p.Seq, genRmOp(t, rooms))
			}
			if chance(t, "conc", 60) {
				for range intn(t, "nthreads", 2, 5) {
					var l []RmOp
					for range intn(t, "nops", 1, 6) {
						o := genRmOp(t, rooms)
						o.At = pick(t, "at", 0, 0, 0, 1, 2, 6)
						l = append(l, o)
					}
					p.Conc = append(p.Conc, l)
				}
			}
			return p
		},
		Run:      c18Run,
		Quick:    60000,
		Thorough: 500000,
		Rule:     "a sequential history of 0-16 operations (connects, upgrades, joins with arguments, leaves, moves, removals of all, closing of rooms and of connections by either side, queries) on up to 3 rooms, with every membership, room lookup and hook call compared with a model after each operation, then 0-5 concurrent threads of such operations with interval and balance invariants at quiescence; or 2-4 threads that join, remove, move and close the same 5-60 connections at the same instant; non-trivial: a connection joined a room and left it, or concurrent threads",
	})
}

type rmConn struct {
	id   int
	mc   *mem.Conn
	conn *snapws.Conn
	dead bool // in the model
}

type rmEvent struct {
	join bool
	room *snapws.Room[string]
	conn *snapws.Conn
	args string
}

// rmDone is one finished operation that may change the membership of (room, conn).
type rmDone struct {
	room       *snapws.Room[string]
	conn       *rmConn // nil: all of the room
	add, sure  bool
	start, end int64
	key        string // with room nil: any room of that key
}

func (c18Plan) name(r int) string { return keyName("room", r) }

func c18Run(c *core.Case, plan any) {
	p := plan.(*c18Plan)
	if len(p.Storm) > 1 {
		c18Storm(c, p)
		return
	}
	ms := time.Millisecond
	opts := &snapws.Options{WriteWait: 100 * ms, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour}
	u := snapws.NewUpgrader(opts)
	rm := snapws.NewRoomManager[string](u)
	var mu sync.Mutex
	var clock int64
	tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	var events []rmEvent
	argStr := func(args []any) string {
		var s []string
		for i := range args {
			v, ok := snapws.GetArg[string](args, i)
			if !ok {
				return "not a string"
			}
			s = append(s, v)
		}
		if _, ok := snapws.GetArg[int](args, 0); ok {
			return "GetArg of another type succeeded"
		}
		if v, ok := snapws.GetArg[string](args, len(args)); ok || v != "" {
			return "GetArg beyond the end succeeded"
		}
		return strings.Join(s, ",")
	}
	joinHook := func(r *snapws.Room[string], k *snapws.Conn, args ...any) {
		mu.Lock()
		events = append(events, rmEvent{true, r, k, argStr(args)})
		mu.Unlock()
		switch p.Act {
		case 1:
			r.GetAllConns(k)
			rm.GetRoomKeys()
		case 2:
			r.BroadcastString(bg, []byte("joined"), k)
		case 3:
			time.Sleep(2 * ms)
		}
	}
	leaveHook := func(r *snapws.Room[string], k *snapws.Conn, args ...any) {
		mu.Lock()
		events = append(events, rmEvent{false, r, k, argStr(args)})
		mu.Unlock()
		switch p.Act {
		case 1:
			r.GetAllConns(k)
			rm.Get(r.Key)
		case 2:
			r.BroadcastString(bg, []byte("left"))
		case 3:
			time.Sleep(2 * ms)
		case 4:
			k.Close()
		}
	}
	if p.Join == 1 {
		rm.DefaultOnJoin = joinHook
	}
	if p.Leave == 1 {
		rm.DefaultOnLeave = leaveHook
	}
	// rooms get their hooks when they are created, before anybody can join
	prep := func(r *snapws.Room[string]) {
		if p.Join == 2 && r.OnJoin == nil {
			r.OnJoin = joinHook
		}
		if p.Leave == 2 && r.OnLeave == nil {
			r.OnLeave = leaveHook
		}
	}
	lateHooks := p.Join == 2 || p.Leave == 2
	var conns []*rmConn
	add := func(k *rmConn) {
		mu.Lock()
		k.id = len(conns)
		conns = append(conns, k)
		mu.Unlock()
		c.Cleanup(func() { k.conn.Close() })
		drain(c, fmt.Sprint("connection ", k.id), k.conn)
	}
	nth := func(i int) *rmConn {
		mu.Lock()
		defer mu.Unlock()
		if len(conns) == 0 {
			return nil
		}
		return conns[i%len(conns)]
	}
	newMC := func() *mem.Conn {
		mc := mem.New("c")
		mc.Latency = time.Duration(p.Latency) * ms
		c.Cleanup(mc.Kill)
		return mc
	}
	mkArgs := func(o RmOp) ([]any, string) {
		var a []any
		var s []string
		for i := range o.Args {
			v := fmt.Sprintf("a%d-%d-%d", o.Room, o.I, i)
			a, s = append(a, v), append(s, v)
		}
		return a, strings.Join(s, ",")
	}
	var done []rmDone
	note := func(d rmDone) {
		d.end = tick()
		mu.Lock()
		done = append(done, d)
		mu.Unlock()
	}
	type seenRoom struct {
		r      *snapws.Room[string]
		closes bool // somebody closes it
		end    int64
	}
	var seen []*seenRoom
	saw := func(r *snapws.Room[string], closes bool) {
		e := tick()
		mu.Lock()
		defer mu.Unlock()
		for _, s := range seen {
			if s.r == r {
				s.closes = s.closes || closes
				return
			}
		}
		seen = append(seen, &seenRoom{r, closes, e})
	}
	// do performs o; it returns what it worked on
	do := func(o RmOp) (*rmConn, *snapws.Room[string]) {
		name := p.name(o.Room)
		s := tick()
		switch o.K {
		case rmConnect:
			mc := newMC()
			a, _ := mkArgs(o)
			conn, r, err := rm.Connect(newRW(mc, OpenOpts{}), goodReq(), name, a...)
			if err != nil || conn == nil || r == nil || r.Key != name {
				c.Violate("connect", "Connect failed: %v", err)
				return nil, nil
			}
			k := &rmConn{mc: mc, conn: conn}
			saw(r, false)
			note(rmDone{room: r, conn: k, add: true, sure: true, start: s})
			add(k)
			return k, r
		case rmConnectBad:
			req := goodReq()
			req.Header.Del("Upgrade")
			if k, r, err := rm.Connect(newRW(newMC(), OpenOpts{}), req, name); err == nil || k != nil || r != nil {
				c.Violate("connect", "Connect of an invalid request returned %v, %v, %v", k, r, err)
			}
		case rmUpgrade:
			mc := newMC()
			conn, err := u.Upgrade(newRW(mc, OpenOpts{}), goodReq())
			if err != nil {
				c.Violate("connect", "Upgrade failed: %v", err)
				return nil, nil
			}
			k := &rmConn{mc: mc, conn: conn}
			add(k)
			return k, nil
		case rmNewRoom:
			r := rm.Add(name)
			if r == nil || r.Key != name {
				c.Violate("room", "Add(%s) returned %v", name, r)
				return nil, nil
			}
			saw(r, false)
			return nil, r
		case rmAdd, rmRemove, rmMove, rmRemoveAll, rmCloseRoom:
			k := nth(o.I)
			if k == nil {
				return nil, nil
			}
			r := rm.Get(name)
			if r == nil {
				return nil, nil
			}
			a, _ := mkArgs(o)
			switch o.K {
			case rmAdd:
				r.Add(k.conn, a...)
				note(rmDone{room: r, conn: k, add: true, sure: true, start: s})
			case rmRemove:
				r.Remove(k.conn, a...)
				note(rmDone{room: r, conn: k, sure: true, start: s})
			case rmMove:
				r.Move(k.conn, p.name(o.To))
				note(rmDone{room: r, conn: k, sure: o.To != o.Room, start: s})
				note(rmDone{key: p.name(o.To), conn: k, add: true, start: s})
			case rmRemoveAll:
				r.RemoveAll()
				note(rmDone{room: r, sure: true, start: s})
			case rmCloseRoom:
				saw(r, true)
				r.Close()
				note(rmDone{room: r, sure: true, start: s})
			}
			return k, r
		case rmQuery:
			k := nth(o.I)
			if r := rm.Get(name); r != nil {
				var ex []*snapws.Conn
				for _, i := range o.Ex {
					if x := nth(i); x != nil {
						ex = append(ex, x.conn)
					}
				}
				r.GetAllConns(ex...)
			}
			rm.GetRoomKeys()
			return k, nil
		default:
			k := nth(o.I)
			if k == nil {
				return nil, nil
			}
			switch o.K {
			case rmCloseConn:
				k.conn.Close()
			case rmClientConn:
				k.mc.Feed(closeFrame(1000, ""))
			case rmEOFConn:
				k.mc.FeedEOF()
			case rmResetConn:
				k.mc.Kill()
			case rmStallConn:
				if p.Act != 2 { // a broadcast of a hook would time out and close it
					k.mc.SetCredit(0)
				}
			}
			return k, nil
		}
		return nil, nil
	}
	// ---- sequential part against the model
	type mroom struct {
		r       *snapws.Room[string]
		members map[*rmConn]string // arguments of the join
	}
	rooms := map[string]*mroom{}
	var want []string // expected hook calls of the operation
	idOf := func(k *snapws.Conn) int {
		for _, x := range conns {
			if x.conn == k {
				return x.id
			}
		}
		return -1
	}
	var left, joined bool
	var kill func(k *rmConn)
	join := func(m *mroom, k *rmConn, args string) {
		if _, ok := m.members[k]; ok {
			return
		}
		joined = true
		if p.Join > 0 {
			want = append(want, fmt.Sprintf("join %s %d (%s)", m.r.Key, k.id, args))
		}
		m.members[k] = args
		if k.dead { // leaves at once
			delete(m.members, k)
			if p.Leave > 0 {
				want = append(want, fmt.Sprintf("leave %s %d (%s)", m.r.Key, k.id, args))
			}
		}
	}
	leave := func(m *mroom, k *rmConn, args string) {
		if _, ok := m.members[k]; !ok {
			return
		}
		left = true
		delete(m.members, k)
		if p.Leave > 0 {
			want = append(want, fmt.Sprintf("leave %s %d (%s)", m.r.Key, k.id, args))
			if p.Act == 4 {
				kill(k)
			}
		}
	}
	kill = func(k *rmConn) {
		if k.dead {
			return
		}
		k.dead = true
		for _, m := range rooms {
			if a, ok := m.members[k]; ok {
				leave(m, k, a)
			}
		}
	}
	for i, o := range p.Seq {
		name := p.name(o.Room)
		m := rooms[name]
		k := nth(o.I)
		if o.K == rmMove {
			// a move of a connection that is not a member, or to the same room, is not defined
			if m == nil || k == nil || o.To == o.Room {
				continue
			}
			if _, ok := m.members[k]; !ok {
				continue
			}
		}
		if lateHooks && o.K == rmConnect && m == nil {
			o.K = rmNewRoom // the room needs its hooks first
		}
		mu.Lock()
		events = nil
		mu.Unlock()
		want = nil
		var rk *rmConn
		var rr *snapws.Room[string]
		if !c.Must("hang", fmt.Sprintf("operation %d (%d)", i, o.K), time.Minute, func() { rk, rr = do(o) }) || c.Failed() {
			return
		}
		if o.K == rmNewRoom {
			prep(rr)
		}
		time.Sleep(time.Second)
		_, args := mkArgs(o)
		switch o.K {
		case rmConnect, rmNewRoom:
			if m == nil {
				m = &mroom{r: rr, members: map[*rmConn]string{}}
				for _, s := range rooms {
					if s.r == rr {
						c.Violate("room", "two keys share a room")
					}
				}
				rooms[name] = m
			} else if m.r != rr {
				c.Violate("room", "operation %d: key %s got a second room", i, name)
				return
			}
			if o.K == rmConnect {
				join(m, rk, args)
			}
		case rmAdd:
			if m != nil && k != nil {
				join(m, k, args)
			}
		case rmRemove:
			if m != nil && k != nil {
				leave(m, k, args)
			}
		case rmMove:
			leave(m, k, "")
			if to := rooms[p.name(o.To)]; to != nil {
				join(to, k, "")
			}
		case rmRemoveAll, rmCloseRoom:
			if m != nil && k != nil {
				if o.K == rmCloseRoom {
					delete(rooms, name)
				}
				var ks []*rmConn
				for x := range m.members {
					ks = append(ks, x)
				}
				// all leave this room before the first hook runs
				for _, x := range ks {
					delete(m.members, x)
				}
				for _, x := range ks {
					m.members[x] = ""
					leave(m, x, "")
				}
			}
		case rmCloseConn, rmClientConn, rmEOFConn, rmResetConn:
			if k != nil {
				kill(k)
			}
		case rmQuery:
			if m != nil && k != nil {
				var ex []*snapws.Conn
				out := map[int]bool{}
				for _, x := range o.Ex {
					if x := nth(x); x != nil {
						ex = append(ex, x.conn)
						out[x.id] = true
					}
				}
				var w, g []int
				for x := range m.members {
					if !out[x.id] {
						w = append(w, x.id)
					}
				}
				for _, x := range m.r.GetAllConns(ex...) {
					g = append(g, idOf(x))
				}
				sort.Ints(w)
				sort.Ints(g)
				if fmt.Sprint(w) != fmt.Sprint(g) {
					c.Violate("exclude", "GetAllConns excluding %v is %v, want %v", o.Ex, g, w)
				}
			}
		}
		// memberships
		var keys []string
		for n, m := range rooms {
			keys = append(keys, n)
			var w, g []int
			for x := range m.members {
				w = append(w, x.id)
			}
			for _, x := range m.r.GetAllConns() {
				g = append(g, idOf(x))
			}
			sort.Ints(w)
			sort.Ints(g)
			if fmt.Sprint(w) != fmt.Sprint(g) {
				c.Violate("membership", "after operation %d (%d): %s has members %v, want %v", i, o.K, n, g, w)
			}
			if rm.Get(n) != m.r {
				c.Violate("room", "after operation %d (%d): Get(%s) is not the room created under that key", i, o.K, n)
			}
		}
		got := rm.GetRoomKeys()
		sort.Strings(got)
		sort.Strings(keys)
		if strings.Join(got, " ") != strings.Join(keys, " ") {
			c.Violate("room-keys", "after operation %d (%d): room keys are %v, want %v", i, o.K, got, keys)
		}
		for r := range 5 {
			if rooms[p.name(r)] == nil && rm.Get(p.name(r)) != nil {
				c.Violate("room", "after operation %d (%d): Get(%s) finds a room that does not exist", i, o.K, p.name(r))
			}
		}
		// hooks
		var ev []string
		mu.Lock()
		for _, e := range events {
			w := "leave"
			if e.join {
				w = "join"
			}
			a := e.args
			if !e.join && (o.K == rmMove || o.K == rmRemoveAll || o.K == rmCloseRoom) && e.room == m.r || e.join && o.K == rmMove {
				a = "" // not specified
			}
			ev = append(ev, fmt.Sprintf("%s %s %d (%s)", w, e.room.Key, idOf(e.conn), a))
		}
		mu.Unlock()
		sort.Strings(ev)
		sort.Strings(want)
		if strings.Join(ev, "; ") != strings.Join(want, "; ") {
			c.Violate("hooks", "operation %d (kind %d, room %d, connection %d): hook calls [%s], want [%s]", i, o.K, o.Room, o.I, strings.Join(ev, "; "), strings.Join(want, "; "))
		}
		for _, k := range conns {
			if k.mc.LibClosed() != k.dead {
				c.Violate("open", "after operation %d: connection %d closed: %v, want %v", i, k.id, k.mc.LibClosed(), k.dead)
			}
		}
		if c.Failed() {
			return
		}
	}
	if left && joined {
		c.NonTrivial()
		c.Class("left")
	}
	// ---- concurrent part
	if len(p.Conc) == 0 {
		return
	}
	mu.Lock()
	events = nil
	mu.Unlock()
	base := map[string]bool{} // members before
	for _, m := range rooms {
		for k := range m.members {
			base[fmt.Sprintf("%p/%d", m.r, k.id)] = true
		}
	}
	var ops []*core.Op
	for i, l := range p.Conc {
		ops = append(ops, c.Go(fmt.Sprint("thread ", i), func() {
			for _, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				if lateHooks && (o.K == rmNewRoom || o.K == rmConnect || o.K == rmCloseRoom) {
					continue // the hooks of a new room would be set while it is in use
				}
				do(o)
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(10 * time.Minute) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(10 * time.Second)
	c.NonTrivial()
	c.Class("concurrent")
	mu.Lock()
	defer mu.Unlock()
	for _, s := range seen {
		in := map[*snapws.Conn]bool{}
		for _, k := range s.r.GetAllConns() {
			if in[k] {
				c.Violate("membership", "%s lists a connection twice", s.r.Key)
			}
			in[k] = true
		}
		for _, k := range conns {
			closed := k.mc.LibClosed()
			if closed && in[k.conn] {
				c.Violate("closed-member", "%s still has the closed connection %d", s.r.Key, k.id)
			}
			joins, leaves := 0, 0
			for _, e := range events {
				if e.room == s.r && e.conn == k.conn {
					if e.join {
						joins++
					} else {
						leaves++
					}
				}
			}
			if base[fmt.Sprintf("%p/%d", s.r, k.id)] {
				joins++
			}
			n := 0
			if in[k.conn] {
				n = 1
			}
			if p.Join > 0 && p.Leave > 0 && joins-leaves != n {
				c.Violate("hook-balance", "%s and connection %d (closed: %v): %d joins and %d leaves were reported, member: %v", s.r.Key, k.id, closed, joins, leaves, in[k.conn])
			}
			// the last operation, if it is clear which
			var last *rmDone
			for i := range done {
				d := &done[i]
				if d.conn != nil && d.conn != k || d.room != nil && d.room != s.r || d.room == nil && d.key != s.r.Key {
					continue
				}
				if last == nil || d.start > last.start {
					last = d
				}
			}
			if last == nil {
				continue
			}
			clear := last.sure
			for i := range done {
				d := &done[i]
				if d == last || d.conn != nil && d.conn != k || d.room != nil && d.room != s.r || d.room == nil && d.key != s.r.Key {
					continue
				}
				clear = clear && d.end < last.start
			}
			if p.Act == 4 && p.Leave > 0 {
				continue // connections close at any time
			}
			if clear && !closed && in[k.conn] != last.add {
				c.Violate("membership", "connection %d (open) is a member of %s: %v, but the last operation was an addition: %v", k.id, s.r.Key, in[k.conn], last.add)
			}
		}
		if !s.closes && rm.Get(s.r.Key) != s.r {
			c.Violate("room", "Get(%s) does not find the room, which was never closed", s.r.Key)
		}
	}
}
