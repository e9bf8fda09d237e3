package props

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// kinds of steps beyond those of C10
const (
	doIn       = doKinds + iota // the client sends a message
	doInFrag                    // ... in two fragments
	doClientPg                  // the client pings
	doCloseIt                   // CloseWithCode
	doMgr                       // manager broadcast
	doPgIn                      // a client ping and a message (Flush: the ping between its fragments) in one piece
)

const (
	fltNone = iota
	fltErr
	fltStall
	fltCredit // the peer takes At more bytes, then nothing
	fltSetWD
	fltSetRD
	fltReadErr // reads fail after At bytes
	fltReadEOF
	fltKill // at At ms
)

type Flt struct {
	Kind int `json:"k"`
	At   int `json:"at"`
	Part int `json:"part,omitempty"` // bytes still reaching the peer
}

type c12Plan struct {
	WriteWait int   `json:"ww,omitempty"` // ms
	ReadWait  int   `json:"rw,omitempty"`
	Every     int   `json:"every,omitempty"`
	WriteBuf  int   `json:"writebuf,omitempty"`
	Latency   int   `json:"latency,omitempty"`
	Batch     int   `json:"batch,omitempty"`
	Stream    bool  `json:"stream,omitempty"`
	Conc      bool  `json:"conc,omitempty"`
	Pongs     bool  `json:"pongs,omitempty"` // the peer answers pings
	Steps     []Act `json:"steps"`
	Faults    []Flt `json:"faults"`
}

var c12kinds = []int{doSend, doSend, doJSON, doHold, doHold, doPing, doBcast, doMgr, doBatch, doRoomBatch, doIn, doInFrag, doClientPg, doCloseIt, doPgIn}

func genFlt(t *rapid.T) Flt {
	f := Flt{Kind: pick(t, "fkind", fltErr, fltErr, fltStall, fltStall, fltCredit, fltSetWD, fltSetRD, fltReadErr, fltReadEOF, fltKill)}
	switch f.Kind {
	case fltErr, fltStall:
		f.At = intn(t, "fat", 0, 12)
		f.Part = pick(t, "part", 0, 0, 1, 2, 3, 10, 100, 100000)
	case fltCredit:
		f.At = pick(t, "credit", 0, 1, 2, 5, 30, 150, 700)
	case fltSetWD:
		f.At = intn(t, "fat", 1, 8)
	case fltSetRD:
		f.At = intn(t, "fat", 1, 5)
	case fltReadErr, fltReadEOF:
		f.At = pick(t, "cut", 0, 1, 2, 5, 6, 7, 20, 60, 300)
	case fltKill:
		f.At = pick(t, "kill", 0, 1, 3, 10, 50)
	}
	return f
}

func init() {
	core.Register(&core.Prop{
		ID:         "C12",
		RaceShards: 1,
		New:        func() any { return &c12Plan{} },
		Gen: func(t *rapid.T) any {
			w := rapid.SampledFrom([][3]int{{5000, 60000, 50000}, {1000, 90000, 80000}, {200, 3000, 2000}, {2000, 8000, 5000}, {100, 40000, 30000}}).Draw(t, "waits")
			p := &c12Plan{WriteWait: w[0], ReadWait: w[1], Every: w[2],
				WriteBuf: pick(t, "writebuf", 0, 0, 30, 100),
				Latency:  pick(t, "latency", 0, 0, 1, 3),
				Batch:    intn(t, "batch", 0, 2),
				Stream:   rapid.Bool().Draw(t, "stream"),
				Conc:     rapid.Bool().Draw(t, "conc"),
				Pongs:    rapid.Bool().Draw(t, "pongs"),
			}
			for range intn(t, "nsteps", 1, 7) {
				p.Steps = append(p.Steps, genAct(t, c12kinds...))
			}
			for range pick(t, "nf", 1, 1, 1, 2, 3) {
				p.Faults = append(p.Faults, genFlt(t))
			}
			return p
		},
		Enum: func(thorough bool) []any {
			var out []any
			lists := [][]Act{
				{{Kind: doSend, N: 20}, {Kind: doSend, N: 20}, {Kind: doSend, N: 20}},
				{{Kind: doSend, N: 500}},
				{{Kind: doJSON, N: 100}, {Kind: doJSON, N: 0}},
				{{Kind: doHold, N: 20, Flush: true}, {Kind: doSend, N: 20}},
				{{Kind: doHold, N: 500, Flush: true, Hold: 10}, {Kind: doHold, N: 500}},
				{{Kind: doPing}, {Kind: doSend, N: 1}},
				{{Kind: doSend, N: 1}, {Kind: doPing}, {Kind: doPing}},
				{{Kind: doBcast, N: 20}, {Kind: doBcast, N: 500}, {Kind: doSend}},
				{{Kind: doMgr, N: 20, Times: 5}, {Kind: doSend, N: 100}},
				{{Kind: doBatch, N: 20, Times: 3}, {Kind: doSend, N: 20}, {Kind: doBatch, N: 500}},
				{{Kind: doRoomBatch, N: 20, Times: 3}, {Kind: doBcast, N: 20}},
				{{Kind: doClientPg, N: 5}, {Kind: doClientPg, N: 100}, {Kind: doSend, N: 20}},
				{{Kind: doIn, N: 20}, {Kind: doInFrag, N: 100}, {Kind: doIn, N: 500}},
				{{Kind: doHold, N: 100, Flush: true, Hold: 20}, {Kind: doClientPg, N: 20}, {Kind: doCloseIt}},
				{{Kind: doCloseIt}, {Kind: doSend, N: 20}},
				{{Kind: doSend, N: 60, Times: 5}, {Kind: doCloseIt}},
				{{Kind: doPgIn, N: 20}, {Kind: doPgIn, N: 50, Flush: true}, {Kind: doPgIn, N: 500}},
			}
			var faults []Flt
			for at := range 9 {
				for _, part := range []int{0, 1, 2, 15, 100000} {
					faults = append(faults, Flt{fltErr, at, part}, Flt{fltStall, at, part})
				}
				faults = append(faults, Flt{fltSetWD, at + 1, 0}, Flt{fltSetRD, at + 1, 0}, Flt{fltCredit, at * at * 3, 0}, Flt{fltReadErr, at * at, 0}, Flt{fltReadEOF, at * at, 0}, Flt{fltKill, at, 0})
			}
			for i, l := range lists {
				for j, f := range faults {
					p := &c12Plan{WriteWait: 1000, ReadWait: 90000, Every: 80000, Batch: 1 + (i+j)%2, Steps: l, Faults: []Flt{f}, Stream: j%2 == 0}
					if i%2 == 0 {
						p.WriteBuf = 30
					}
					out = append(out, p)
					if thorough || j%3 == 0 {
						q := *p
						q.Conc = true
						out = append(out, &q)
					}
				}
			}
			return out
		},
		Run:      c12Run,
		Quick:    30000,
		Thorough: 700000,
		Rule:     "1-7 steps (sends, JSON, flushed streams, pings, broadcasts, batches, client messages and pings, closing), sequential or concurrent, over a transport with 1-3 faults (a write failing or stalling after part of its bytes at a given call, a peer that takes N more bytes, a failing deadline call, reads failing after N bytes, a reset); plus 19 scenarios crossed with 144 faults; non-trivial: a fault was met",
	})
}

func c12Run(c *core.Case, plan any) {
	p := plan.(*c12Plan)
	ms := time.Millisecond
	ww, rw := time.Duration(max(1, p.WriteWait))*ms, time.Duration(max(1, p.ReadWait))*ms
	opts := &snapws.Options{WriteBufferSize: p.WriteBuf, WriteWait: ww, ReadWait: rw, PingEvery: time.Duration(max(1, p.Every)) * ms,
		BroadcastChannelsSize: 1, BroadcastBackpressure: snapws.BackpressureWait}
	tl := newTally()
	opts.OnDisconnect = func(*snapws.Conn) { tl.add("disconnect") }
	u := snapws.NewUpgrader(opts)
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	switch p.Batch {
	case 1:
		u.EnableJSONBatching(bctx, 20*ms)
	case 2:
		u.EnablePrefixBatching(bctx, 20*ms)
	}
	mgr := snapws.NewManager[string](u)
	rooms := snapws.NewRoomManager[string](u)
	mc := mem.New("c")
	mc.Latency = time.Duration(p.Latency) * ms
	if p.Pongs {
		answerPings(mc)
	}
	inCut, inErr := -1, io.EOF
	headFault := false
	for _, f := range p.Faults {
		switch f.Kind {
		case fltErr:
			mc.SetFault(f.At, mem.Fault{Err: true, Partial: f.Part})
			headFault = headFault || f.At == 0
		case fltStall:
			mc.SetFault(f.At, mem.Fault{Stall: true, Partial: f.Part})
			headFault = headFault || f.At == 0
		case fltSetWD:
			if mc.FailSetWD == 0 || f.At < mc.FailSetWD {
				mc.FailSetWD = f.At
			}
			headFault = headFault || f.At <= 1
		case fltSetRD:
			if mc.FailSetRD == 0 || f.At < mc.FailSetRD {
				mc.FailSetRD = f.At
			}
		case fltReadErr:
			inCut, inErr = f.At, errReset
		case fltReadEOF:
			inCut, inErr = f.At, io.EOF
		}
	}
	// the whole of the slowest chain of failing calls
	bound := 6*ww + 2*time.Second

	var mcn *snapws.ManagedConn[string]
	var err error
	if !c.Must("hang", "Connect", bound, func() { mcn, err = mgr.Connect("k", newRW(mc, OpenOpts{}), goodReq()) }) {
		return
	}
	if headFault {
		c.NonTrivial()
		c.Class("fault-in-handshake")
		if err == nil {
			c.Violate("upgrade-succeeded", "Connect succeeded though the response could not be written")
		}
		if !mc.LibClosed() {
			c.Violate("not-closed", "the transport was not closed after the response could not be written")
		}
		return
	}
	if err != nil {
		c.Violate("upgrade-failed", "Connect failed: %v", err)
		return
	}
	conn := mcn.Conn
	tidy(c, conn, mc)
	room := rooms.Add("r")
	room.Add(conn)
	for _, f := range p.Faults {
		if f.Kind == fltCredit {
			mc.SetCredit(int64(f.At))
		}
		if f.Kind == fltKill {
			time.AfterFunc(time.Duration(f.At)*ms, mc.Kill)
		}
	}
	// whatever else happens, a write is given up when its time is over
	defer func() {
		for _, r := range mc.Writes() {
			if d := r.End.Sub(r.Start); d > ww+mc.Latency+ms {
				c.Violate("write-wait", "a write of %d bytes was given up after %v, WriteWait is %v", r.Want, d, ww)
			}
		}
	}()
	// client input, cut off at inCut
	var inMu sync.Mutex
	fed := 0
	feed := func(b []byte) {
		inMu.Lock()
		defer inMu.Unlock()
		if inCut >= 0 && fed+len(b) >= inCut {
			mc.Feed(b[:max(0, inCut-fed)])
			mc.FeedErr(inErr)
		} else {
			mc.Feed(b)
		}
		fed += len(b)
	}
	if inCut == 0 {
		mc.FeedErr(inErr)
	}
	var inWant [][]byte
	var inGot [][]byte
	var inLast time.Time = time.Now()
	var rerr error
	reader := c.Go("reader", func() {
		me := mem.Goid()
		for {
			var d []byte
			var err error
			fails0 := mc.FailsBy(me)
			if p.Stream {
				var r io.Reader
				r, _, err = conn.NextReader()
				if err == nil {
					d, err = streamRead(r, []int{7}, 1<<20)
					if err == io.EOF {
						err = nil
					}
				}
			} else {
				_, d, err = conn.ReadMessage()
			}
			if err != nil {
				rerr = err
				return
			}
			if mc.FailsBy(me) > fails0 {
				c.Violate("read-after-failure", "a read met a transport failure (answering a ping) and returned a message of %d bytes", len(d))
				return
			}
			inMu.Lock()
			inGot = append(inGot, d)
			inMu.Unlock()
		}
	})

	type sent struct {
		data []byte
		err  error
	}
	var mu sync.Mutex
	var msgs []sent
	put := func(d []byte, err error) { mu.Lock(); msgs = append(msgs, sent{d, err}); mu.Unlock() }
	// met reports the first fault met so far
	failed := func() (time.Time, bool) {
		var at time.Time
		for _, r := range mc.Writes() {
			if r.Err != nil && (at.IsZero() || r.End.Before(at)) {
				at = r.End
			}
		}
		return at, !at.IsZero()
	}
	step := func(i int, a Act) {
		me := mem.Goid()
		for k := range max(1, a.Times) {
			d := AMsg{N: a.N}.payload('M', i, k)
			fails0 := mc.FailsBy(me)
			var err error
			own := true // the call itself writes
			switch a.Kind {
			case doSend:
				err = conn.SendBytes(bg, d)
				put(d, err)
			case doJSON:
				err = conn.SendJSON(bg, string(d))
				put([]byte(`"`+string(d)+"\"\n"), err)
			case doHold:
				var w *snapws.ConnWriter
				w, err = conn.NextWriter(bg, ref.Binary)
				if err != nil {
					break
				}
				_, err = w.Write(d[:len(d)/2])
				if err == nil && a.Flush {
					err = w.Flush()
				}
				time.Sleep(time.Duration(a.Hold) * ms)
				if err == nil {
					_, err = w.Write(d[len(d)/2:])
				}
				e2 := w.Close()
				if isFatal(err) && e2 == nil {
					c.Violate("ended", "Close of a writer reported success after Write or Flush had failed with %v", err)
				}
				if err == nil {
					err = e2
				}
				put(d, err)
			case doPing:
				err = conn.Ping()
				if err == snapws.ErrPingAlreadySent {
					own = false
				}
			case doBcast, doMgr:
				own = false
				if a.Kind == doBcast {
					room.BroadcastBytes(bg, d)
				} else {
					mgr.BroadcastBytes(bg, d)
				}
			case doBatch:
				own = false
				conn.Batch(d)
			case doRoomBatch:
				own = false
				room.BatchBroadcast(bg, d)
			case doIn:
				own = false
				inMu.Lock()
				inWant = append(inWant, d)
				inLast = time.Now()
				inMu.Unlock()
				feed(dataFrame(ref.Binary, true, d))
			case doInFrag:
				own = false
				inMu.Lock()
				inWant = append(inWant, d)
				inLast = time.Now()
				inMu.Unlock()
				feed(append(dataFrame(ref.Binary, false, d[:len(d)/2]), dataFrame(ref.Cont, true, d[len(d)/2:])...))
			case doPgIn:
				own = false
				inMu.Lock()
				inWant = append(inWant, d)
				inLast = time.Now()
				inMu.Unlock()
				pg := ref.Frame{Fin: true, Op: ref.Ping, Payload: d[:min(len(d), 100)]}
				b := pg.Encode(nil)
				if a.Flush {
					b = append(dataFrame(ref.Binary, false, d[:len(d)/2]), b...)
					b = append(b, dataFrame(ref.Cont, true, d[len(d)/2:])...)
				} else {
					b = append(b, dataFrame(ref.Binary, true, d)...)
				}
				feed(b)
			case doClientPg:
				own = false
				f := ref.Frame{Fin: true, Op: ref.Ping, Payload: d[:min(len(d), 100)]}
				feed(f.Encode(nil))
			case doCloseIt:
				conn.CloseWithCode(4000, "done")
				if !mc.LibClosed() {
					// another close may be in progress
					time.Sleep(bound)
					if !mc.LibClosed() {
						c.Violate("not-closed", "CloseWithCode returned and the transport is still open")
					}
				}
				return
			}
			if own && mc.FailsBy(me) > fails0 && !isFatal(err) {
				c.Violate("not-fatal", "step %d (kind %d) met a transport failure and returned %v", i, a.Kind, err)
			}
			if p.Conc {
				continue
			}
			if isFatal(err) {
				time.Sleep(bound) // closing waits for a write in progress
				if !mc.LibClosed() {
					c.Violate("not-closed", "step %d (kind %d) failed with the fatal error %v and the transport is open", i, a.Kind, err)
				}
			}
			synctest.Wait()
			if !own {
				time.Sleep(100 * ms)
			}
		}
	}
	var ops []*core.Op
	start := time.Now()
	if p.Conc {
		for i, a := range p.Steps {
			ops = append(ops, c.Go(fmt.Sprintf("step %d (kind %d)", i, a.Kind), func() {
				time.Sleep(time.Duration(a.At) * ms)
				step(i, a)
			}))
		}
		for _, o := range ops {
			if !o.Wait(time.Until(start.Add(2*bound + time.Second))) {
				c.Violate("hang", "%s did not return within %v (WriteWait %v):\n%s", o.Name, 2*bound, ww, firstStack())
				return
			}
		}
	} else {
		for i, a := range p.Steps {
			n := time.Duration(max(1, a.Times))
			o := c.Go(fmt.Sprintf("step %d (kind %d)", i, a.Kind), func() { step(i, a) })
			if !o.Wait(n * (3*bound + time.Second)) {
				c.Violate("hang", "%s did not return within %v (WriteWait %v):\n%s", o.Name, n*(2*bound), ww, firstStack())
				return
			}
		}
	}
	// let everything asynchronous run into the faults
	time.Sleep(bound)
	bcancel()
	at, bad := failed()
	wdFail := mc.FailSetWD > 0 && mc.WD() >= mc.FailSetWD
	rdFail := mc.FailSetRD > 0 && mc.RD() >= mc.FailSetRD
	inMu.Lock()
	readFail := inCut >= 0 && fed >= inCut
	inMu.Unlock()
	killed := mc.Closed() && !mc.LibClosed()
	if bad || wdFail || rdFail || readFail || killed {
		c.NonTrivial()
		c.ClassIf(bad, "write-fault")
		c.ClassIf(wdFail, "deadline-fault")
		c.ClassIf(rdFail, "read-deadline-fault")
		c.ClassIf(readFail, "read-fault")
		if !mc.LibClosed() {
			time.Sleep(bound) // it may have been met only just now
		}
		if !mc.LibClosed() {
			c.Violate("not-closed", "a transport failure was met (write %v, write deadline %v, read deadline %v, read %v, reset %v) and the connection is still open", bad, wdFail, rdFail, readFail, killed)
			return
		}
		if ca, ok := mc.ClosedAt(); ok && bad && ca.After(at.Add(bound)) {
			c.Violate("closed-late", "the transport was closed %v after a write had failed (WriteWait %v)", ca.Sub(at), ww)
		}
	}
	for i, r := range mc.Writes() {
		if d := r.End.Sub(r.Start); d > 5*ww+ms {
			c.Violate("no-deadline", "write %d was blocked for %v, WriteWait is %v", i, d, ww)
		}
	}
	// the reader ends with the connection, or when the peer has been silent
	// for ReadWait (pongs may come in between, for a while)
	if mc.LibClosed() {
		if !reader.Wait(bound) {
			c.Violate("hang", "a blocked read did not return after the connection was closed:\n%s", firstStack())
			return
		}
	} else if !p.Pongs {
		_ = inLast
		if !reader.Wait(rw + bound) {
			c.Violate("hang", "a read from a silent peer is still blocked after ReadWait (%v)", rw)
			return
		}
	} else {
		conn.Close()
		if !reader.Wait(bound) {
			c.Violate("hang", "a blocked read did not return after Close")
			return
		}
	}
	if !isFatal(rerr) {
		c.Violate("not-fatal", "the read returned %v, want a fatal error", rerr)
	}
	time.Sleep(bound)
	if !mc.LibClosed() {
		c.Violate("not-closed", "the read failed with %v and the connection is open", rerr)
		return
	}
	if n := tl.get("disconnect"); n != 1 {
		c.Violate("disconnect-hook", "OnDisconnect ran %d times", n)
	}
	c.Must("hang", "send on the failed connection", bound, func() {
		if err := conn.SendBytes(bg, []byte("x")); !isFatal(err) {
			c.Violate("not-fatal", "a send after the failure returned %v", err)
		}
	})
	// what the application got
	inMu.Lock()
	for i, d := range inGot {
		if i >= len(inWant) || string(d) != string(inWant[i]) && !p.Conc {
			c.Violate("wrong-message", "message %d was delivered as %s", i, trunc(d, 40))
			break
		}
	}
	inMu.Unlock()
	// what the peer saw
	s := validWire(c, mc)
	if c.Failed() {
		return
	}
	arrived := map[string]int{}
	for _, m := range s.Msgs {
		arrived[string(m.Data)]++
	}
	for _, m := range msgs {
		n := arrived[string(m.data)]
		switch {
		case n > 1:
			c.Violate("duplicate", "a message arrived %d times", n)
		case m.err == nil && n == 0:
			c.Violate("lost", "a message of %d bytes whose send succeeded did not arrive", len(m.data))
		case m.err != nil && n > 0:
			c.Violate("failed-but-complete", "a message of %d bytes whose send failed with %v was presented to the peer as complete", len(m.data), m.err)
		}
	}
	full := map[string]bool{}
	for i, a := range p.Steps {
		for k := range max(1, a.Times) {
			d := string(AMsg{N: a.N}.payload('M', i, k))
			full[d] = true
			full[`"`+d+"\"\n"] = true
		}
	}
	for d := range arrived {
		if d != "" && d[0] == 'M' && !full[d] {
			c.Violate("cut-message", "the peer received %s as a complete message", trunc([]byte(d), 40))
		}
	}
	c.ClassIf(p.Conc, "concurrent")
}
