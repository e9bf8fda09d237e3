package core

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitCPU   = 67
	exitWall  = 68
	exitHeap  = 69
	exitRace  = 66
	cpuLimit  = 25 * time.Second // CPU time of one case
	wallLimit = 300 * time.Second
	heapLimit = 5 << 30
)

// ---------------------------------------------------------------- worker

type req struct {
	Trace bool            `json:"trace,omitempty"`
	Plan  json.RawMessage `json:"plan"`
}

func writeMsg(w io.Writer, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	var h [4]byte
	binary.BigEndian.PutUint32(h[:], uint32(len(b)))
	if _, err := w.Write(append(h[:], b...)); err != nil {
		return err
	}
	return nil
}

func readMsg(r io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.BigEndian.Uint32(h[:]))
	_, err := io.ReadFull(r, b)
	return b, err
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// WorkerMain executes plans read from stdin; results go to descriptor 3.
func WorkerMain(id string) {
	p := Lookup(id)
	out := os.NewFile(3, "results")
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	var busy atomic.Int64 // wall start of the running plan, unix ns
	var cpu0 atomic.Int64
	go func() {
		heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(250 * time.Millisecond)
			b := busy.Load()
			if b == 0 {
				continue
			}
			metrics.Read(heap)
			code := 0
			switch {
			case cpuTime()-time.Duration(cpu0.Load()) > cpuLimit:
				code = exitCPU
			case time.Since(time.Unix(0, b)) > wallLimit:
				code = exitWall
			case heap[0].Value.Uint64() > heapLimit:
				code = exitHeap
			}
			if code != 0 && busy.Load() == b {
				buf := make([]byte, 4<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(code)
			}
		}
	}()
	testing.Main(func(_, _ string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: id, F: func(t *testing.T) {
			for {
				b, err := readMsg(in)
				if err != nil {
					os.Exit(0)
				}
				var r req
				if err := json.Unmarshal(b, &r); err != nil {
					fmt.Fprintln(os.Stderr, "bad request:", err)
					os.Exit(3)
				}
				plan := p.New()
				if err := json.Unmarshal(r.Plan, plan); err != nil {
					fmt.Fprintln(os.Stderr, "bad plan:", err)
					os.Exit(3)
				}
				cpu0.Store(int64(cpuTime()))
				busy.Store(time.Now().UnixNano())
				res := Exec(t, p, plan, r.Trace)
				busy.Store(0)
				if err := writeMsg(out, res); err != nil {
					os.Exit(3)
				}
				if res.Dirty {
					os.Exit(0)
				}
			}
		}}}, nil, nil)
	os.Exit(3)
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *os.File
	err *bytes.Buffer
	n   int
}

// Runner executes plans in a worker process it replaces as needed.
type Runner struct {
	p        *Prop
	maxprocs int
	w        *worker
	Restarts int
}

func NewRunner(p *Prop, maxprocs int) *Runner { return &Runner{p: p, maxprocs: maxprocs} }

type capBuf struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (c *capBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.b.Len() < 1<<20 {
		c.b.Write(p)
	}
	return len(p), nil
}

func (r *Runner) start() error {
	self, err := os.Executable()
	if err != nil {
		return err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd := exec.Command(self, "worker", r.p.ID)
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = append(os.Environ(),
		fmt.Sprintf("GOMAXPROCS=%d", r.maxprocs),
		"GORACE=halt_on_error=1 exitcode=66 history_size=3",
		"GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	eb := &bytes.Buffer{}
	cmd.Stderr = &capBuf{b: eb}
	if err := cmd.Start(); err != nil {
		return err
	}
	pw.Close()
	r.w = &worker{cmd: cmd, in: in, out: pr, err: eb}
	r.Restarts++
	return nil
}

func (r *Runner) Stop() {
	if r.w != nil {
		r.w.in.Close()
		r.w.out.Close()
		r.w.cmd.Process.Kill()
		r.w.cmd.Wait()
		r.w = nil
	}
}

// Exec runs one plan; it never returns nil.
func (r *Runner) Exec(plan any, trace bool) *Result {
	b, err := json.Marshal(plan)
	if err != nil {
		return &Result{Infra: "marshal: " + err.Error()}
	}
	return r.ExecJSON(b, trace)
}

func (r *Runner) ExecJSON(b []byte, trace bool) *Result {
	if r.w != nil && r.w.n >= 3000 { // bound what leftovers can pile up
		r.Stop()
	}
	if r.w == nil {
		if err := r.start(); err != nil {
			return &Result{Infra: "start worker: " + err.Error()}
		}
	}
	w := r.w
	w.n++
	werr := writeMsg(w.in, req{Trace: trace, Plan: b})
	var res Result
	if werr == nil {
		m, rerr := readMsg(w.out)
		if rerr == nil {
			if err := json.Unmarshal(m, &res); err != nil {
				return &Result{Infra: "result: " + err.Error()}
			}
			if res.Dirty {
				w.in.Close()
				w.out.Close()
				w.cmd.Process.Kill()
				w.cmd.Wait()
				r.w = nil
			}
			return &res
		}
	}
	// the worker died: its last words decide
	w.in.Close()
	w.out.Close()
	w.cmd.Wait()
	r.w = nil
	return death(w)
}

func death(w *worker) *Result {
	ws, _ := w.cmd.ProcessState.Sys().(syscall.WaitStatus)
	text := w.err.String()
	short := func(s string) string {
		if len(s) > 6000 {
			s = s[:6000]
		}
		return s
	}
	viol := func(key, s string) *Result {
		return &Result{NonTrivial: true, Viols: []Violation{{key, short(s)}}}
	}
	if ws.Signaled() {
		return &Result{Infra: fmt.Sprintf("worker killed by %v\n%s", ws.Signal(), short(text))}
	}
	switch ws.ExitStatus() {
	case exitRace:
		i := strings.Index(text, "WARNING: DATA RACE")
		if i >= 0 && strings.Contains(text[i:], LibPkg) {
			return viol("data-race", text[i:])
		}
		return &Result{Infra: "race report without a library frame:\n" + short(text)}
	case exitCPU, exitHeap:
		for _, g := range strings.Split(text, "\n\n") {
			h, _, _ := strings.Cut(g, "\n")
			if (strings.Contains(h, "[running") || strings.Contains(h, "[runnable")) && strings.Contains(g, LibPkg) {
				key := "spin"
				if ws.ExitStatus() == exitHeap {
					key = "memory"
				}
				return viol(key, fmt.Sprintf("one case used more than %v of CPU or %d bytes of heap inside the library:\n%s", cpuLimit, int64(heapLimit), g))
			}
		}
		return &Result{Infra: "a case used too much CPU or memory outside the library:\n" + short(text)}
	case exitWall:
		return &Result{Infra: "a case exceeded the wall clock limit:\n" + short(text)}
	case 2: // Go panic or fatal error
		i := strings.Index(text, "panic: ")
		if j := strings.Index(text, "fatal error: "); j >= 0 && (i < 0 || j < i) {
			i = j
		}
		if i >= 0 {
			t := text[i:]
			// the first goroutine listed is the one that failed
			gs := strings.SplitN(t, "\n\n", 4)
			first := t
			if len(gs) > 1 {
				first = gs[0] + "\n\n" + gs[1]
			}
			a, b := strings.Index(first, LibPkg), strings.Index(first, OwnPkg)
			if a >= 0 && (b < 0 || a < b) {
				return viol("panic", short(t))
			}
			return &Result{Infra: "crash outside the library:\n" + short(t)}
		}
	}
	return &Result{Infra: fmt.Sprintf("worker ended with status %d\n%s", ws.ExitStatus(), short(text))}
}

// ---------------------------------------------------------------- shard

// ShardReport is what a shard tells the driver.
type ShardReport struct {
	Evaluations int            `json:"evaluations"`
	Enumerated  int            `json:"enumerated"`
	Regress     int            `json:"regress"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []Sample       `json:"samples"`
	Fail        *Failure       `json:"fail,omitempty"`
	Infra       string         `json:"infra,omitempty"`
	TimedOut    bool           `json:"timed_out"`
	Restarts    int            `json:"restarts"`
	Known       map[string]int `json:"known,omitempty"`
	Drawn       int            `json:"drawn"`
}

type Sample struct {
	Plan    json.RawMessage `json:"plan"`
	Classes []string        `json:"classes,omitempty"`
}

type Failure struct {
	Key   string          `json:"key"`
	Msg   string          `json:"msg"`
	Plan  json.RawMessage `json:"plan"`
	Again string          `json:"again"`
}

type tb struct {
	name   string
	failed bool
}

func (t *tb) Helper()               {}
func (t *tb) Name() string          { return t.name }
func (t *tb) Logf(string, ...any)   {}
func (t *tb) Log(...any)            {}
func (t *tb) Skipf(string, ...any)  {}
func (t *tb) Skip(...any)           {}
func (t *tb) SkipNow()              {}
func (t *tb) Errorf(string, ...any) { t.failed = true }
func (t *tb) Error(...any)          { t.failed = true }
func (t *tb) Fatalf(string, ...any) { t.failed = true }
func (t *tb) Fatal(...any)          { t.failed = true }
func (t *tb) FailNow()              { t.failed = true }
func (t *tb) Fail()                 { t.failed = true }
func (t *tb) Failed() bool          { return t.failed }

var procsOf = []int{1, 2, 4, 2, 1, 4, 2, 3}

const Shards = 8

type infraStop struct{ msg string }

// ShardMain runs one shard and prints its report on stdout.
func ShardMain(id string, shard int, seed uint64, thorough bool, deadline time.Time, regress string) {
	testing.Init() // rapid reads test flags
	flag.CommandLine.Parse(nil)
	debug.SetGCPercent(200)
	p := Lookup(id)
	rep := &ShardReport{Classes: map[string]int{}, Known: map[string]int{}}
	hashes := map[string]bool{}
	run := NewRunner(p, procsOf[shard%len(procsOf)])
	defer run.Stop()
	failKey := ""
	var last *Failure
	// a failure that takes long to show (the library spins, say) is neither
	// shrunk nor repeated often: the check has to end.
	const slow = 5 * time.Second
	var slowPlan []byte
	var slowRes *Result
	eval := func(plan any, phase string) *Result {
		b, err := json.Marshal(plan)
		if err != nil {
			panic(err)
		}
		if slowPlan != nil {
			if bytes.Equal(b, slowPlan) {
				return slowRes
			}
			return &Result{}
		}
		start := time.Now()
		res := run.ExecJSON(b, false)
		if d := os.Getenv("VERIF_DEBUG"); d != "" && time.Since(start) > time.Second {
			os.WriteFile(fmt.Sprintf("%s/slow.%s.%d.%d", d, id, shard, time.Since(start)/time.Millisecond), b, 0o644)
		}
		if res.Infra != "" {
			// once more in a fresh worker: only trouble that repeats counts
			run.Stop()
			res2 := run.ExecJSON(b, false)
			if res2.Infra != "" {
				panic(infraStop{res2.Infra + "\nplan: " + string(b)})
			}
			res = res2
		}
		if len(res.Viols) > 0 {
			v := res.Viols[0]
			if failKey == "" {
				failKey = v.Key
			}
			if v.Key == failKey {
				last = &Failure{Key: v.Key, Msg: v.Msg, Plan: b}
				if time.Since(start) > slow {
					slowPlan, slowRes = b, res
				}
			}
		}
		if failKey == "" { // statistics of the search proper, not of shrinking
			rep.Evaluations++
			for _, c := range res.Classes {
				rep.Classes[c]++
			}
			for _, k := range res.Known {
				rep.Known[k]++
			}
			if res.NonTrivial {
				h := sha256.Sum256(b)
				hs := fmt.Sprintf("%x", h[:8])
				if !hashes[hs] {
					hashes[hs] = true
					if len(rep.Samples) < 2 && len(b) < 4000 && phase == "random" {
						rep.Samples = append(rep.Samples, Sample{b, res.Classes})
					}
				}
			}
		}
		return res
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if is, ok := r.(infraStop); ok {
					rep.Infra = is.msg
					return
				}
				rep.Infra = fmt.Sprintf("shard: %v\n%s", r, debug.Stack())
			}
		}()
		if regress != "" {
			fs, _ := filepath.Glob(filepath.Join(regress, "*.json"))
			sort.Strings(fs)
			for i, f := range fs {
				if i%Shards != shard {
					continue
				}
				plan, err := LoadPlan(p, f)
				if err != nil {
					panic(infraStop{f + ": " + err.Error()})
				}
				rep.Regress++
				if eval(plan, "regress"); failKey != "" {
					return
				}
			}
		}
		if p.Enum != nil {
			for i, plan := range p.Enum(thorough) {
				if i%Shards != shard {
					continue
				}
				if time.Now().After(deadline) {
					rep.TimedOut = true
					return
				}
				rep.Enumerated++
				if eval(plan, "enum"); failKey != "" {
					return
				}
			}
		}
		n := p.Quick
		if thorough {
			n = p.Thorough
		}
		n = (n + Shards - 1) / Shards
		if n == 0 || p.Gen == nil {
			return
		}
		flag.Set("rapid.seed", fmt.Sprint(seed))
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		var ifs *infraStop
		rapid.Check(&tb{name: "verif-" + id}, func(rt *rapid.T) {
			if ifs != nil {
				return
			}
			if failKey == "" && time.Now().After(deadline) {
				rep.TimedOut = true
				return
			}
			plan := p.Gen(rt)
			rep.Drawn++
			bad := ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						is, ok := r.(infraStop)
						if !ok {
							panic(r)
						}
						ifs = &is
					}
				}()
				res := eval(plan, "random")
				for _, v := range res.Viols {
					if v.Key == failKey {
						bad = v.Key
					}
				}
			}()
			if bad != "" {
				rt.Fatalf("%s", bad)
			}
		})
		if ifs != nil && failKey == "" {
			panic(*ifs)
		}
	}()
	if last != nil {
		again := 0
		N := 5
		if slowPlan != nil {
			N = 1
		}
		for i := 0; i < N; i++ {
			res := run.ExecJSON(last.Plan, false)
			for _, v := range res.Viols {
				if v.Key == last.Key {
					again++
					last.Msg = v.Msg
					break
				}
			}
		}
		last.Again = fmt.Sprintf("%d/%d", again, N)
		rep.Fail = last
		rep.Infra = ""
	}
	for h := range hashes {
		rep.Hashes = append(rep.Hashes, h)
	}
	rep.Restarts = run.Restarts
	json.NewEncoder(os.Stdout).Encode(rep)
}

// Replay is the file format of a replay.
type Replay struct {
	Property string          `json:"property"`
	Key      string          `json:"key"`
	Msg      string          `json:"msg"`
	Again    string          `json:"reproduced,omitempty"`
	Plan     json.RawMessage `json:"plan"`
}

func LoadPlan(p *Prop, file string) (any, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	if r.Property != p.ID {
		return nil, fmt.Errorf("plan of %q", r.Property)
	}
	plan := p.New()
	return plan, json.Unmarshal(r.Plan, plan)
}
