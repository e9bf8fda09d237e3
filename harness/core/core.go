// Package core runs generated cases: a case is a plan (plain data) executed
// in a synctest bubble against the real library and judged by an oracle.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// LibPkg is the import path prefix of frames of the library under test.
const LibPkg = "github.com/Atheer-Ganayem/SnapWS"

// OwnPkg is the import path prefix of the harness.
const OwnPkg = "verif/harness"

// Prop is one property's check.
type Prop struct {
	ID         string
	RaceShards int // how many of the shards run with the race detector
	// Gen draws a plan; New returns a pointer to an empty one.
	New func() any
	Gen func(t *rapid.T) any
	// Enum lists plans that are always run (systematic part), by tier.
	Enum func(thorough bool) []any
	// Run executes the plan in a bubble. Post runs after it, outside.
	Run  func(c *Case, plan any)
	Post func(c *Case, plan any)

	Quick, Thorough int // random cases
	Rule            string
	Assumptions     []string
	// Leaks: goroutines left over at the end of the bubble break the property.
	Leaks bool
}

var props = map[string]*Prop{}

func Register(p *Prop) { props[p.ID] = p }

func Lookup(id string) *Prop { return props[id] }

func IDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type Violation struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// Result of one executed plan.
type Result struct {
	Viols      []Violation `json:"viols,omitempty"`
	Infra      string      `json:"infra,omitempty"`
	NonTrivial bool        `json:"nontrivial,omitempty"`
	Classes    []string    `json:"classes,omitempty"`
	Dirty      bool        `json:"dirty,omitempty"` // the worker must be replaced
	Notes      []string    `json:"notes,omitempty"`
	Known      []string    `json:"known,omitempty"`
}

// Case is the context of one running plan.
type Case struct {
	mu      sync.Mutex
	res     Result
	classes map[string]bool
	cleanup []func()
	ops     []*Op
	Start   time.Time
	Trace   bool
	Private any // handed from Run to Post
}

func (c *Case) Violate(key, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Viols) < 20 {
		c.res.Viols = append(c.res.Viols, Violation{key, fmt.Sprintf(format, a...)})
	}
}

func (c *Case) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.res.Viols) > 0 }

func (c *Case) Infra(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.res.Infra == "" {
		c.res.Infra = fmt.Sprintf(format, a...)
	}
}

func (c *Case) NonTrivial() { c.mu.Lock(); c.res.NonTrivial = true; c.mu.Unlock() }

func (c *Case) Class(s string) { c.mu.Lock(); c.classes[s] = true; c.mu.Unlock() }

func (c *Case) ClassIf(b bool, s string) {
	if b {
		c.Class(s)
	}
}

func (c *Case) Logf(format string, a ...any) {
	if c.Trace {
		c.mu.Lock()
		c.res.Notes = append(c.res.Notes, fmt.Sprintf("[%v] ", time.Since(c.Start))+fmt.Sprintf(format, a...))
		c.mu.Unlock()
	}
}

// Cleanup registers f to run (in the bubble, in reverse order) after Run.
func (c *Case) Cleanup(f func()) { c.mu.Lock(); c.cleanup = append(c.cleanup, f); c.mu.Unlock() }

// Op is one operation running in its own goroutine.
type Op struct {
	Name    string
	c       *Case
	done    chan struct{}
	Started time.Time
	Ended   time.Time
	Pan     bool
}

// Go starts f in its own goroutine. A panic raised in the library is a
// violation, one raised in the harness an error of the check.
func (c *Case) Go(name string, f func()) *Op {
	o := &Op{Name: name, c: c, done: make(chan struct{}), Started: time.Now()}
	c.mu.Lock()
	c.ops = append(c.ops, o)
	c.mu.Unlock()
	go func() {
		defer close(o.done)
		defer func() {
			o.Ended = time.Now()
			if r := recover(); r != nil {
				o.Pan = true
				st := string(debug.Stack())
				if BlameLib(st) {
					c.Violate("panic", "%s: panic: %v\n%s", name, r, TrimStack(st))
				} else {
					c.Infra("%s: panic: %v\n%s", name, r, st)
				}
			}
		}()
		f()
	}()
	return o
}

// Wait waits for the operation for at most d of virtual time.
func (o *Op) Wait(d time.Duration) bool {
	select {
	case <-o.done:
		return true
	default:
	}
	if d <= 0 {
		synctest.Wait()
		select {
		case <-o.done:
			return true
		default:
			return false
		}
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-o.done:
		return true
	case <-t.C:
		select {
		case <-o.done:
			return true
		default:
			return false
		}
	}
}

// Done reports whether the operation has returned.
func (o *Op) Done() bool {
	select {
	case <-o.done:
		return true
	default:
		return false
	}
}

// Do runs f and waits at most limit of virtual time for it.
func (c *Case) Do(name string, limit time.Duration, f func()) bool {
	return c.Go(name, f).Wait(limit)
}

// Must is Do, and a call that does not return within limit is a violation.
func (c *Case) Must(key, name string, limit time.Duration, f func()) bool {
	if c.Do(name, limit, f) {
		return true
	}
	c.Violate(key, "%s did not return within %v", name, limit)
	return false
}

// BlameLib decides from a stack whether the innermost frame that belongs to
// either the library or the harness belongs to the library.
func BlameLib(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i > 0 {
		stack = stack[i:]
	}
	a := strings.Index(stack, LibPkg)
	b := strings.Index(stack, OwnPkg)
	return a >= 0 && (b < 0 || a < b)
}

// TrimStack keeps what is useful of a stack in a message.
func TrimStack(s string) string {
	if i := strings.Index(s, "panic("); i > 0 {
		s = s[i:]
	}
	l := strings.Split(s, "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

// BubbleStacks returns the stacks of the goroutines of the calling bubble
// (other than the caller's) that have a library frame.
func BubbleStacks() []string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	gs := strings.Split(string(buf[:n]), "\n\n")
	id := ""
	if i := strings.Index(gs[0], "synctest bubble "); i >= 0 {
		id = gs[0][i:]
		if j := strings.IndexAny(id, "],"); j > 0 {
			id = id[:j]
		}
	}
	var out []string
	for _, g := range gs[1:] {
		h, _, _ := strings.Cut(g, "\n")
		if id != "" && !strings.Contains(h, id+"]") && !strings.Contains(h, id+",") {
			continue
		}
		if strings.Contains(g, LibPkg) {
			out = append(out, g)
		}
	}
	return out
}

// Exec runs one plan to its verdict in this process.
func Exec(t *testing.T, p *Prop, plan any, trace bool) *Result {
	c := &Case{classes: map[string]bool{}, Trace: trace}
	var pan any
	var st string
	func() {
		defer func() {
			if pan = recover(); pan != nil {
				st = string(debug.Stack())
			}
		}()
		synctest.Test(t, func(*testing.T) {
			c.Start = time.Now()
			c.runBody(p, plan)
		})
	}()
	if pan != nil {
		c.res.Dirty = true
		s := fmt.Sprint(pan)
		switch {
		case strings.Contains(s, "deadlock"):
			// goroutines that never end: blocked for good
			if p.Leaks {
				c.Violate("goroutine-left", "goroutines started by the library never end: %s", leftovers())
			} else {
				c.Class("harness:goroutines-left")
				if os.Getenv("VERIF_DEBUG") != "" {
					buf := make([]byte, 1<<20)
					os.WriteFile(fmt.Sprintf("%s/leak.%d", os.Getenv("VERIF_DEBUG"), os.Getpid()), buf[:runtime.Stack(buf, true)], 0o644)
				}
			}
		case BlameLib(st):
			c.Violate("panic", "panic: %v\n%s", pan, TrimStack(st))
		default:
			c.Infra("panic: %v\n%s", pan, st)
		}
	}
	if p.Post != nil && pan == nil {
		p.Post(c, plan)
	}
	for k := range c.classes {
		c.res.Classes = append(c.res.Classes, k)
	}
	sort.Strings(c.res.Classes)
	return &c.res
}

func leftovers() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, LibPkg) {
			l := strings.Split(g, "\n")
			out = append(out, strings.Join(l[:min(len(l), 9)], "\n"))
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func (c *Case) runBody(p *Prop, plan any) {
	o := c.Go("case", func() { p.Run(c, plan) })
	// no case is longer than a virtual year
	if !o.Wait(10000 * time.Hour) {
		c.Infra("the case did not end: %s", strings.Join(BubbleStacks(), "\n\n"))
	}
	c.mu.Lock()
	cl := c.cleanup
	c.mu.Unlock()
	for i := len(cl) - 1; i >= 0; i-- {
		c.Do("cleanup", time.Hour, cl[i])
	}
	c.mu.Lock()
	ops := c.ops
	c.mu.Unlock()
	end := time.Now().Add(time.Hour)
	for _, o := range ops {
		if !o.Done() {
			o.Wait(max(1, time.Until(end)))
		}
	}
}

// Clone returns the plan as it looks after a trip through JSON.
func Clone(p *Prop, plan any) any {
	b, err := json.Marshal(plan)
	if err != nil {
		panic(err)
	}
	n := p.New()
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}
