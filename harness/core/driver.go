package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Known is one line of the known-findings file that suppresses a violation:
// the property, and the violation's key with the circumstances it needs.
type Known struct{ Prop, What string }

// DriverMain runs a check and returns its exit status.
func DriverMain(id, root string) int {
	start := time.Now()
	p := Lookup(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	vseed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		vseed = 1
	}
	budget := 400 * time.Second
	if thorough {
		budget = 700 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	deadline := start.Add(budget)
	self, _ := os.Executable()
	reps := make([]*ShardReport, Shards)
	errs := make([]string, Shards)
	cmds := make([]*exec.Cmd, Shards)
	var wg sync.WaitGroup
	first := make(chan struct{}, Shards)
	for i := range Shards {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%d", vseed, id, i)
		seed := h.Sum64()
		if seed == 0 {
			seed = 1
		}
		bin := self
		if i >= Shards-p.RaceShards {
			bin = self + "-race"
		}
		cmd := exec.Command(bin, "shard", id, strconv.Itoa(i), strconv.FormatUint(seed, 10), tier,
			strconv.FormatInt(deadline.UnixNano(), 10), filepath.Join(root, "regress", id))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
		cmd.Dir = root
		var out, eb bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &eb
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "shard:", err)
			return 2
		}
		cmds[i] = cmd
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			var r ShardReport
			if jerr := json.Unmarshal(out.Bytes(), &r); jerr == nil {
				reps[i] = &r
				if r.Fail != nil {
					first <- struct{}{}
				}
				return
			}
			e := eb.String()
			if len(e) > 4000 {
				e = e[:4000]
			}
			errs[i] = fmt.Sprintf("shard %d: %v\n%s", i, err, e)
		}()
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	killed := false
	select {
	case <-all:
	case <-first:
		select {
		case <-all:
		case <-time.After(10 * time.Second):
			killed = true
			for _, c := range cmds {
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
			<-all
		}
	}

	// merge
	ev := map[string]any{}
	classes := map[string]int{}
	known := map[string]int{}
	hashes := map[string]bool{}
	var samples []Sample
	evals, enum, regr, drawn, restarts := 0, 0, 0, 0, 0
	timedOut := false
	var fail *Failure
	var infra []string
	for i, r := range reps {
		if r == nil {
			if !killed {
				infra = append(infra, errs[i])
			}
			continue
		}
		evals += r.Evaluations
		enum += r.Enumerated
		regr += r.Regress
		drawn += r.Drawn
		restarts += r.Restarts
		timedOut = timedOut || r.TimedOut
		for k, v := range r.Classes {
			classes[k] += v
		}
		for k, v := range r.Known {
			known[k] += v
		}
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		samples = append(samples, r.Samples...)
		if r.Fail != nil && (fail == nil || len(r.Fail.Plan) < len(fail.Plan)) {
			fail = r.Fail
		}
		if r.Infra != "" {
			infra = append(infra, r.Infra)
		}
	}
	sort.SliceStable(samples, func(a, b int) bool { return len(samples[a].Plan) < len(samples[b].Plan) })
	if len(samples) > 4 {
		n := len(samples)
		samples = []Sample{samples[0], samples[n/3], samples[2*n/3], samples[n-1]}
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(hashes),
		"rule":                p.Rule,
		"samples":             samples,
		"classes":             classes,
		"enumerated_cases":    enum,
		"regression_cases":    regr,
		"random_cases":        evals - enum - regr,
		"worker_processes":    restarts,
		"stopped_by_budget":   timedOut,
	}
	if len(known) > 0 {
		cov["known_finding_hits"] = known
	}
	ev["property"] = id
	ev["tier"] = tier
	ev["seed"] = vseed
	ev["level"] = "exploration"
	ev["coverage"] = cov
	ev["assumptions"] = append([]string{
		"the Go toolchain, testing/synctest and pgregory.net/rapid are correct; the runtime overlay only makes mutex waits count as blocked",
		"the transport behaves like the harness's net.Conn model (harness/mem)",
	}, p.Assumptions...)
	ev["wall_s"] = time.Since(start).Seconds()
	nviol := 0
	if fail != nil {
		nviol = 1
	}
	ev["violations"] = nviol
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d cases (%d enumerated, %d regression), %d distinct non-trivial, %.1fs\n", id, evals, enum, regr, len(hashes), time.Since(start).Seconds())
	var ck []string
	for k := range classes {
		ck = append(ck, k)
	}
	sort.Strings(ck)
	for _, k := range ck {
		fmt.Printf("   %6d %s\n", classes[k], k)
	}
	for k, n := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", id, k, n)
	}
	if fail != nil {
		rp := Replay{Property: id, Key: fail.Key, Msg: fail.Msg, Again: fail.Again, Plan: fail.Plan}
		b, _ := json.MarshalIndent(rp, "", " ")
		name := filepath.Join("evidence", "replay-"+id+".json")
		os.WriteFile(filepath.Join(root, name), append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n%s\nplan: %s\nreproduced: %s\n", id, fail.Key, fail.Msg, trunc(string(fail.Plan), 3000), fail.Again)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, name)
		return 1
	}
	if len(infra) > 0 {
		fmt.Fprintln(os.Stderr, "ERROR of the check (no verdict):", strings.Join(infra, "\n---\n"))
		return 2
	}
	if evals == 0 {
		fmt.Fprintln(os.Stderr, "ERROR of the check: nothing was evaluated")
		return 2
	}
	return 0
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ReplayMain runs a replay file a few times.
func ReplayMain(file string, times int) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := Lookup(r.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", r.Property)
		return 2
	}
	bad := 0
	for i := range times {
		run := NewRunner(p, procsOf[i%len(procsOf)])
		res := run.ExecJSON(r.Plan, true)
		run.Stop()
		if res.Infra != "" {
			fmt.Fprintln(os.Stderr, "ERROR:", res.Infra)
			return 2
		}
		if i == 0 {
			for _, n := range res.Notes {
				fmt.Println("  ", n)
			}
			fmt.Println("   classes:", res.Classes, "nontrivial:", res.NonTrivial)
		}
		if len(res.Viols) > 0 {
			bad++
			for _, v := range res.Viols {
				fmt.Printf("run %d: %s: %s\n", i, v.Key, v.Msg)
			}
		}
	}
	fmt.Printf("%d of %d runs violate the property\n", bad, times)
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	return 0
}
