// Command vsim is the driver: it instruments and builds the library from the
// current working tree, searches schedules and fault sequences in parallel
// worker processes, confirms and minimises what they find, and writes evidence.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/instr"
	"verifsim/rec"
)

type Summary struct {
	Episodes   int               `json:"episodes"`
	Nontrivial int               `json:"nontrivial"`
	Steps      uint64            `json:"steps"`
	SimTimeNS  int64             `json:"sim_time_ns"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Scenarios  map[string]int    `json:"scenarios"`
	States     []uint64          `json:"states"`
	Interleave []uint64          `json:"interleavings"`
	Sites      []uint32          `json:"sites"`
	Digests    map[uint64]uint64 `json:"digests,omitempty"`
	KnownHits  map[string]string `json:"known_hits"`
	Violation  *rec.Record       `json:"violation,omitempty"`
	Samples    []string          `json:"samples"`
	WallS      float64           `json:"wall_s"`
	LastSeed   uint64            `json:"last_seed"`
}

var (
	verif = "/verif"
	repo  = "/repo"
	dir   string // scratch
	bin   string
	sites []string
	tier  = "quick"
	seed  = uint64(1)
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...)
	cleanup()
	os.Exit(3)
}

func cleanup() {
	if dir != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(dir)
	}
}

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("VERIF_TIER"); v != "" {
		tier = v
	}
	if v := os.Getenv("VERIF_SEED"); v != "" {
		s, err := strconv.ParseUint(v, 10, 64)
		if err != nil {
			die("bad VERIF_SEED %q", v)
		}
		seed = s
	}
	if len(os.Args) < 3 {
		die("usage: vsim check ID | vsim replay FILE | vsim build DIR")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2])
	case "replay":
		replay(os.Args[2])
	case "build":
		dir = os.Args[2]
		build(len(os.Args) > 3 && os.Args[3] == "race")
		fmt.Println(bin)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func scratch() {
	d, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		die("%v", err)
	}
	dir = d
}

// raceProps are the properties whose scenarios run tasks concurrently; their
// workers carry the race detector.  The others run one task at a time, where
// it could report nothing, and are several times faster without it.
var raceProps = map[string]bool{"C01": true, "C02": true, "C12": true}

func build(race bool) float64 {
	if v := os.Getenv("VSIM_RACE"); v != "" {
		race = v == "1"
	}
	t0 := time.Now()
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	goroot := strings.TrimSpace(string(out))
	os.MkdirAll(dir, 0o755)
	sim := filepath.Join(verif, "sim")
	mod := filepath.Join(dir, "go.mod")
	gm, err := os.ReadFile(filepath.Join(sim, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gm = bytes.ReplaceAll(gm, []byte("=> /repo"), []byte("=> "+repo))
	os.WriteFile(mod, gm, 0o644)
	gs, err := os.ReadFile(filepath.Join(sim, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	rs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(dir, "go.sum"), append(gs, rs...), 0o644)
	bin = filepath.Join(dir, "worker")
	var last string
	for _, rg := range []bool{true, false} {
		r, err := instr.Generate(instr.Options{Repo: repo, GOROOT: goroot, Out: filepath.Join(dir, fmt.Sprintf("ov%v", rg)), RewriteGo: rg, RewriteSync: true})
		if err != nil {
			die("instrumenting: %v", err)
		}
		sites = r.Sites
		args := []string{"build", "-modfile", mod, "-overlay", r.Overlay, "-o", bin}
		if race {
			args = append(args, "-race", "-gcflags=all=-d=checkptr=0")
		}
		if os.Getenv("VSIM_COVER") != "" {
			args = append(args, "-cover", "-coverpkg=github.com/substrait-io/substrait-go/v8/...")
		}
		args = append(args, "./worker")
		cmd := exec.Command("go", args...)
		cmd.Dir = sim
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		b, err := cmd.CombinedOutput()
		if err == nil {
			return time.Since(t0).Seconds()
		}
		last = string(b)
	}
	die("build failed:\n%s", last)
	return 0
}

type runResult struct {
	sum    *Summary
	err    error
	stderr string
	cur    string
	wall   time.Duration
}

var runSeq struct {
	sync.Mutex
	n int
}

// maxRSS is the memory one worker process may use.
const maxRSS = 6 << 30

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

func runWorker(ctx context.Context, timeout time.Duration, hashSeed uint64, extra map[string]string, args ...string) runResult {
	runSeq.Lock()
	runSeq.n++
	id := runSeq.n
	runSeq.Unlock()
	rl := filepath.Join(dir, fmt.Sprintf("race%d", id))
	cur := filepath.Join(dir, fmt.Sprintf("cur%d", id))
	ctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	args = append(args, "-racelog", rl, "-cur", cur, "-known", filepath.Join(dir, "known.txt"), "-tier", tier)
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=log_path="+rl+" halt_on_error=0 exitcode=0 history_size=5 atexit_sleep_ms=0",
		fmt.Sprintf("SIM_HASHSEED=%d", hashSeed), "GOMAXPROCS=2", "GOTRACEBACK=single")
	for k, v := range extra {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	t0 := time.Now()
	err := cmd.Start()
	fat := false
	if err == nil {
		stop := make(chan struct{})
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(300 * time.Millisecond):
					if rss(cmd.Process.Pid) > maxRSS {
						fat = true
						cancel()
						return
					}
				}
			}
		}()
		err = cmd.Wait()
		close(stop)
	}
	r := runResult{err: err, stderr: se.String(), wall: time.Since(t0)}
	if b, e := os.ReadFile(cur); e == nil {
		r.cur = string(b)
	}
	os.Remove(cur)
	if m, _ := filepath.Glob(rl + ".*"); len(m) > 0 {
		for _, f := range m {
			os.Remove(f)
		}
	}
	if fat {
		r.err = fmt.Errorf("worker used more than %d MB", maxRSS>>20)
		return r
	}
	if ctx.Err() == context.DeadlineExceeded {
		r.err = fmt.Errorf("worker exceeded %v", timeout)
		return r
	}
	if err == nil {
		var s Summary
		if e := json.Unmarshal(so.Bytes(), &s); e != nil {
			r.err = fmt.Errorf("worker output: %v", e)
		} else {
			r.sum = &s
		}
	}
	return r
}

// crash turns the death of a worker into a violation record, or nil if it is
// trouble of the simulation itself.
func (r runResult) crash(prop string) *rec.Record {
	if r.err == nil || r.cur == "" {
		return nil
	}
	if !strings.Contains(r.stderr, "fatal error:") && !strings.Contains(r.stderr, "goroutine stack exceeds") {
		return nil
	}
	var s uint64
	var name string
	if n, _ := fmt.Sscan(r.cur, &s, &name); n != 2 {
		return nil
	}
	d := r.stderr
	if len(d) > 4000 {
		d = d[:4000]
	}
	sig := "crash"
	for _, l := range strings.Split(r.stderr, "\n") {
		if strings.Contains(l, "fatal error:") {
			sig = "crash:" + strings.TrimSpace(l)
			break
		}
	}
	return &rec.Record{Property: prop, Scenario: name, Seed: s, Violation: rec.Violation{Kind: "crash", Sig: sig, Detail: d}}
}

type knownEntry struct{ prop, sig, what string }

func loadKnown(prop string) []knownEntry {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C06 sig="..." what
		var e knownEntry
		rest := strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(rest, " sig=")
		if i < 0 {
			continue
		}
		e.prop = rest[:i]
		rest = rest[i+5:]
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		e.sig, _ = strconv.Unquote(q)
		e.what = strings.TrimSpace(rest[len(q):])
		if e.prop == prop {
			out = append(out, e)
		}
	}
	return out
}

func secsFor(prop string) float64 {
	if v := os.Getenv("VSIM_SECS"); v != "" {
		f, _ := strconv.ParseFloat(v, 64)
		return f
	}
	if tier == "thorough" {
		return 600
	}
	return 75
}

func check(prop string) {
	t0 := time.Now()
	scratch()
	defer cleanup()
	known := loadKnown(prop)
	var kb strings.Builder
	for _, k := range known {
		kb.WriteString(k.sig + "\n")
	}
	os.WriteFile(filepath.Join(dir, "known.txt"), []byte(kb.String()), 0o644)
	buildS := build(raceProps[prop])
	nw := runtime.NumCPU()
	if v := os.Getenv("VSIM_WORKERS"); v != "" {
		nw, _ = strconv.Atoi(v)
	}
	secs := secsFor(prop)
	total := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}, KnownHits: map[string]string{}}
	states, inter, reached := map[uint64]bool{}, map[uint64]bool{}, map[uint32]bool{}
	var mu sync.Mutex
	var vio *rec.Record
	var trouble []string
	processes := 0
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	absorb := func(r runResult) bool {
		mu.Lock()
		defer mu.Unlock()
		processes++
		if r.sum == nil {
			if ctx.Err() != nil {
				return false
			}
			if c := r.crash(prop); c != nil {
				if vio == nil {
					vio = c
				}
				cancel()
				return false
			}
			trouble = append(trouble, fmt.Sprintf("%v\n%s", r.err, tail(r.stderr, 6000)))
			cancel()
			return false
		}
		s := r.sum
		total.Episodes += s.Episodes
		total.Nontrivial += s.Nontrivial
		total.Steps += s.Steps
		total.SimTimeNS += s.SimTimeNS
		for k, v := range s.Faults {
			total.Faults[k] += v
		}
		for k, v := range s.Probes {
			total.Probes[k] += v
		}
		for k, v := range s.Scenarios {
			total.Scenarios[k] += v
		}
		for k, v := range s.KnownHits {
			total.KnownHits[k] = v
		}
		for _, h := range s.States {
			states[h] = true
		}
		for _, h := range s.Interleave {
			inter[h] = true
		}
		for _, h := range s.Sites {
			reached[h] = true
		}
		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, s.Samples...)
		}
		if s.Violation != nil {
			if vio == nil {
				vio = s.Violation
			}
			cancel()
			return false
		}
		return true
	}
	searchStart := time.Now()
	selftest := selfTest(ctx, prop, &trouble)
	if selftest.vio != nil {
		vio = selftest.vio
		cancel()
	}
	kinds := schedKinds(ctx, prop)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			deadline := searchStart.Add(time.Duration(secs * float64(time.Second)))
			if kinds["pooled"] {
				poolEnd := deadline
				if kinds["fresh"] {
					poolEnd = searchStart.Add(time.Duration(secs * 0.5 * float64(time.Second)))
				}
				// several processes one after another: bounded process history
				for gen := 0; ctx.Err() == nil; gen++ {
					left := time.Until(poolEnd).Seconds()
					if left < 0.5 {
						break
					}
					slice := secs / 4
					if slice > left {
						slice = left
					}
					r := runWorker(ctx, time.Duration(slice*float64(time.Second))+200*time.Second, 0, nil, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w+gen*1_000_000), "-stride", fmt.Sprint(nw), "-secs", fmt.Sprint(slice), "-fresh", "0")
					if !absorb(r) {
						return
					}
				}
			}
			if kinds["fresh"] {
				for i := w; ctx.Err() == nil && time.Now().Before(deadline); i += nw {
					r := runWorker(ctx, 200*time.Second, 0, nil, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(500_000_000+i*100), "-stride", "1", "-count", "1", "-secs", "100", "-fresh", "1")
					if !absorb(r) {
						return
					}
				}
			}
		}(w)
	}
	wg.Wait()
	searchS := time.Since(searchStart).Seconds()
	if vio == nil && len(trouble) > 0 {
		die("trouble while simulating %s:\n%s", prop, strings.Join(trouble, "\n---\n"))
	}
	exit := 0
	minInfo := map[string]any{}
	if vio != nil {
		exit = 1
		path := confirmAndMinimise(vio, minInfo)
		fmt.Printf("%s\n", tail(vio.Violation.Detail, 3000))
		fmt.Printf("kind=%s sig=%q seed=%d scenario=%s\n", vio.Violation.Kind, vio.Violation.Sig, vio.Seed, vio.Scenario)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
	}
	for i := range total.Samples {
		if len(total.Samples[i]) > 3000 {
			total.Samples[i] = total.Samples[i][:3000] + "..."
		}
	}
	reachedN := 0
	perPkg := map[string][2]int{}
	for i, s := range sites {
		if i == 0 {
			continue
		}
		p := filepath.Dir(s)
		v := perPkg[p]
		v[1]++
		if reached[uint32(i)] {
			v[0]++
			reachedN++
		}
		perPkg[p] = v
	}
	if d := os.Getenv("VSIM_UNREACHED"); d != "" {
		var l []string
		for i, s := range sites {
			if i > 0 && !reached[uint32(i)] {
				l = append(l, s)
			}
		}
		os.WriteFile(d, []byte(strings.Join(l, "\n")), 0o644)
	}
	pk := map[string]string{}
	for p, v := range perPkg {
		pk[p] = fmt.Sprintf("%d/%d", v[0], v[1])
	}
	hrs := searchS / 3600
	cov := map[string]any{
		"evaluations":             total.Episodes,
		"distinct_nontrivial":     minInt(total.Nontrivial, maxInt(len(states), len(inter))),
		"rule":                    ruleFor(prop),
		"samples":                 total.Samples,
		"simulated_runs_per_hour": int(float64(total.Episodes) / hrs),
		"seeds_per_hour":          int(float64(total.Episodes) / hrs),
		"simulated_steps":         total.Steps,
		"simulated_time":          fmt.Sprintf("%d scheduler steps (the library has no clock; logical time is the global step counter); %d ns of simulated storage and network delay", total.Steps, total.SimTimeNS),
		"faults_injected":         total.Faults,
		"probes":                  total.Probes,
		"scenarios":               total.Scenarios,
		"distinct_interleavings":  len(inter),
		"distinct_states":         len(states),
		"interleaving_measure":    "hash of all (global step, task) scheduling switches of a run",
		"state_measure":           "hash of scenario-defined abstract states (operation kinds with their outcomes, relation/expression shapes, fault positions)",
		"yield_points_reached":    fmt.Sprintf("%d of %d", reachedN, len(sites)-1),
		"yield_points_by_package": pk,
		"worker_processes":        processes,
		"determinism_selftest":    selftest.info,
		"components_real":         []string{"all of /repo (instrumented at statement granularity, generated parsers uninstrumented)", "antlr, goccy/go-yaml, protobuf, Go runtime and standard library"},
		"components_stub":         []string{"goroutine choice (token scheduler)", "sync primitives of /repo (simulated, same happens-before edges)", "runtime random source, map seeds and iteration offsets (seeded)", "sync.Pool of the toolchain (no reuse)", "io.Reader / fs.FS arguments (simulated storage)", "peer processes and their network (encoded bytes over a simulated transport)"},
		"build_s":                 buildS,
		"search_s":                searchS,
	}
	for k, v := range minInfo {
		cov[k] = v
	}
	if len(total.KnownHits) > 0 {
		ks := []string{}
		for k := range total.KnownHits {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_seen"] = ks
	}
	viol := 0
	if vio != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"library tasks are preempted at statement boundaries of /repo's non-generated code; code inside one statement, the generated parsers and third-party packages runs atomically, data races there are judged by the race detector's happens-before analysis",
			"seeded sampling: a quiet run is evidence, not proof",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d simulated runs, %d steps, %d interleavings, %d states, yield points %d/%d, build %.1fs search %.1fs total %.1fs\n", prop, total.Episodes, total.Steps, len(inter), len(states), reachedN, len(sites)-1, buildS, searchS, time.Since(t0).Seconds())
	cleanup()
	os.Exit(exit)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// schedKinds asks the worker which scenario kinds the property has.
func schedKinds(ctx context.Context, prop string) map[string]bool {
	cmd := exec.CommandContext(context.Background(), bin, "-prop", prop, "-list")
	out, err := cmd.Output()
	if err != nil {
		die("listing scenarios of %s: %v", prop, err)
	}
	k := map[string]bool{}
	for _, l := range strings.Fields(string(out)) {
		k[l] = true
	}
	if len(k) == 0 {
		die("property %s has no scenarios", prop)
	}
	return k
}

type selfResult struct {
	info map[string]any
	vio  *rec.Record
}

// selfTest executes the same seeds in separate processes and compares their
// event-log digests.  For C05 the processes get different hash seeds and time
// zones, and a divergence is the violation itself.
func selfTest(ctx context.Context, prop string, trouble *[]string) selfResult {
	n := 24
	if tier == "thorough" {
		n = 200
	}
	type cfg struct {
		hs  uint64
		env map[string]string
		gmp string
	}
	cfgs := []cfg{{0, nil, "1"}, {0, nil, "4"}, {0, nil, "2"}}
	if prop == "C05" {
		cfgs = []cfg{{0, map[string]string{"TZ": "UTC"}, "1"}, {77, map[string]string{"TZ": "Asia/Kolkata"}, "4"}, {31337, map[string]string{"TZ": "America/New_York"}, "2"}, {4242, map[string]string{"TZ": "Pacific/Apia"}, "3"}}
		n = 60
	}
	lim := 12.0
	if prop == "C05" {
		lim = 40
	}
	res := make([]runResult, 2*len(cfgs))
	var wg sync.WaitGroup
	for i, c := range cfgs {
		for half := 0; half < 2; half++ {
			wg.Add(1)
			go func(i, half int, c cfg) {
				defer wg.Done()
				env := map[string]string{}
				for k, v := range c.env {
					env[k] = v
				}
				res[2*i+half] = runWorker(ctx, 300*time.Second, c.hs, env, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(900_000_000+half*1000), "-count", fmt.Sprint(n), "-secs", fmt.Sprint(lim), "-digests", "-fresh", map[bool]string{true: "0", false: "-1"}[prop != "C02"])
			}(i, half, c)
		}
	}
	wg.Wait()
	compared, diverged := 0, 0
	var vio *rec.Record
	seeds := map[uint64]bool{}
	for half := 0; half < 2; half++ {
		base := res[half]
		for i := range cfgs {
			r := res[2*i+half]
			if r.sum == nil {
				if c := r.crash(prop); c != nil {
					vio = c
				} else {
					*trouble = append(*trouble, fmt.Sprintf("self-test: %v\n%s", r.err, tail(r.stderr, 4000)))
				}
				continue
			}
			if r.sum.Violation != nil && vio == nil {
				vio = r.sum.Violation
				vio.HashSeed = cfgs[i].hs
			}
			if i == 0 || base.sum == nil {
				continue
			}
			var ks []uint64
			for s := range base.sum.Digests {
				ks = append(ks, s)
			}
			sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
			for _, s := range ks {
				d := base.sum.Digests[s]
				if d2, ok := r.sum.Digests[s]; ok {
					compared++
					seeds[s] = true
					if d2 != d {
						diverged++
						if prop == "C05" && vio == nil {
							vio = &rec.Record{Property: prop, Scenario: "cross-process", Seed: s, HashSeed: cfgs[i].hs,
								Violation: rec.Violation{Kind: "divergence", Sig: "cross-process", Detail: fmt.Sprintf("episode seed %d: event log digest %x with hash seed %d and %v, %x with hash seed %d and %v", s, d, cfgs[0].hs, cfgs[0].env, d2, cfgs[i].hs, cfgs[i].env)}}
						}
					}
				}
			}
		}
	}
	return selfResult{info: map[string]any{"seeds": len(seeds), "process_pairs_compared": compared, "diverged": diverged}, vio: vio}
}

func sameClass(a, b rec.Violation) bool { return a.Kind == b.Kind && a.Sig == b.Sig }

// tryLimit bounds one replay; minimisation shortens it to a multiple of the
// time the recorded run takes.
var tryLimit = 120 * time.Second

func tryRecord(r *rec.Record) (*rec.Record, bool) {
	runSeq.Lock()
	runSeq.n++
	p := filepath.Join(dir, fmt.Sprintf("try%d.json", runSeq.n))
	runSeq.Unlock()
	if err := r.Save(p); err != nil {
		return nil, false
	}
	defer os.Remove(p)
	res := runWorker(context.Background(), tryLimit, r.HashSeed, nil, "-prop", r.Property, "-replay", p)
	if res.err != nil && os.Getenv("VSIM_KEEP") != "" {
		r.Save(p + ".failed")
		fmt.Fprintln(os.Stderr, p+".failed", res.err)
	}
	if res.sum == nil {
		if r.Violation.Kind == "crash" {
			res.cur = fmt.Sprintf("%d %s", r.Seed, r.Scenario)
			if c := res.crash(r.Property); c != nil {
				c.Streams, c.Prefix, c.Switches = r.Streams, r.Prefix, r.Switches
				return c, sameClass(c.Violation, r.Violation)
			}
		}
		return nil, false
	}
	if res.sum.Violation == nil {
		return nil, false
	}
	return res.sum.Violation, sameClass(res.sum.Violation.Violation, r.Violation)
}

func clone(r *rec.Record) *rec.Record {
	c := *r
	c.Streams = map[string][]int{}
	for k, v := range r.Streams {
		c.Streams[k] = append([]int(nil), v...)
	}
	if r.Streams == nil {
		c.Streams = nil
	}
	c.Switches = nil
	for _, s := range r.Switches {
		c.Switches = append(c.Switches, append([]rec.Switch(nil), s...))
	}
	c.Prefix = append([]uint64(nil), r.Prefix...)
	return &c
}

func size(r *rec.Record) int {
	n := len(r.Prefix) * 1000
	for _, s := range r.Streams {
		for _, v := range s {
			n++
			if v != 0 {
				n += 2
			}
		}
	}
	for _, s := range r.Switches {
		n += 4 * len(s)
	}
	return n
}

func confirmAndMinimise(vio *rec.Record, info map[string]any) string {
	out := filepath.Join(verif, "replays")
	os.MkdirAll(out, 0o755)
	path := filepath.Join(out, fmt.Sprintf("%s-%d.json", vio.Property, vio.Seed))
	if vio.Scenario == "cross-process" {
		vio.Save(path)
		return path
	}
	full := vio.Prefix
	best := clone(vio)
	best.Prefix = nil
	t0 := time.Now()
	got, ok := tryRecord(best)
	one := time.Since(t0)
	if !ok && len(full) > 0 {
		best = clone(vio)
		got, ok = tryRecord(best)
		if ok {
			// shortest suffix of the process history that still matters
			for n := 1; n < len(full); n *= 4 {
				c := clone(vio)
				c.Prefix = full[len(full)-n:]
				if g, k := tryRecord(c); k {
					best, got = c, g
					break
				}
			}
		}
	}
	info["reproduced_in_fresh_process"] = ok
	if !ok {
		vio.Note = "not reproduced in a fresh process; recorded as observed"
		vio.Save(path)
		return path
	}
	if tryLimit = 5*one + 5*time.Second; tryLimit > 60*time.Second {
		tryLimit = 60 * time.Second
	}
	defer func() { tryLimit = 120 * time.Second }()
	startSize := size(best)
	deadline := time.Now().Add(45 * time.Second)
	tries := 0
	// try candidates in parallel batches
	attempt := func(cands []*rec.Record) bool {
		if len(cands) == 0 || time.Now().After(deadline) {
			return false
		}
		type rr struct {
			i  int
			r  *rec.Record
			ok bool
		}
		ch := make(chan rr, len(cands))
		sem := make(chan struct{}, runtime.NumCPU())
		for i, c := range cands {
			go func(i int, c *rec.Record) {
				sem <- struct{}{}
				defer func() { <-sem }()
				g, k := tryRecord(c)
				ch <- rr{i, g, k}
			}(i, c)
		}
		bi := -1
		var bg *rec.Record
		for range cands {
			x := <-ch
			tries++
			if x.ok && (bi < 0 || x.i < bi) {
				bi, bg = x.i, x.r
			}
		}
		if bi < 0 {
			return false
		}
		best, got = cands[bi], bg
		return true
	}
	if best.Streams != nil {
		for round := 0; round < 6 && time.Now().Before(deadline); round++ {
			before := size(best)
			// drop whole schedules, then switches
			for si := range best.Switches {
				for chunk := len(best.Switches[si]); chunk >= 1; chunk /= 2 {
					for p := 0; p < len(best.Switches[si]); {
						var cs []*rec.Record
						for q := p; q < len(best.Switches[si]) && len(cs) < 8; q += chunk {
							c := clone(best)
							e := q + chunk
							if e > len(c.Switches[si]) {
								e = len(c.Switches[si])
							}
							c.Switches[si] = append(c.Switches[si][:q:q], c.Switches[si][e:]...)
							cs = append(cs, c)
						}
						if !attempt(cs) {
							p += 8 * chunk
						}
						if time.Now().After(deadline) {
							break
						}
					}
				}
			}
			var names []string
			for k := range best.Streams {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				for chunk := len(best.Streams[k]); chunk >= 1; chunk /= 2 {
					for p := 0; p < len(best.Streams[k]); {
						var cs []*rec.Record
						for q := p; q < len(best.Streams[k]) && len(cs) < 8; q += chunk {
							e := q + chunk
							if e > len(best.Streams[k]) {
								e = len(best.Streams[k])
							}
							c := clone(best)
							c.Streams[k] = append(c.Streams[k][:q:q], c.Streams[k][e:]...)
							cs = append(cs, c)
							z := clone(best)
							nz := false
							for i := q; i < e; i++ {
								if z.Streams[k][i] != 0 {
									nz = true
								}
								z.Streams[k][i] = 0
							}
							if nz {
								cs = append(cs, z)
							}
						}
						if !attempt(cs) {
							p += 4 * chunk
						}
						if time.Now().After(deadline) {
							break
						}
					}
				}
			}
			if size(best) >= before {
				break
			}
		}
	}
	final := clone(best)
	if got != nil {
		final.Violation = got.Violation
		final.Trace = got.Trace
		*vio = *final
	}
	final.Save(path)
	// the replay file itself must reproduce the violation
	g, k := tryRecord(final)
	info["replay_reproduces"] = k && g != nil
	info["minimisation"] = fmt.Sprintf("size %d -> %d in %d runs", startSize, size(best), tries)
	return path
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var r rec.Record
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	scratch()
	defer cleanup()
	known := loadKnown(r.Property)
	var kb strings.Builder
	for _, k := range known {
		kb.WriteString(k.sig + "\n")
	}
	os.WriteFile(filepath.Join(dir, "known.txt"), []byte(kb.String()), 0o644)
	build(raceProps[r.Property])
	if r.Scenario == "cross-process" {
		fmt.Println(r.Violation.Detail)
		var d []uint64
		for _, hs := range []uint64{0, r.HashSeed} {
			res := runWorker(context.Background(), 300*time.Second, hs, nil, "-prop", r.Property, "-digests", "-episode", fmt.Sprint(r.Seed))
			if res.sum == nil {
				die("%v\n%s", res.err, res.stderr)
			}
			d = append(d, res.sum.Digests[r.Seed])
		}
		fmt.Printf("digests %x\n", d)
		if d[0] != d[1] {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
			cleanup()
			os.Exit(1)
		}
		return
	}
	got, ok := tryRecord(&r)
	if got != nil {
		for _, l := range got.Trace {
			fmt.Println("  " + l)
		}
		fmt.Println(got.Violation.Detail)
		fmt.Printf("kind=%s sig=%q same=%v\n", got.Violation.Kind, got.Violation.Sig, ok)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		cleanup()
		os.Exit(1)
	}
	fmt.Println("not reproduced on the current tree")
}

func ruleFor(prop string) string {
	return "one case = one seeded simulated execution (operations, data, faults and schedule all drawn from the seed); non-trivial = the run executed at least one preemption, injected fault, process hop, crash or failed operation while the workload was in progress; distinct = counted by distinct interleaving or abstract-state hashes"
}
