// Command worker executes simulated episodes; it is linked with the
// instrumented library and the patched runtime.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"verifsim/eng"
	"verifsim/scen"
	"verifsim/simrt"
)

// Summary is what a worker reports about a batch.
type Summary struct {
	Episodes   int               `json:"episodes"`
	Nontrivial int               `json:"nontrivial"`
	Steps      uint64            `json:"steps"`
	SimTimeNS  int64             `json:"sim_time_ns"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Scenarios  map[string]int    `json:"scenarios"`
	States     []uint64          `json:"states"`
	Interleave []uint64          `json:"interleavings"`
	Sites      []uint32          `json:"sites"` // ids reached
	Digests    map[uint64]uint64 `json:"digests,omitempty"`
	KnownHits  map[string]string `json:"known_hits"`
	Violation  *eng.Record       `json:"violation,omitempty"`
	Samples    []string          `json:"samples"`
	WallS      float64           `json:"wall_s"`
	LastSeed   uint64            `json:"last_seed"`
}

var (
	prop      = flag.String("prop", "", "")
	tier      = flag.String("tier", "quick", "")
	seed      = flag.Uint64("seed", 1, "")
	from      = flag.Int("from", 0, "")
	stride    = flag.Int("stride", 1, "")
	count     = flag.Int("count", 1<<30, "")
	secs      = flag.Float64("secs", 10, "")
	only      = flag.String("only", "", "only this scenario")
	replayF   = flag.String("replay", "", "")
	cpuprof   = flag.String("cpuprofile", "", "write a CPU profile (development)")
	known     = flag.String("known", "", "file with known signatures, one per line")
	racelog   = flag.String("racelog", "", "")
	list      = flag.Bool("list", false, "list scenario kinds")
	episode   = flag.Uint64("episode", 0, "run exactly this episode seed")
	curFile   = flag.String("cur", "", "")
	digests   = flag.Bool("digests", false, "")
	trace     = flag.Bool("trace", false, "")
	tally     = flag.Bool("tally", false, "development: count violation signatures instead of stopping")
	freshOnly = flag.Int("fresh", -1, "-1 any scenario kind, 0 only pooled, 1 only fresh")
)

var stderr *os.File

// salt makes two processes draw different hash seeds for the same episode.
var salt uint64

func main() {
	flag.Parse()
	fmt.Sscan(os.Getenv("SIM_HASHSEED"), &salt)
	eng.RaceLog = *racelog
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	go watchdog()
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	stderr = os.Stderr
	// the library prints parse trees and syntax errors; they are not output
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout, os.Stderr = null, null
	}
	defer out.Flush()
	if *list {
		for _, s := range scen.ByProperty[*prop] {
			if s.Fresh {
				fmt.Fprintln(out, "fresh")
			} else {
				fmt.Fprintln(out, "pooled")
			}
		}
		return
	}
	if *cpuprof != "" {
		if f, err := os.Create(*cpuprof); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	kn := map[string]bool{}
	if *known != "" {
		b, _ := os.ReadFile(*known)
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				kn[l] = true
			}
		}
	}
	sum := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}, KnownHits: map[string]string{}, Digests: map[uint64]uint64{}}
	states := map[uint64]struct{}{}
	inter := map[uint64]struct{}{}
	start := time.Now()
	if *replayF != "" {
		b, err := os.ReadFile(*replayF)
		if err != nil {
			fmt.Fprintln(stderr, err)
			os.Exit(3)
		}
		var r eng.Record
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(stderr, err)
			os.Exit(3)
		}
		for _, s := range r.Prefix {
			sc := scen.Pick(r.Property, s)
			if sc == nil {
				continue
			}
			e := eng.NewEp(r.Property, sc.Name, s, eng.New(s))
			e.Known = kn
			e.Tier = *tier
			runEp(sc, e)
		}
		sc := scen.Find(r.Property, r.Scenario)
		if sc == nil {
			fmt.Fprintln(stderr, "no such scenario", r.Scenario)
			os.Exit(3)
		}
		ch := eng.FromReplay(r.Streams)
		if r.Streams == nil {
			ch = eng.New(r.Seed)
		}
		e := eng.NewEp(r.Property, sc.Name, r.Seed, ch)
		e.Known = kn
		e.Tier = *tier
		e.IsReplay = r.Streams != nil
		e.ReplaySw = r.Switches
		runEp(sc, e)
		finish(sum, e, states, inter)
		if e.Failed() {
			sum.Violation = record(e, e.Seed, r.HashSeed, r.Prefix)
		}
		if *trace {
			for _, l := range e.TraceLines {
				fmt.Fprintln(stderr, l)
			}
		}
		emit(out, sum, states, inter, start)
		return
	}
	var hist []uint64
	for i := *from; *count > 0; i += *stride {
		if time.Since(start).Seconds() > *secs {
			break
		}
		s := eng.Mix(*seed*1_000_003 + uint64(i))
		if *episode != 0 {
			s = *episode
			*count = 1
		}
		sc := scen.Pick(*prop, s)
		if *only != "" {
			sc = scen.Find(*prop, *only)
		}
		if sc == nil {
			fmt.Fprintln(stderr, "no scenario for", *prop, *only)
			os.Exit(3)
		}
		if *freshOnly >= 0 && sc.Fresh != (*freshOnly == 1) {
			continue
		}
		*count--
		e := eng.NewEp(*prop, sc.Name, s, eng.New(s))
		e.Known = kn
		e.Tier = *tier
		noteCur(s, sc.Name)
		runEp(sc, e)
		finish(sum, e, states, inter)
		sum.LastSeed = s
		if *digests {
			sum.Digests[s] = e.DigestValue()
		}
		if *trace {
			for _, l := range e.TraceLines {
				fmt.Fprintln(stderr, l)
			}
		}
		if e.Failed() && *tally {
			for _, v := range e.Violations {
				k := v.Kind + " " + v.Sig
				if tallies[k] == 0 {
					d := v.Detail
					if len(d) > 1500 {
						d = d[:1500]
					}
					firsts[k] = fmt.Sprintf("episode %d: %s", s, d)
				}
				tallies[k]++
			}
		} else if e.Failed() {
			sum.Violation = record(e, s, 0, hist)
			break
		}
		if *only == "" {
			hist = append(hist, s)
		}
	}
	if *tally {
		for k, n := range tallies {
			fmt.Fprintf(stderr, "#### %6d  %s\n        %s\n", n, k, firsts[k])
		}
		fmt.Fprintf(stderr, "%d episodes, %d nontrivial, %.1fs\n", sum.Episodes, sum.Nontrivial, time.Since(start).Seconds())
		return
	}
	emit(out, sum, states, inter, start)
}

var tallies, firsts = map[string]int{}, map[string]string{}

// noteCur leaves the running episode in a file so that the driver can name it
// if the process dies (runtime throw, stack exhaustion, os.Exit).
func noteCur(s uint64, name string) {
	if *curFile != "" {
		os.WriteFile(*curFile, []byte(fmt.Sprintf("%d %s", s, name)), 0o644)
	}
}

func record(e *eng.Ep, s uint64, hs uint64, prefix []uint64) *eng.Record {
	tr := e.TraceLines
	return &eng.Record{Property: e.Property, Scenario: e.Scenario, Seed: s, HashSeed: hs, Prefix: prefix, Streams: e.Rec, Switches: e.Switches,
		Violation: e.Violations[0], Trace: tr}
}

func runEp(sc *scen.Scenario, e *eng.Ep) {
	simrt.SeedHash(e.Seed ^ salt)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(simrt.Abort); ok {
					e.Fail("liveness", "liveness:serial", "%s", a.Why)
					return
				}
				st := string(debug.Stack())
				e.Fail("panic", "panic:"+panicSite(st), "panic: %v\n%s", r, st)
			}
		}()
		sc.Run(e)
	}()
}

// panicSite names the innermost library function on the stack.
func panicSite(st string) string {
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/substrait-io/substrait-go") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l[strings.LastIndex(l, "/")+1:]
		}
	}
	return "harness"
}

func finish(sum *Summary, e *eng.Ep, states, inter map[uint64]struct{}) {
	sum.Episodes++
	if e.Nontrivial {
		sum.Nontrivial++
	}
	sum.Steps += e.Steps
	sum.SimTimeNS += e.SimTimeNS
	for k, v := range e.Faults {
		sum.Faults[k] += v
	}
	for k, v := range e.Probes {
		sum.Probes[k] += v
	}
	for k, v := range e.KnownHits {
		sum.KnownHits[k] = v
	}
	sum.Scenarios[e.Scenario]++
	for h := range e.States {
		if len(states) < 300000 {
			states[h] = struct{}{}
		}
	}
	for h := range e.Interleave {
		if len(inter) < 300000 {
			inter[h] = struct{}{}
		}
	}
	if len(sum.Samples) < 2 && e.Nontrivial {
		n := len(e.TraceLines)
		if n > 12 {
			n = 12
		}
		sum.Samples = append(sum.Samples, fmt.Sprintf("seed=%d scenario=%s: %s", e.Seed, e.Scenario, strings.Join(e.TraceLines[:n], " ; ")))
	}
}

func emit(out *bufio.Writer, sum *Summary, states, inter map[uint64]struct{}, start time.Time) {
	for h := range states {
		sum.States = append(sum.States, h)
	}
	for h := range inter {
		sum.Interleave = append(sum.Interleave, h)
	}
	for i, n := range simrt.SiteHits() {
		if n > 0 {
			sum.Sites = append(sum.Sites, uint32(i))
		}
	}
	sum.WallS = time.Since(start).Seconds()
	b, err := json.Marshal(sum)
	if err != nil {
		fmt.Fprintln(stderr, err)
		os.Exit(3)
	}
	out.Write(b)
	out.WriteByte('\n')
}

// watchdog ends the process when simulated code stops moving in the middle of
// an episode: that is trouble of the simulation, reported as an error exit.
func watchdog() {
	last := simrt.Progress()
	idle := 0
	for {
		time.Sleep(time.Second)
		p := simrt.Progress()
		if p != last {
			last, idle = p, 0
			continue
		}
		idle++
		if idle > 120 {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(stderr, "WATCHDOG: no simulated progress for 120 s\n%s\n", buf[:n])
			os.Exit(4)
		}
	}
}
