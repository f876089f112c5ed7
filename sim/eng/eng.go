// Package eng holds what every scenario shares: recorded choice streams, the
// episode context, fault counters and the violation record.
package eng

import (
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"verifsim/rec"
	"verifsim/simrt"
)

// Choices is the single source of every random decision of an episode.  Each
// named stream is recorded; on replay the recorded values are used and an
// exhausted stream yields 0, which is the simplest alternative everywhere.
type Choices struct {
	seed   uint64
	rng    map[string]*uint64
	Rec    map[string][]int
	replay bool
	in     map[string][]int
	pos    map[string]int
}

func New(seed uint64) *Choices {
	return &Choices{seed: seed, rng: map[string]*uint64{}, Rec: map[string][]int{}}
}

func FromReplay(in map[string][]int) *Choices {
	return &Choices{replay: true, in: in, pos: map[string]int{}, Rec: map[string][]int{}}
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Int returns a value in [0,n).
func (c *Choices) Int(stream string, n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if c.replay {
		p := c.pos[stream]
		if l := c.in[stream]; p < len(l) {
			v = l[p]
			if v < 0 {
				v = 0
			}
			v %= n
		}
		c.pos[stream] = p + 1
	} else {
		st := c.rng[stream]
		if st == nil {
			x := Mix(c.seed ^ hashStr(stream))
			st = &x
			c.rng[stream] = st
		}
		*st += 0x9e3779b97f4a7c15
		v = int(Mix(*st) % uint64(n))
	}
	c.Rec[stream] = append(c.Rec[stream], v)
	return v
}

// Bool is true with probability num/den; false is the simple alternative.
func (c *Choices) Bool(stream string, num, den int) bool {
	return c.Int(stream, den) >= den-num
}

// Violation is one broken invariant.
type Violation = rec.Violation

// Record is the replay file.
type Record = rec.Record

// Mix is the seed mixing function.
func Mix(z uint64) uint64 { return rec.Mix(z) }

// Ep is one simulated execution.
type Ep struct {
	*Choices
	Property string
	Scenario string
	Seed     uint64
	Tier     string
	Known    map[string]bool // signatures of known findings

	Violations []Violation
	KnownHits  map[string]string
	Faults     map[string]int
	Probes     map[string]int
	TraceLines []string
	Steps      uint64
	States     map[uint64]struct{}
	Interleave map[uint64]struct{}
	SimTimeNS  int64
	Switches   [][]simrt.Switch // schedules executed, in order
	ReplaySw   [][]simrt.Switch
	IsReplay   bool
	Nontrivial bool
	digest     uint64
	Stop       bool
}

func NewEp(prop, scen string, seed uint64, c *Choices) *Ep {
	return &Ep{Choices: c, Property: prop, Scenario: scen, Seed: seed, Known: map[string]bool{}, KnownHits: map[string]string{},
		Faults: map[string]int{}, Probes: map[string]int{}, States: map[uint64]struct{}{}, Interleave: map[uint64]struct{}{}, digest: 14695981039346656037}
}

// Trace records one line of the event log.  It draws nothing from the choices.
func (e *Ep) Trace(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	e.Digest(s)
	if len(e.TraceLines) < 400 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		e.TraceLines = append(e.TraceLines, s)
	}
}

// Digest mixes s into the episode digest used by the determinism self-test.
func (e *Ep) Digest(s string) {
	for i := 0; i < len(s); i++ {
		e.digest = (e.digest ^ uint64(s[i])) * 1099511628211
	}
	e.digest = (e.digest ^ 0xff) * 1099511628211
}

// DigestValue returns the digest.
func (e *Ep) DigestValue() uint64 { return e.digest }

// Fault counts an injected fault that really fired.
func (e *Ep) Fault(kind string) { e.Faults[kind]++ }

// Probe counts a condition worth reaching.
// Count is how many there are of something: below n, and now and then up to
// four times as many.
func (e *Ep) Count(stream string, n int) int {
	if e.Int(stream, 30) == 29 {
		e.Probe("many")
		return n + e.Int(stream, 3*n+1)
	}
	return e.Int(stream, n)
}

func (e *Ep) Probe(kind string) { e.Probes[kind]++ }

// State records a reached state.
func (e *Ep) State(parts ...any) {
	e.States[hashStr(fmt.Sprint(parts...))] = struct{}{}
}

// Fail records a violation unless its signature is a known finding.
func (e *Ep) Fail(kind, sig, format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	if e.Known[sig] {
		if _, ok := e.KnownHits[sig]; !ok {
			e.KnownHits[sig] = d
		}
		return
	}
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	for _, v := range e.Violations {
		if v.Kind == kind && v.Sig == sig {
			return
		}
	}
	e.Violations = append(e.Violations, Violation{kind, sig, d})
}

// Failed says whether an unlisted violation was recorded.
func (e *Ep) Failed() bool { return len(e.Violations) > 0 }

// Concurrent runs the tasks under the scheduler with a strategy drawn from the
// "sched" stream and reports races, deadlocks and unbounded runs.
func (e *Ep) Concurrent(horizon uint64, fns []func()) simrt.Result {
	cfg := simrt.Config{MaxSteps: 30_000_000}
	if e.IsReplay {
		cfg.Strategy = simrt.Replay
		if n := len(e.Switches); n < len(e.ReplaySw) {
			cfg.Switches = e.ReplaySw[n]
		}
		// keep the stream positions identical
		e.Int("sched", 8)
		e.Int("sched", 12)
		e.Int("sched", 1<<30)
	} else {
		k := e.Int("sched", 8)
		m := e.Int("sched", 12)
		cfg.Seed = uint64(e.Int("sched", 1<<30))
		switch {
		case k == 0:
			cfg.Strategy = simrt.Sequential
		case k <= 4:
			cfg.Strategy = simrt.RandomWalk
			cfg.Mean = []int{1, 2, 3, 5, 8, 15, 30, 60, 150, 400, 1500, 6000}[m]
		default:
			cfg.Strategy = simrt.PCT
			cfg.Depth = 1 + m
			cfg.Horizon = horizon
		}
	}
	before := raceErrors()
	res := simrt.Run(cfg, fns)
	e.Switches = append(e.Switches, res.Switches)
	e.Steps += res.Steps
	e.Interleave[res.SwitchHash] = struct{}{}
	if e.Property != "C05" {
		// The number of yield points passed may depend on the hash seed (a map
		// iteration left early), which C05 varies between the processes.
		e.Digest(fmt.Sprint(res.Steps, res.SwitchHash))
		e.Trace("schedule: %d steps, %d switches (%d preemptions)", res.Steps, len(res.Switches), res.Preempts)
	}
	if res.Preempts > 0 {
		e.Faults["preemption"] += res.Preempts
		e.Nontrivial = true
	}
	if res.Deadlock {
		e.Fail("deadlock", "deadlock", "all unfinished tasks are blocked after %d steps", res.Steps)
	}
	if res.StepBound {
		e.Fail("liveness", "liveness", "tasks still running after %d steps", res.Steps)
	}
	for i, p := range res.Panics {
		if p == nil {
			continue
		}
		if _, ok := p.(simrt.Abort); ok {
			continue
		}
		e.Fail("panic", "panic:"+panicSig(p), "task %d panicked: %v", i, p)
	}
	e.CheckRaces(before)
	return res
}

func panicSig(p any) string {
	s := fmt.Sprint(p)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// RaceLog is where the race detector writes its reports.
var RaceLog string

// CheckRaces turns new race detector reports into violations.
func (e *Ep) CheckRaces(before int) {
	if raceErrors() == before {
		return
	}
	txt := ReadRaceLog()
	reps := strings.Split(txt, "==================")
	n := 0
	for _, r := range reps {
		if !strings.Contains(r, "DATA RACE") {
			continue
		}
		n++
		e.Fail("race", "race:"+RaceSig(r), "%s", strings.TrimSpace(r))
	}
	if n == 0 {
		e.Fail("race", "race:unparsed", "race detector reported %d errors; log: %s", raceErrors()-before, txt)
	}
}

var raceOff int64

// ReadRaceLog returns what was appended to the race log since the last call.
func ReadRaceLog() string {
	if RaceLog == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", RaceLog, os.Getpid()))
	if err != nil || int64(len(b)) <= raceOff {
		return ""
	}
	s := string(b[raceOff:])
	raceOff = int64(len(b))
	return s
}

// RaceSig identifies a race by the pair of innermost non-runtime functions.
func RaceSig(r string) string {
	var fns []string
	want := false
	for _, l := range strings.Split(r, "\n") {
		t := strings.TrimSpace(l)
		if strings.Contains(t, " by ") && (strings.HasPrefix(t, "Read") || strings.HasPrefix(t, "Write") || strings.HasPrefix(t, "Previous") || strings.HasPrefix(t, "Atomic")) {
			want = true
			continue
		}
		if strings.HasPrefix(t, "Goroutine") {
			want = false
		}
		if want && strings.HasSuffix(t, ")") && !strings.HasPrefix(t, "runtime.") && t != "" {
			f := t[:strings.LastIndex(t, "(")]
			if i := strings.LastIndex(f, "/"); i >= 0 {
				f = f[i+1:]
			}
			fns = append(fns, f)
			want = false
		}
	}
	sort.Strings(fns)
	return strings.Join(fns, "|")
}

// Serial runs f outside tasks with a step bound; a library deadlock or an
// unbounded loop there becomes a violation.
func (e *Ep) Serial(what string, max uint64, f func()) {
	simrt.ResetSerial(max)
	defer func() {
		e.Steps += simrt.SerialSteps()
		simrt.ResetSerial(0)
		if r := recover(); r != nil {
			if a, ok := r.(simrt.Abort); ok {
				k := "liveness"
				if strings.Contains(a.Why, "deadlock") {
					k = "deadlock"
				}
				e.Fail(k, k+":"+what, "%s: %s", what, a.Why)
				return
			}
			panic(r)
		}
	}()
	f()
}
