// Package mc is the exploration framework: it counts what was explored,
// records violations, guards executions of the code under test (panics and
// endless loops), and shards an enumeration over processes.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/vhook"
)

// Violation is one failed case.
type Violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`  // stable identity of the failing input or history
	Case     int64    `json:"case"` // index in the enumeration, for replay
	Detail   string   `json:"detail"`
	History  []string `json:"history,omitempty"`
}

// C is the context one shard explores in.
type C struct {
	Prop     string
	Tier     string
	Shard    int
	NShards  int
	Only     int64 // >=0: run only that case
	Deadline time.Time

	caseNo int64
	polls  int64
	cur    string

	Cases      int64            // cases executed
	Total      int64            // cases in the enumeration (all shards)
	Steps      int64            // operations executed on the implementation
	Evals      int64            // oracle comparisons
	Traces     int64            // complete executions compared with the model
	Distinct   map[uint64]bool  // fingerprints of distinct observed states
	Outcomes   map[string]int64 // how the executions ended, by class
	Truncated  bool
	Violations []Violation
	NViol      int64
	Samples    []string
	Bounds     map[string]string
	Longest    int64 // steps of the code under test in the longest execution
	LongestKey string
	seenKey    map[string]bool

	crumb *os.File
}

// New makes a context.
func New(prop, tier string, shard, n int) *C {
	return &C{Prop: prop, Tier: tier, Shard: shard, NShards: n, Only: -1,
		Distinct: map[uint64]bool{}, Outcomes: map[string]int64{}, Bounds: map[string]string{}, seenKey: map[string]bool{}}
}

// Thorough tells the tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q for quick and t for thorough.
func (c *C) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Bound documents a bound of the exploration.
func (c *C) Bound(name, format string, a ...interface{}) {
	c.Bounds[name] = fmt.Sprintf(format, a...)
}

// SetCrumb makes the context leave a note of the running case, for when the
// process dies.
func (c *C) SetCrumb(f *os.File) { c.crumb = f }

func (c *C) note(s string) {
	if c.crumb != nil {
		if len(s) > 4000 {
			s = s[:4000]
		}
		var b [8]byte
		binary.LittleEndian.PutUint32(b[:], uint32(len(s)))
		c.crumb.WriteAt(append(b[:4], s...), 0)
	}
}

// Stop tells that the deadline has passed.
func (c *C) Stop() bool {
	if c.Truncated {
		return true
	}
	c.polls++
	if !c.Deadline.IsZero() && c.polls&15 == 0 && time.Now().After(c.Deadline) {
		c.Truncated = true
	}
	return c.Truncated
}

// Mine advances the case counter and tells whether this shard runs the case.
func (c *C) Mine() bool {
	n := c.caseNo
	c.caseNo++
	if c.Only >= 0 {
		return n == c.Only
	}
	if c.Stop() {
		return false
	}
	if int(n%int64(c.NShards)) != c.Shard {
		return false
	}
	c.Cases++
	return true
}

// CaseNo is the number of the running case.
func (c *C) CaseNo() int64 { return c.caseNo - 1 }

// TotalCases is how many cases the enumeration has had so far.
func (c *C) TotalCases() int64 { return c.caseNo }

// Fuel is the step budget of one guarded execution (a property that needs
// longer ones raises it).
var Fuel int64 = 400000

// Spent is how much of the budget the last guarded execution used.
var Spent int64

// Guard runs f under a step budget and reports how it died, "" if it did not.
func Guard(f func()) (died string) {
	if Threads { // the scheduler has a budget for all of them
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case vhook.Exhausted, Deadlock:
					panic(r)
				}
				died = fmt.Sprintf("panic: %v at %s", r, where())
			}
		}()
		f()
		return ""
	}
	vhook.Fuel = Fuel
	defer func() {
		Spent = Fuel - vhook.Fuel
		vhook.Fuel = 1 << 62
		if r := recover(); r != nil {
			if _, ok := r.(vhook.Exhausted); ok {
				died = "hang: step budget exhausted at " + where()
				return
			}
			if v, ok := r.(mustFail); ok {
				panic(v)
			}
			died = fmt.Sprintf("panic: %v at %s", r, where())
		}
	}()
	f()
	return ""
}

type mustFail struct{ s string }

// where names the innermost frame in the code under test.
func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/repo/"); i >= 0 && strings.Contains(l, ".go:") && !strings.Contains(l, "/vhook/") {
			if j := strings.Index(l[i:], " +"); j > 0 {
				return l[i+len("/repo/") : i+j]
			}
			return l[i+len("/repo/"):]
		}
	}
	return "?"
}

// Note records what is running, so that a dying process can be explained.
func (c *C) Note(s string) { c.cur = s; c.note(s) }

// Step counts n operations executed on the implementation.
func (c *C) Step(n int) { c.Steps += int64(n) }

// Trace counts one complete execution compared with the model.
func (c *C) Trace() { c.Traces++ }

// State records the fingerprint of an observed state.
func (c *C) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.Distinct[h.Sum64()] = true
}

// Outcome counts a class of endings.
func (c *C) Outcome(s string) { c.Outcomes[s]++ }

// Sample keeps a few examples of what was explored.
func (c *C) Sample(format string, a ...interface{}) {
	if len(c.Samples) < 6 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400]
		}
		c.Samples = append(c.Samples, s)
	}
}

// failFast is the text of the known findings when tools/mutate.py runs a shard:
// the first violation that is not among them ends it.
var failFast = os.Getenv("VERIF_FAST")

// Fail records a violation. key identifies the failing input or history.
func (c *C) Fail(key, format string, a ...interface{}) {
	c.NViol++
	if failFast != "" && !strings.Contains(failFast, strconv.Quote(key)) {
		fmt.Fprintf(os.Stderr, "FAIL %q "+format+"\n", append([]interface{}{key}, a...)...)
		os.Exit(9)
	}
	if c.seenKey[key] {
		return
	}
	c.seenKey[key] = true
	d := fmt.Sprintf(format, a...)
	if len(d) > 4000 {
		d = d[:4000]
	}
	if len(c.Violations) < 3000 {
		c.Violations = append(c.Violations, Violation{Property: c.Prop, Key: key, Case: c.CaseNo(), Detail: d})
	}
}

// Check is one oracle comparison.
func (c *C) Check(ok bool, key, format string, a ...interface{}) bool {
	c.Evals++
	if !ok {
		c.Fail(key, format, a...)
	}
	return ok
}

// Eq compares a value the code gave with the one the model gives.
func (c *C) Eq(key, what string, got, want interface{}) bool {
	c.Evals++
	if got == want {
		return true
	}
	gs, ws := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want)
	if gs == ws {
		return true
	}
	c.Fail(key, "%s: got %s, want %s", what, gs, ws)
	return false
}

// Run guards f; a panic or hang is a violation of the running property.
func (c *C) Run(key string, f func()) bool {
	c.Note(key)
	d := Guard(f)
	if Spent > c.Longest {
		c.Longest, c.LongestKey = Spent, key
	}
	if d != "" {
		c.Evals++
		c.Fail(key, "%s", d)
		return false
	}
	return true
}

// Report is what a shard hands to its parent.
type Report struct {
	Cases, Total, Steps, Evals, Traces, NViol int64
	Distinct                                  []uint64
	Outcomes                                  map[string]int64
	Truncated                                 bool
	Violations                                []Violation
	Samples                                   []string
	Bounds                                    map[string]string
	Longest                                   int64
	LongestKey                                string
}

// Write stores the shard's report.
func (c *C) Write(path string) error {
	r := Report{Cases: c.Cases, Total: c.caseNo, Steps: c.Steps, Evals: c.Evals, Traces: c.Traces, NViol: c.NViol,
		Outcomes: c.Outcomes, Truncated: c.Truncated, Violations: c.Violations, Samples: c.Samples, Bounds: c.Bounds, Longest: c.Longest, LongestKey: c.LongestKey}
	for k := range c.Distinct {
		r.Distinct = append(r.Distinct, k)
	}
	b, err := json.Marshal(r)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
