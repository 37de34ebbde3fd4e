package mc

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/use-go/gosips/vhook"
	"github.com/use-go/gosips/vhook/vsync"
)

// The controlled scheduler: the threads of one execution run one at a time,
// and control passes from one to another only at the scheduling points that
// mode sched puts before every statement, when a lock is not available, and
// when a thread ends.  Control passes through plain variables in functions the
// race detector does not watch, so that scheduling adds no ordering of its own
// between the threads, and an unsynchronised access shows as a race in every
// schedule that separates it from what else orders the threads.

// Switch is a preemption: before scheduling point At (counted over all
// threads), control goes to thread To.
type Switch struct{ At, To int }

type sched struct {
	n     int
	order []int
	plan  []Switch
	k     int
	turn  int
	steps int
	done  []bool
	idle  int // consecutive failed attempts to take a lock
	dead  bool
	ran   []int8 // thread that ran at each scheduling point
	live  []int  // threads not done
}

// Deadlock is the panic value raised in a thread when no thread can go on.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock" }

// Threads tells that threads of the scheduler run.
var Threads bool

var sc *sched

//go:norace
func schedHook() {
	s := sc
	if s == nil {
		return
	}
	me := s.turn
	s.idle = 0
	if len(s.ran) < cap(s.ran) {
		s.ran = s.ran[:len(s.ran)+1]
		s.ran[len(s.ran)-1] = int8(me)
	}
	n := s.steps
	s.steps++
	if s.k < len(s.plan) && n == s.plan[s.k].At {
		to := s.plan[s.k].To
		s.k++
		if to != me && !s.done[to] {
			s.turn = to
			schedWait(s, me)
		}
	}
}

//go:norace
func schedWait(s *sched, me int) {
	for s.turn != me {
		runtime.Gosched()
	}
}

//go:norace
func schedBlock() {
	s := sc
	if s == nil {
		runtime.Gosched()
		return
	}
	me := s.turn
	s.idle++
	if s.idle > 3*s.n {
		s.dead = true
	}
	if s.dead {
		panic(Deadlock{})
	}
	for i := 1; i <= s.n; i++ {
		t := (me + i) % s.n
		if t != me && !s.done[t] {
			s.turn = t
			schedWait(s, me)
			if s.dead {
				panic(Deadlock{})
			}
			return
		}
	}
	s.dead = true
	panic(Deadlock{})
}

//go:norace
func schedEnd(s *sched, me int) {
	s.done[me] = true
	s.idle = 0
	for _, t := range s.order {
		if !s.done[t] {
			s.turn = t
			return
		}
	}
	s.turn = -1
}

//go:norace
func schedBegin(s *sched, me int) { schedWait(s, me) }

//go:norace
func setSched(s *sched) {
	sc = s
	vhook.Fuel = 1 << 62
	if s != nil {
		vhook.Fuel = Fuel * int64(s.n)
	}
}

// Exec is one execution of threads under a schedule.
type Exec struct {
	Out   []string // what each thread returned, or how it died
	Steps int
	Ran   []int8
	Races string // what the race detector reported
}

// Execute runs the threads in the order given (of starting, and of who goes
// on when one ends), with the switches of the plan.
func Execute(threads []func() string, order []int, plan []Switch) Exec {
	vhook.Hook, vsync.Block = schedHook, schedBlock
	n := len(threads)
	s := &sched{n: n, order: order, plan: plan, turn: order[0], done: make([]bool, n), ran: make([]int8, 0, 1<<17)}
	out := make([]string, n)
	ended := make(chan int, n)
	before := raceErrors()
	prev := runtime.GOMAXPROCS(1)
	Threads = true
	setSched(s)
	for i := range threads {
		go func(i int) {
			schedBegin(s, i)
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case vhook.Exhausted:
						out[i] = "hang: step budget exhausted at " + where()
					case Deadlock:
						out[i] = "deadlock at " + where()
					default:
						out[i] = fmt.Sprintf("panic: %v at %s", r, where())
					}
				}
				schedEnd(s, i)
				ended <- i
			}()
			out[i] = threads[i]()
		}(i)
	}
	for range threads {
		<-ended
	}
	setSched(nil)
	Threads = false
	runtime.GOMAXPROCS(prev)
	e := Exec{Out: out, Steps: s.steps, Ran: s.ran}
	if raceErrors() != before {
		e.Races = raceReport()
	}
	return e
}

var raceLogAt int64

// raceReport is what the race detector has written since the last call.
func raceReport() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p := strings.TrimPrefix(f, "log_path="); p != f {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			if int64(len(b)) > raceLogAt {
				r := string(b[raceLogAt:])
				raceLogAt = int64(len(b))
				return r
			}
		}
	}
	return "data race"
}

// Orders are all orders of n threads.
func Orders(n int) (r [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			r = append(r, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(p, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return
}

// Schedules runs every schedule with at most bound preemptions, made every
// stride-th scheduling point, and hands each execution to visit, which tells
// whether to go on.  It returns the number of executions.
func Schedules(mk func() []func() string, bound, stride int, visit func(order []int, plan []Switch, e Exec) bool) (execs int) {
	threads := mk()
	n := len(threads)
	for _, order := range Orders(n) {
		order := order
		stop := false
		var rec func(plan []Switch)
		rec = func(plan []Switch) {
			if stop {
				return
			}
			if threads == nil {
				threads = mk()
			}
			e := Execute(threads, order, plan)
			threads = nil
			execs++
			if !visit(order, plan, e) {
				stop = true
				return
			}
			if len(plan) >= bound {
				return
			}
			from := 0
			if len(plan) > 0 {
				from = plan[len(plan)-1].At + 1
			}
			// the last scheduling point of each thread
			last := make([]int, n)
			for i := range last {
				last[i] = -1
			}
			for i, t := range e.Ran {
				last[t] = i
			}
			first := -1
			for at := from; at < len(e.Ran); at++ {
				if at == 0 {
					continue // another order
				}
				if first < 0 {
					first = at
				}
				if stride > 1 && (at-first)%stride != 0 {
					continue
				}
				for to := 0; to < n; to++ {
					if to != int(e.Ran[at]) && last[to] > at {
						rec(append(append([]Switch{}, plan...), Switch{at, to}))
						if stop {
							return
						}
					}
				}
			}
		}
		rec(nil)
		if stop {
			return
		}
	}
	return
}
