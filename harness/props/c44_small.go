package props

import (
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C38", Rule: "all sequences, to a depth, of asking for each state and time-out by number (inside and around the range), with the named values before, between and after", Run: c38})
	reg(&P{ID: "C44", Rule: "all pairs of Event headers, media types and header kinds over small domains, single, in a list and as a list", Run: c44})
	reg(&P{ID: "C47", Rule: "every seed of every parser, whole, cut at every position and with one byte deleted or doubled, parsed with and without tracing", Run: c47})
	reg(&P{ID: "C48", Rule: "all sequences of logging operations to a depth on files of a scratch directory, in lock step with a record of their content", Run: c48})
}

// enumerated is a state or time-out: its number and its name.
type enumerated interface {
	GetValue() int
	ToString() string
}

type enumKind struct {
	name  string
	get   func(i int) (enumerated, error)
	named []enumerated
	texts []string
}

var enumKinds = []enumKind{
	{"dialog state", func(i int) (enumerated, error) {
		x, err := sip.GetDialogState(i)
		if x == nil {
			return nil, err
		}
		return x, err
	}, []enumerated{sip.DIALOGSTATE_EARLY, sip.DIALOGSTATE_CONFIRMED, sip.DIALOGSTATE_COMPLETED, sip.DIALOGSTATE_TERMINATED},
		[]string{"Early Dialog", "Confirmed Dialog", "Completed Dialog", "Terminated Dialog"}},
	{"transaction state", func(i int) (enumerated, error) {
		x, err := sip.GetTransactionState(i)
		if x == nil {
			return nil, err
		}
		return x, err
	}, []enumerated{sip.TRANSACTIONSTATE_CALLING, sip.TRANSACTIONSTATE_TRYING, sip.TRANSACTIONSTATE_PROCEEDING, sip.TRANSACTIONSTATE_COMPLETED, sip.TRANSACTIONSTATE_CONFIRMED, sip.TRANSACTIONSTATE_TERMINATED},
		[]string{"Calling Transaction", "Trying Transaction", "Proceeding Transaction", "Completed Transaction", "Confirmed Transaction", "Terminated Transaction"}},
	{"time-out", func(i int) (enumerated, error) {
		x, err := sip.GetTimeout(i)
		if x == nil {
			return nil, err
		}
		return x, err
	}, []enumerated{sip.TIMEOUT_RETRANSMIT, sip.TIMEOUT_TRANSACTION}, []string{"Retransmission Timeout", "Transaction Timeout"}},
}

func c38(c *mc.C) {
	type ask struct{ kind, n int }
	var asks []ask
	for k, e := range enumKinds {
		for i := -1; i <= len(e.named); i++ {
			asks = append(asks, ask{k, i})
		}
	}
	check := func(k kk, a ask) {
		e := enumKinds[a.kind]
		what := fmt.Sprintf("%s %d", e.name, a.n)
		x, err := e.get(a.n)
		if a.n < 0 || a.n >= len(e.named) {
			k.ok(what+" is given", err != nil && x == nil)
			return
		}
		k.ok(fmt.Sprintf("%s: %v", what, err), err == nil)
		if x == nil {
			k.ok(what+" is nil", false)
			return
		}
		k.eq(what+": number", x.GetValue(), a.n)
		k.eq(what+": text", x.ToString(), e.texts[a.n])
		k.ok(what+" is not the named value", x == e.named[a.n])
		for i, y := range e.named {
			k.eq(fmt.Sprintf("%s: number of named value %d", e.name, i), y.GetValue(), i)
			k.eq(fmt.Sprintf("%s: text of named value %d", e.name, i), y.ToString(), e.texts[i])
			k.ok(fmt.Sprintf("%s: named values %d and %d are the same", e.name, i, a.n), (x == y) == (i == a.n))
		}
	}
	depth := c.Pick(3, 4)
	c.Bound("sequences of calls", "%d values, depth %d", len(asks), depth)
	sequences(len(asks), depth, func(seq []int) {
		if !c.Mine() {
			return
		}
		key := ""
		for _, i := range seq {
			key += fmt.Sprintf("%s %d, ", enumKinds[asks[i].kind].name, asks[i].n)
		}
		c.Run(key, func() {
			for _, i := range seq {
				c.Step(1)
				check(kk{c, key}, asks[i])
				c.State(fmt.Sprint(asks[i]))
			}
			c.Trace()
		})
	})
	for k := range enumKinds {
		for _, n := range []int{-100, -2, 7, 8, 100, 255, 256, 257, 258, 65536, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 32, 1<<32 + 1} {
			if c.Mine() {
				key := fmt.Sprintf("%s %d", enumKinds[k].name, n)
				c.Run(key, func() { check(kk{c, key}, ask{k, n}); c.Trace() })
			}
		}
	}
}

var onlyRequests = map[string]bool{"Alert-Info": true, "In-Reply-To": true, "Authorization": true, "Max-Forwards": true, "Priority": true, "Proxy-Authorization": true, "Proxy-Require": true, "Route": true, "Subject": true}
var onlyResponses = map[string]bool{"Error-Info": true, "Proxy-Authenticate": true, "Server": true, "Unsupported": true, "Retry-After": true, "Warning": true, "WWW-Authenticate": true}

func c44(c *mc.C) {
	// Event headers
	types := []string{"presence", "Presence", "presence.winfo", "dialog", "p", ""}
	ids := []string{"", "7", "a", "A", "aa"}
	event := func(t, id string) *header.Event {
		e := header.NewEvent()
		if t != "" {
			e.SetEventType(t)
		}
		if id != "" {
			e.SetEventId(id)
		}
		return e
	}
	for _, t := range types {
		for _, i := range ids {
			if !c.Mine() {
				continue
			}
			t, i := t, i
			key := fmt.Sprintf("Event %q id %q", t, i)
			c.Run(key, func() {
				k := kk{c, key}
				es := map[string]*header.Event{"built": event(t, i)}
				if t != "" {
					text := t + ";x=1"
					if i != "" {
						text += ";id=" + i
					}
					es["parsed"] = one("Event", text).(*header.Event)
					if i == "" {
						es["parsed, empty id"] = one("Event", t+";x=1;id").(*header.Event)
					}
					es["cloned"] = es["parsed"].Clone().(*header.Event)
				}
				for how, e := range es {
					k.eq(how+": matches nil", e.Match(nil), false)
					for _, t2 := range types {
						for _, i2 := range ids {
							c.Step(2)
							want := strings.EqualFold(t, t2) && strings.EqualFold(i, i2)
							o := event(t2, i2)
							k.eq(fmt.Sprintf("%s: matches %q id %q", how, t2, i2), e.Match(o), want)
							k.eq(fmt.Sprintf("%s: is matched by %q id %q", how, t2, i2), o.Match(e), want)
							c.Outcome(fmt.Sprint("match: ", want))
						}
					}
				}
				c.Trace()
			})
		}
	}
	// media types
	ms := []string{"text/plain", "Text/PLAIN", "text/html", "text", "text/", "/plain", "text/plainx", "xtext/plain", "plain", "PLAIN", "html", "t/plain", "text/p", "*/*", "text/*", "a/b", ""}
	for _, m := range ms {
		p := strings.Split(m, "/")
		if len(p) != 2 || p[0] == "" || p[1] == "" || !c.Mine() {
			continue
		}
		m := m
		key := "Content-Type " + m
		c.Run(key, func() {
			k := kk{c, key}
			x := one("Content-Type", m+";q=1").(*header.ContentType)
			y := header.NewContentType()
			y.SetContentType(p[0])
			y.SetContentSubType(p[1])
			for _, o := range ms {
				c.Step(2)
				k.eq("compares with "+o, x.CompareMediaRange(o), strings.EqualFold(m, o))
				k.eq("built, compares with "+o, y.CompareMediaRange(o), strings.EqualFold(m, o))
			}
			k.eq("empty one compares with it", header.NewContentType().CompareMediaRange(m), false)
			c.Trace()
		})
	}
	// classes of headers, and whether a Content-Length matches any other
	n := 0
	for _, s := range hspecs {
		s := s
		for _, f := range spread(3, s.forms(c)) {
			n++
			if !c.Mine() {
				continue
			}
			f := f
			key := "class of " + s.name + ": " + f.in
			c.Run(key, func() {
				k := kk{c, key}
				h, err := parseLine(s.name + ": " + f.in + "\n")
				if !c.Check(err == nil, key, "rejected: %v", err) {
					return
				}
				q, r := message.NewSIPRequest(), message.NewSIPResponse()
				look := func(what string, h header.Header) {
					c.Step(1)
					k.eq(what+"only for requests", q.IsRequestHeader(h), onlyRequests[s.name])
					k.eq(what+"only for responses", q.IsResponseHeader(h), onlyResponses[s.name])
					k.eq(what+"only for requests, asked of a response", r.IsRequestHeader(h), onlyRequests[s.name])
					k.eq(what+"only for responses, asked of a response", r.IsResponseHeader(h), onlyResponses[s.name])
				}
				look("", h)
				if l, ok := h.(header.SIPHeaderLister); ok {
					for e := l.Front(); e != nil; e = e.Next() {
						look("an element: ", e.Value.(header.Header))
					}
				}
				look("a clone: ", h.(interface{ Clone() interface{} }).Clone().(header.Header))
				k.eq("a Content-Length matches it", header.NewContentLengthFromInt(5).Match(h), s.name == "Content-Length")
				c.State(fmt.Sprintf("%T", h))
				c.Trace()
			})
		}
	}
	c.Bound("headers", "%d", n)
}

func c47(c *mc.C) {
	n := 0
	try := func(e entry, in string) {
		n++
		if !c.Mine() {
			return
		}
		key := e.name + " " + in
		c.Run(key, func() {
			c.Step(2)
			k := kk{c, key}
			a, err := e.f(in)
			want := render(a, err)
			if err != nil {
				want = err.Error()
			} else {
				want += digest(a)
			}
			got := ""
			traced(func() {
				b, err := e.f(in)
				got = render(b, err)
				if err != nil {
					got = err.Error()
				} else {
					got += digest(b)
				}
			})
			k.eq("with tracing", got, want)
			if c.CaseNo()%7 == 0 { // and none of it stays
				b, err := e.f(in)
				got := render(b, err)
				if err != nil {
					got = err.Error()
				} else {
					got += digest(b)
				}
				k.eq("after tracing", got, want)
			}
			c.Outcome(fmt.Sprint("rejected: ", err != nil))
			c.Trace()
		})
	}
	all := func(e entry, s string) {
		try(e, s)
		step := 1
		if !c.Thorough() && len(s) > 200 {
			step = 5
		}
		for i := 0; i < len(s); i += step {
			try(e, s[:i])
			try(e, s[:i]+s[i+1:])
			try(e, s[:i]+s[i:i+1]+s[i:])
		}
	}
	for _, s := range hdrSeeds {
		all(entries["header"], s)
	}
	for _, s := range uriSeeds {
		all(entries["uri"], s)
		all(entries["url"], s)
		all(entries["sipurl"], s)
	}
	for _, s := range addrSeeds {
		all(entries["address"], s)
	}
	for _, s := range hosts {
		all(entries["host"], s)
		all(entries["hostport"], s+":5060")
		all(entries["corehostport"], s+":1")
	}
	for _, s := range []string{"+1-212;isub=1;x=2", "911;phone-context=+1"} {
		all(entries["tel"], s)
	}
	for _, s := range reqLineSeeds {
		all(entries["reqline"], s)
	}
	for _, s := range statusLineSeeds {
		all(entries["statusline"], s)
	}
	for _, s := range msgSeeds {
		all(entries["message"], s)
	}
	c.Bound("inputs", "%d", n)
}

func c48(c *mc.C) {
	dir, err := ioutil.TempDir("", "gosips-verif-log-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	const sep = " ---------------------------------------------- "
	type lmodel struct {
		files map[string]string
		level int
	}
	type op struct {
		name string
		do   func(w *core.LogWriter, at func(string) string)
		mod  func(m *lmodel)
	}
	var ops []op
	for _, f := range []string{"a.log", "b.log"} {
		for _, t := range []string{"one\n", "", "two \xff\x00", "a much longer message, of more\r\nthan one line"} {
			f, t := f, t
			ops = append(ops, op{fmt.Sprintf("log %q to %s", t, f), func(w *core.LogWriter, at func(string) string) { w.LogMessageToFile(t, at(f)) }, func(m *lmodel) { m.files[f] += sep + t }})
		}
	}
	ops = append(ops,
		op{"log to a file that cannot be made", func(w *core.LogWriter, at func(string) string) { w.LogMessageToFile("x", at("no/such")) }, func(m *lmodel) {}},
		op{"trace everything", func(w *core.LogWriter, at func(string) string) { w.SetTraceLevel(core.TRACE_DEBUG) }, func(m *lmodel) { m.level = 32 }},
		op{"trace messages", func(w *core.LogWriter, at func(string) string) { w.SetTraceLevel(core.TRACE_MESSAGES) }, func(m *lmodel) { m.level = 16 }},
		op{"set the name and log while logging is off", func(w *core.LogWriter, at func(string) string) {
			w.SetLogFileName(at("c.log"))
			w.LogMessage("nothing")
		}, func(m *lmodel) {}},
	)
	depth := c.Pick(3, 4)
	c.Bound("operations", "%d, depth %d", len(ops), depth)
	no := 0
	sequences(len(ops), depth, func(seq []int) {
		if !c.Mine() {
			return
		}
		key := ""
		for _, i := range seq {
			key += ops[i].name + ", "
		}
		c.Run(key, func() {
			k := kk{c, key}
			no++
			d := filepath.Join(dir, fmt.Sprint(no))
			if err := os.Mkdir(d, 0700); err != nil {
				panic(err)
			}
			defer os.RemoveAll(d)
			at := func(n string) string { return filepath.Join(d, n) }
			m := lmodel{files: map[string]string{}}
			if no%2 == 0 { // one that is there already
				m.files["b.log"] = "before"
				ioutil.WriteFile(at("b.log"), []byte("before"), 0600)
			}
			w := &core.LogWriter{}
			keep, _ := syscall.Dup(2)
			null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			for _, i := range seq {
				c.Step(1)
				syscall.Dup3(int(null.Fd()), 2, 0)
				ops[i].do(w, at)
				syscall.Dup3(keep, 2, 0)
				ops[i].mod(&m)
				got := map[string]string{}
				fs, _ := ioutil.ReadDir(d)
				for _, f := range fs {
					b, _ := ioutil.ReadFile(at(f.Name()))
					got[f.Name()] = string(b)
				}
				k.eq("files after "+ops[i].name, fmt.Sprintf("%q", got), fmt.Sprintf("%q", m.files))
				k.eq("trace level after "+ops[i].name, w.GetTraceLevel(), m.level)
				c.State(fmt.Sprint(m))
			}
			syscall.Close(keep)
			null.Close()
			c.Trace()
		})
	})
}
