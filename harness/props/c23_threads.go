package props

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/rtp"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	assume := []string{"schedules are explored at statement granularity; memory effects finer than that are covered by the race detector, which watches every schedule"}
	reg(&P{ID: "C23", Mode: "sched", Rule: "all pairs of operations on values of their own, in both orders and with every preemption within the bounds, under a controlled scheduler and the race detector; each operation also with itself as the very first thing a process does; every value and its clone, modified in different threads", Assume: assume, Run: c23})
	reg(&P{ID: "C24", Mode: "sched", Rule: "two and three threads with sequences of draws and seedings of one RTP random generator; every schedule within the preemption bound; the results must be those of some order of the operations", Assume: assume, Run: c24})
	reg(&P{ID: "C50", Mode: "sched", Rule: "all pairs of readers (all accessors, encoding, cloning, ids) of one parsed or built value, in both orders and with every preemption within the bounds, under the race detector", Assume: assume, Run: c50})
}

// lineOp parses, encodes and clones a header.
func lineOp(line string) cop {
	return cop{line, func() string {
		h, err := parseLine(line)
		if err != nil {
			return "error"
		}
		y := h.(interface{ Clone() interface{} }).Clone()
		return h.String() + encOf(y)
	}}
}

// cop is something a thread does with values of its own.
type cop struct {
	name string
	f    func() string
}

const bigRequest = "INVITE sip:bob@biloxi.com:5060;transport=tcp SIP/2.0\r\nVia: SIP/2.0/UDP pc33.com:5070;branch=z9hG4bK776;received=1.2.3.4\r\nv: SIP/2.0/TCP h\r\nMax-Forwards: 70\r\nTo: Bob <sip:bob@biloxi.com>\r\nFrom: \"A \\\"B\" <sip:a@b;x=y>;tag=19\r\nCall-ID: a8@h\r\nCSeq: 3 INVITE\r\nContact: <sip:c@[::1]:1>;q=0.5, <sip:d@e>\r\nRecord-Route: <sip:r@h;lr>\r\nAllow: INVITE, ACK\r\nSubject: x\r\n y\r\nX-E: a, b\r\nContent-Type: text/plain;charset=utf8\r\nContent-Length: 4\r\n\r\nbody"
const bigResponse = "SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP pc33.com;branch=z9hG4bK776\r\nTo: Bob <sip:bob@biloxi.com>;tag=2\r\nFrom: <sip:a@b>;tag=19\r\nCall-ID: a8@h\r\nCSeq: 3 INVITE\r\nRecord-Route: <sip:r@h;lr>\r\nContent-Length: 0\r\n\r\n"

func mustMsg(text string) msgI {
	m, err := parseMsg(text)
	if err != nil {
		panic(err)
	}
	return m
}

func allOf(l interface{ Front() *listElement }) (r string) {
	for e := l.Front(); e != nil; e = e.Next() {
		r += encOf(e.Value) + "|"
	}
	return
}

func encOf(x interface{}) string {
	if s, ok := x.(interface{ String() string }); ok && !isNil(x) {
		return s.String()
	}
	return fmt.Sprint(x)
}

func cops(c *mc.C) (r []cop) {
	op := func(name string, f func() string) { r = append(r, cop{name, f}) }
	op("parse and encode a request", func() string { return mustMsg(bigRequest).String() })
	op("parse a response from bytes and encode it", func() string {
		m := mustMsg(bigResponse)
		return string(m.EncodeAsBytes()) + allOf(asStrings(m))
	})
	op("parse a message with bad lines, listening", func() string {
		p := parser.NewStringMsgParser()
		n := 0
		p.SetParseExceptionListener(counter{&n})
		m, err := p.ParseSIPMessage("BYE sip:h SIP/2.0\r\nTo: <\r\nCSeq: 1 BYE\r\nMax-Forwards: x\r\nSubject: s\r\n\r\n")
		return fmt.Sprint(n, err, m)
	})
	op("parse a malformed message", func() string {
		m, err := parser.NewStringMsgParser().ParseSIPMessage("BYE sip:h SIP/2.0\r\nTo: <\r\n\r\n")
		return fmt.Sprint(isNil(m), err)
	})
	op("make a response", func() string {
		return mustMsg(bigRequest).(*message.SIPRequest).CreateResponse(486).String()
	})
	op("make a CANCEL, a BYE and an ACK", func() string {
		q := mustMsg(bigRequest).(*message.SIPRequest)
		return q.CreateCancelRequest().String() + q.CreateBYERequest(true).String() + q.CreateACKRequest().String()
	})
	op("ids", func() string {
		q := mustMsg(bigRequest).(*message.SIPRequest)
		s := mustMsg(bigResponse).(*message.SIPResponse)
		return q.GetTransactionId() + q.GetDialogId(true) + s.GetTransactionId() + s.GetDialogId(false)
	})
	op("edit the headers and the content of a request", func() string {
		q := mustMsg(bigRequest).(*message.SIPRequest)
		q.RemoveHeader("subject")
		q.AddHeader(one("Via", "SIP/2.0/UDP a"))
		q.SetHeader(one("Contact", "<sip:n@h>"))
		q.SetMethod("BYE")
		ct := header.NewContentType()
		ct.SetContentType("a")
		ct.SetContentSubType("b")
		q.SetContent("other content", ct)
		return q.String()
	})
	op("build a request", func() string {
		q := message.NewSIPRequest()
		rl := header.NewRequestLine()
		rl.SetMethod("OPTIONS")
		u, _ := parser.NewURLParser("sip:u@h").Parse()
		rl.SetUri(u)
		q.SetRequestLine(rl)
		f := header.NewFrom()
		f.SetAddress(mustAddr("<sip:f@h>"))
		f.SetTag("1")
		q.SetFrom(f)
		cs := header.NewCSeq(5, "OPTIONS")
		q.SetCSeq(cs)
		q.SetDefaults()
		return q.String()
	})
	for _, u := range []string{"sip:u:p%41@h:1;a=b;maddr=m?x=y&z=w", "sips:[::1]:2;lr", "tel:+1-2;isub=3;phone-context=a.b", "http://a/b?c"} {
		u := u
		op("URI "+u, func() string {
			x, err := parser.NewURLParser(u).Parse()
			if err != nil {
				return "error"
			}
			y := reflect.ValueOf(x).MethodByName("Clone").Call(nil)[0].Interface()
			return encOf(x) + encOf(y)
		})
	}
	for _, u := range []string{"\"N \\\" M\" <sips:u@h>", "<", "h.example:5060", "[::1]:2", "1.2.3.4"} {
		u := u
		op("address or host "+u, func() string {
			p := parser.NewStringMsgParser()
			a, e1 := p.ParseAddress(u)
			h, e2 := p.ParseHostPort(u)
			return fmt.Sprint(render(a, e1), render(h, e2))
		})
	}
	op("names and values", func() string {
		l := core.NewNameValueList(";")
		l.AddNameAndValue("A", "1")
		l.SetNameValue(core.NewNameValue("b", "2"))
		l.Delete("a")
		l.AddNameAndValue("c", "\"")
		return l.String() + fmt.Sprint(l.GetParameter("B"), l.HasNameValue("c"))
	})
	op("scan", func() string {
		l := core.NewCoreLexer("charLexer", "a \"b\\\"\" (c(d)) 12 tok-en rest\n")
		t := l.GetNextId()
		l.SPorHT()
		q, _ := l.QuotedString()
		l.SPorHT()
		k, _ := l.Comment()
		l.SPorHT()
		n, _ := l.Number()
		return fmt.Sprint(t, q, k, n, l.GetRest())
	})
	op("digests and utilities", func() string {
		return message.ToHexString([]byte{1, 0xab, 0xff}) + message.GetQuotedString("a") + message.ReduceString("A b\tC")
	})
	op("RTP packet", func() string {
		p := &rtpPkt{pt: 3, seq: 4, ts: 5, ssrc: 6, csrcs: []uint32{7, 8}, ext: true, extID: 9, extData: []uint32{10}, payload: []byte{1, 2}}
		x, err := p.build(nil)
		if err != nil {
			return err.Error()
		}
		y, err := receive(x.GetPacket(), true)
		if err != nil {
			return err.Error()
		}
		return y.Dump() + fmt.Sprint(y.GetPacket())
	})
	op("RTP header", func() string {
		h, err := rtp.NewRTPHeaderFromBytes([]byte{0x80, 3, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3})
		if err != nil {
			return err.Error()
		}
		rtp.CheckEndian()
		return fmt.Sprint(h.Encode())
	})
	op("RTCP packets and times", func() string {
		b := rtp.NewRTCPBYEPacket([]byte{0x81, 203, 0, 2, 0, 0, 0, 1, 3, 'a', 'b', 'c'}, 12)
		a := rtp.NewRTCPAPPPacket([]byte{0x81, 204, 0, 2, 0, 0, 0, 1, 'n', 'a', 'm', 'e'}, 12)
		t := rtpTime(5, 6)
		t.Add(rtpTime(1, 999999))
		return fmt.Sprint(b.IsKnownFormat(), string(b.GetReasonData()), a.IsKnownFormat(), a.GetSSRC(), timeOf(t))
	})
	op("RTP random numbers", func() string {
		g := rtp.NewRandomRand48FromSeed(5)
		return fmt.Sprint(g.GetRandom8(), g.GetRandom16(), g.GetRandom32(), g.GetRandomDouble())
	})
	op("RTP collisions", func() string {
		l := rtp.NewCollisionList()
		l.UpdateAddress(rtp.NewHostAddress("a", 1), *rtpTime(1, 1))
		l.Timeout(rtpTime(9, 0), rtpTime(1, 0))
		return fmt.Sprint(l.HasAddress(rtp.NewHostAddress("a", 1)))
	})
	for _, s := range hspecs {
		if c == nil {
			break
		}
		fs := s.forms(c)
		for i := 0; i < c.Pick(1, 3); i++ {
			r = append(r, lineOp(s.name+": "+fs[(i*len(fs)/3+len(fs)/2)%len(fs)].in+"\n"))
		}
	}
	for _, k := range ctors {
		k := k
		op("fresh "+k.name, func() string { return digest(k.f()) })
	}
	return
}

type counter struct{ n *int }

func (k counter) HandleException(err error, m message.Message, headerText, messageText string) error {
	*k.n++
	return nil
}

func mustAddr(s string) address.Address {
	a, err := parser.NewStringMsgParser().ParseAddress(s)
	if err != nil {
		panic(err)
	}
	return a
}

func plan(order []int, p []mc.Switch) string {
	return fmt.Sprintf("starting %v, switching %v", order, p)
}

// outcome judges one execution of threads that should each return want.
func outcome(c *mc.C, key string, order []int, p []mc.Switch, e mc.Exec, want []string) {
	c.Step(e.Steps)
	c.Trace()
	for i, o := range e.Out {
		if o != want[i] {
			c.Fail(key, "%s: thread %d gives %q, alone it gives %q", plan(order, p), i, trim(o), trim(want[i]))
		}
		c.Evals++
	}
	if e.Races != "" {
		c.Fail(key, "%s: %s", plan(order, p), e.Races)
	}
	c.Check(true, key, "")
}

func trim(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// alone is what a thread gives by itself.
func alone(f func() string) string {
	e := mc.Execute([]func() string{f}, []int{0}, nil)
	return e.Out[0]
}

// Cold runs an operation twice at once as the first thing this process does;
// it prints what went wrong, if anything.
func Cold(args []string) {
	at, _ := strconv.Atoi(args[1])
	f := lineOp(args[0]).f
	for _, o := range cops(nil) {
		if o.name == args[0] {
			f = o.f
		}
	}
	var p []mc.Switch
	if at > 0 {
		p = []mc.Switch{{At: at, To: 1}}
	}
	e := mc.Execute([]func() string{f, f}, []int{0, 1}, p)
	want := alone(f)
	fmt.Println("steps", e.Steps)
	for i, o := range e.Out {
		if o != want {
			fmt.Printf("thread %d gives %q, alone it gives %q\n", i, trim(o), trim(want))
		}
	}
	if e.Races != "" {
		fmt.Println(e.Races)
	}
}

func c23(c *mc.C) {
	ops := cops(c)
	if !mc.Race {
		c.Bound("race detector", "off")
	}
	// as the first thing a process does
	ncold := c.Pick(4, 24)
	c.Bound("operations", "%d", len(ops))
	c.Bound("first use", "every operation twice at once in a new process, without preemption and with one at each of %d places", ncold)
	for _, o := range ops {
		if strings.HasPrefix(o.name, "fresh ") {
			continue
		}
		if !c.Mine() {
			continue
		}
		steps := 0
		for j := 0; j <= ncold; j++ {
			at := 0
			if j > 0 {
				at = 1 + (steps/2)*(j-1)/ncold
			}
			key := fmt.Sprintf("first use: %s", o.name)
			c.Note(key)
			b, err := exec.Command(os.Args[0], "cold", o.name, strconv.Itoa(at)).Output()
			s := string(b)
			k := strings.Index(s, "\n")
			if err != nil || !strings.HasPrefix(s, "steps ") || k < 0 {
				c.Fail(key, "preempted at %d: the process died: %v %s", at, err, trim(s))
				break
			}
			if j == 0 {
				steps, _ = strconv.Atoi(s[6:k])
			}
			c.Step(steps)
			c.Trace()
			c.Check(s[k+1:] == "", key, "preempted at %d: %s", at, s[k+1:])
		}
	}
	// pairs
	want := make([]string, len(ops))
	for i, o := range ops {
		want[i] = alone(o.f)
		if strings.Contains(want[i], "panic: ") && !strings.HasPrefix(o.name, "fresh ") {
			c.Fail(o.name, "%s", want[i])
		}
	}
	places := c.Pick(6, 20)
	c.Bound("pairs of operations", "all, in both orders, without preemption and with one at every of %d places evenly spread", places)
	itself := c.Pick(400, 3000)
	c.Bound("an operation with itself", "both orders, without preemption and with one at every scheduling point, of at most %d evenly spread", itself)
	execs := 0
	for i := range ops {
		for j := i; j < len(ops); j++ {
			if strings.HasPrefix(ops[i].name, "fresh ") && i != j || c.Stop() {
				continue
			}
			if !c.Mine() {
				continue
			}
			key := ops[i].name + " and " + ops[j].name
			c.Note(key)
			stride := 1
			n := len(mc.Execute([]func() string{ops[i].f, ops[j].f}, []int{0, 1}, nil).Ran)
			if i != j {
				stride = n/places + 1
			} else {
				stride = n/itself + 1
			}
			execs += mc.Schedules(func() []func() string { return []func() string{ops[i].f, ops[j].f} }, 1, stride, func(order []int, p []mc.Switch, e mc.Exec) bool {
				outcome(c, key, order, p, e, []string{want[i], want[j]})
				return !c.Stop()
			})
			c.State(key)
			if c.CaseNo()%97 == 0 {
				c.Sample("%s: %d scheduling points", key, n)
			}
		}
	}
	// two preemptions
	for i, o := range ops {
		if c.Stop() {
			return
		}
		if !c.Mine() {
			continue
		}
		n := len(mc.Execute([]func() string{o.f, o.f}, []int{0, 1}, nil).Ran)
		if n > c.Pick(60, 200) {
			continue
		}
		c.Bound("an operation with itself, of at most "+strconv.Itoa(c.Pick(60, 200))+" scheduling points in all", "two preemptions at every pair of scheduling points")
		key := o.name + " and itself, twice preempted"
		c.Note(key)
		execs += mc.Schedules(func() []func() string { return []func() string{o.f, o.f} }, 2, 1, func(order []int, p []mc.Switch, e mc.Exec) bool {
			outcome(c, key, order, p, e, []string{want[i], want[i]})
			return !c.Stop()
		})
	}
	c23clones(c)
}

// c23clones: a value and its clone are modified and read in different threads.
func c23clones(c *mc.C) {
	type val struct {
		name string
		mk   func() interface{}
	}
	var vals []val
	seen := map[string]bool{}
	per := map[string]int{}
	cloneables(c, func(name string, mk func() interface{}) {
		kind := name
		if i := strings.IndexAny(name, ":"); i > 0 && !strings.HasPrefix(name, "fresh ") {
			kind = name[:i]
		}
		if seen[name] || per[kind] >= c.Pick(2, 6) {
			return
		}
		seen[name] = true
		per[kind]++
		vals = append(vals, val{name, mk})
	})
	sort.SliceStable(vals, func(i, j int) bool { return vals[i].name < vals[j].name })
	c.Bound("values with a clone", "%d, every modifying call on one, then on the other", len(vals))
	for _, v := range vals {
		if c.Stop() {
			return
		}
		if !c.Mine() {
			continue
		}
		x := v.mk()
		if isNil(x) {
			continue
		}
		m := reflect.ValueOf(x).MethodByName("Clone")
		if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
			continue
		}
		key := "clone in another thread: " + v.name
		c.Note(key)
		muts := mutations(x, 2)
		read := func(x interface{}) string { return digest(x) }
		change := func(x interface{}) string {
			for _, m := range muts {
				mc.Guard(func() { m.do(x) })
			}
			return ""
		}
		before := digest(x)
		mk := func(f, g func(x interface{}) string) func() []func() string {
			return func() []func() string {
				x := v.mk()
				y := reflect.ValueOf(x).MethodByName("Clone").Call(nil)[0].Interface()
				return []func() string{func() string { return f(x) }, func() string { return g(y) }}
			}
		}
		run := func(what string, mk func() []func() string, want []string) {
			n := len(mc.Execute(mk(), []int{0, 1}, nil).Ran)
			mc.Schedules(mk, 1, n/c.Pick(3, 12)+1, func(order []int, p []mc.Switch, e mc.Exec) bool {
				outcome(c, key+what, order, p, e, want)
				return !c.Stop()
			})
		}
		run(", both modified", mk(change, change), []string{"", ""})
		run(", the clone modified", mk(read, change), []string{before, ""})
		run(", the original modified", mk(change, read), []string{"", before})
		c.State(key)
	}
}

// c24: one RTP random generator used by several threads.
func c24(c *mc.C) {
	kinds := []string{"8", "16", "32", "double", "seed 1", "seed 2"}
	draw := func(g *rtp.RandomRand48, what string) string {
		switch what {
		case "8":
			return fmt.Sprint(g.GetRandom8())
		case "16":
			return fmt.Sprint(g.GetRandom16())
		case "32":
			return fmt.Sprint(g.GetRandom32())
		case "double":
			return strconv.FormatFloat(g.GetRandomDouble(), 'g', -1, 64)
		case "seed 1":
			g.SetSeed(0xdeadbeef)
		case "seed 2":
			g.SetSeed(7)
		}
		return ""
	}
	model := func(r *rand48, what string) string {
		switch what {
		case "8":
			return fmt.Sprint(uint8(r.next() >> 40))
		case "16":
			return fmt.Sprint(uint16(r.next() >> 32))
		case "32":
			return fmt.Sprint(uint32(r.next() >> 16))
		case "double":
			return strconv.FormatFloat(float64(r.next())/float64(1<<48), 'g', -1, 64)
		case "seed 1":
			r.seed(0xdeadbeef)
		case "seed 2":
			r.seed(7)
		}
		return ""
	}
	// explained tells whether some order of the operations gives the results.
	var explained func(r rand48, ops [][]string, got [][]string, last string) bool
	explained = func(r rand48, ops, got [][]string, last string) bool {
		more := false
		for i := range ops {
			if len(ops[i]) == 0 {
				continue
			}
			more = true
			n := r
			if model(&n, ops[i][0]) != got[i][0] {
				continue
			}
			ops2, got2 := append([][]string{}, ops...), append([][]string{}, got...)
			ops2[i], got2[i] = ops[i][1:], got[i][1:]
			if explained(n, ops2, got2, last) {
				return true
			}
		}
		if more {
			return false
		}
		return model(&r, "32") == last
	}
	run := func(ops [][]string, bound int) {
		if c.Stop() || !c.Mine() {
			return
		}
		key := fmt.Sprintf("%q", ops)
		c.Note(key)
		var g *rtp.RandomRand48
		var got [][]string
		mk := func() (r []func() string) {
			g = rtp.NewRandomRand48FromSeed(5)
			gg := g
			res := make([][]string, len(ops))
			got = res
			for i := range ops {
				i := i
				r = append(r, func() string {
					var mine []string
					for _, o := range ops[i] {
						mine = append(mine, draw(gg, o))
					}
					res[i] = mine
					return ""
				})
			}
			return
		}
		n := mc.Schedules(mk, bound, 1, func(order []int, p []mc.Switch, e mc.Exec) bool {
			outcome(c, key, order, p, e, make([]string, len(ops)))
			for _, o := range e.Out {
				if o != "" { // died
					return !c.Stop()
				}
			}
			last := draw(g, "32")
			var m rand48
			m.seed(5)
			if !explained(m, ops, got, last) {
				c.Fail(key, "%s: the results %q, and %s afterwards, come from no order of the operations", plan(order, p), got, last)
			}
			c.Check(true, key, "")
			c.State(fmt.Sprint(key, got, last))
			return !c.Stop()
		})
		if c.CaseNo()%97 == 0 {
			c.Sample("%s: %d schedules", key, n)
		}
	}
	var seqs [][]string
	for _, a := range kinds {
		seqs = append(seqs, []string{a})
	}
	for _, a := range kinds {
		for _, b := range kinds {
			seqs = append(seqs, []string{a, b})
		}
	}
	two, three := c.Pick(3, 4), c.Pick(2, 3)
	c.Bound("two threads", "all pairs of sequences of up to two operations of %q, up to %d preemptions", kinds, two)
	for i, a := range seqs {
		for _, b := range seqs[i:] {
			run([][]string{a, b}, two)
		}
	}
	c.Bound("three threads", "all triples of operations, up to %d preemptions", three)
	for i, a := range seqs[:len(kinds)] {
		for j, b := range seqs[i:len(kinds)] {
			for _, d := range seqs[i+j : len(kinds)] {
				run([][]string{a, b, d}, three)
			}
		}
	}
}

// c50: one value read by several threads.
func c50(c *mc.C) {
	type val struct {
		name string
		mk   func() interface{}
	}
	var vals []val
	for _, m := range append([]string{bigRequest, bigResponse}, msgSeeds...) {
		m := m
		vals = append(vals, val{"message " + m, func() interface{} {
			x, err := parseMsg(m)
			if err != nil {
				return nil
			}
			return x
		}})
	}
	vals = append(vals, val{"a request with content as bytes", func() interface{} {
		x := mustMsg(bigRequest).(*message.SIPRequest)
		x.SetMessageContent3("a", "b", []byte("cd"))
		return x
	}})
	seen := map[string]bool{}
	per := map[string]int{}
	var heads []val
	cloneables(c, func(name string, mk func() interface{}) {
		kind := name
		if i := strings.IndexAny(name, ":"); i > 0 && !strings.HasPrefix(name, "fresh ") {
			kind = name[:i]
		}
		if seen[name] || per[kind] >= c.Pick(2, 8) {
			return
		}
		seen[name] = true
		per[kind]++
		heads = append(heads, val{name, mk})
	})
	sort.SliceStable(heads, func(i, j int) bool { return heads[i].name < heads[j].name })
	vals = append(vals, heads...)
	type reader struct {
		name string
		f    func(x interface{}) string
	}
	readers := []reader{
		{"encode", encOf},
		{"read everything", func(x interface{}) string { return digest(x) }},
		{"clone", func(x interface{}) string {
			m := reflect.ValueOf(x).MethodByName("Clone")
			if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
				return ""
			}
			s := ""
			mc.Guard(func() { s = encOf(m.Call(nil)[0].Interface()) })
			return s
		}},
		{"encode a message in other ways, look up its headers", func(x interface{}) string {
			m, ok := x.(msgI)
			if !ok {
				return ""
			}
			r := string(m.EncodeAsBytes()) + allOf(asStrings(m))
			for _, s := range hspecs {
				if m.HasHeader(s.name) {
					r += allOf(m.GetHeaders(s.name))
				}
			}
			switch m := x.(type) {
			case *message.SIPRequest:
				r += m.GetTransactionId() + m.GetDialogId(true) + m.GetDialogId(false) + m.CreateBYERequest(false).String() + m.CreateCancelRequest().String() + m.CreateResponse(200).String()
			case *message.SIPResponse:
				r += m.GetTransactionId() + m.GetDialogId(true) + m.GetDialogId(false)
			}
			return r
		}},
	}
	places := c.Pick(30, 150)
	c.Bound("values", "%d", len(vals))
	c.Bound("schedules", "all pairs of %d readers, both orders, without preemption and with one at each of %d places evenly spread", len(readers), places)
	for _, v := range vals {
		for i := range readers {
			for j := i; j < len(readers); j++ {
				if c.Stop() {
					return
				}
				if !c.Mine() {
					continue
				}
				key := fmt.Sprintf("%s and %s: %s", readers[i].name, readers[j].name, v.name)
				c.Note(key)
				x := v.mk()
				if isNil(x) {
					continue
				}
				want := []string{alone(func() string { return readers[i].f(x) }), alone(func() string { return readers[j].f(v.mk()) })}
				if strings.Contains(want[0], "panic: ") {
					continue
				}
				mk := func() []func() string {
					x := v.mk()
					return []func() string{func() string { return readers[i].f(x) }, func() string { return readers[j].f(x) }}
				}
				n := len(mc.Execute(mk(), []int{0, 1}, nil).Ran)
				mc.Schedules(mk, 1, n/places+1, func(order []int, p []mc.Switch, e mc.Exec) bool {
					outcome(c, key, order, p, e, want)
					return !c.Stop()
				})
				c.State(key)
				if c.CaseNo()%97 == 0 {
					c.Sample("%s: %d scheduling points", key, n)
				}
			}
		}
	}
}
