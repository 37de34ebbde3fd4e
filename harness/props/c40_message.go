package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C40", Rule: "all subsets of the mandatory headers in all orders, parsed and built in three ways; all histories of adding and removing them to a depth; start-line methods x CSeq methods x positions of the CSeq line", Run: c40})
	reg(&P{ID: "C41", Rule: "all sequences of operations on the start line to a depth, on fresh and parsed messages, in lock step with a record of its parts", Run: c41})
}

var mandatory = []struct{ name, value string }{
	{"CSeq", "7 OPTIONS"}, {"To", "<sip:t@h>"}, {"From", "<sip:f@h>;tag=1"}, {"Via", "SIP/2.0/UDP h;branch=z9hG4bK1"}, {"Max-Forwards", "70"}, {"Call-ID", "1@h"},
}

type checked interface {
	editable
	CheckHeaders() error
	SetTo(h header.ToHeader)
	SetFrom(h header.FromHeader)
	SetVia(l *header.ViaList)
	SetCallId(h header.CallIdHeader)
	SetMaxForwards(h header.MaxForwardsHeader)
	SetCSeq(h header.CSeqHeader)
}

// complete compares what CheckHeaders says with the headers a message has.
func complete(k kk, what string, m checked, has map[string]bool, request, agree bool) {
	before := m.String()
	err := m.CheckHeaders()
	missing := ""
	for _, h := range mandatory {
		if h.name == "Call-ID" || h.name == "Max-Forwards" && !request {
			continue
		}
		if !has[h.name] {
			missing += " " + h.name
		}
	}
	if missing == "" && agree {
		k.ok(fmt.Sprintf("%s: a complete message is found incomplete: %v", what, err), err == nil)
	} else {
		k.ok(fmt.Sprintf("%s: a message without%s is found complete", what, missing), err != nil)
	}
	if err != nil && missing != "" {
		named := false
		for _, n := range strings.Fields(missing) {
			if strings.Contains(strings.Replace(strings.ToLower(err.Error()), "-", "", -1), strings.Replace(strings.ToLower(n), "-", "", -1)) {
				named = true
			}
		}
		k.ok(fmt.Sprintf("%s: without%s, the error says %q", what, missing, err), named)
	}
	k.eq(what+": the message afterwards", m.String(), before)
}

func emptyMsg(request bool) checked {
	if request {
		q := message.NewSIPRequest()
		q.SetRequestLine(header.NewRequestLineFromString(mustURI("sip:u@h"), "OPTIONS"))
		return q
	}
	s := message.NewSIPResponse()
	s.SetStatusCode(200)
	return s
}

func mustURI(s string) address.URI {
	u, err := parser.NewURLParser(s).Parse()
	if err != nil {
		panic(err)
	}
	return u
}

func c40(c *mc.C) {
	n := len(mandatory)
	starts := map[bool]string{true: "OPTIONS sip:u@h SIP/2.0", false: "SIP/2.0 200 OK"}
	line := func(i int) string { return mandatory[i].name + ": " + mandatory[i].value }
	var visit func(order []int)
	orders := 0
	try := func(order []int) {
		for _, request := range []bool{true, false} {
			for _, way := range []string{"parsed", "parsed between others", "AttachHeader", "AddHeader", "SetHeader", "typed setters", "removed from a complete one"} {
				if !c.Mine() {
					continue
				}
				key := fmt.Sprint(starts[request], " ", way)
				has := map[string]bool{}
				for _, i := range order {
					has[mandatory[i].name] = true
					key += " " + mandatory[i].name
				}
				request, way := request, way
				c.Run(key, func() {
					k := kk{c, key}
					var m checked
					switch way {
					case "parsed", "parsed between others":
						text := starts[request] + "\r\n"
						for _, i := range order {
							if way == "parsed between others" {
								text += "Subject: x\r\n"
							}
							text += line(i) + "\r\n"
						}
						p, err := parseMsg(text + "\r\n")
						if !c.Check(err == nil, key, "%q is rejected: %v", text, err) {
							return
						}
						m = p.(checked)
					case "removed from a complete one":
						m = emptyMsg(request)
						for i := 0; i < n; i++ {
							m.AttachHeader(one(mandatory[i].name, mandatory[i].value))
						}
						complete(k, "before", m, map[string]bool{"CSeq": true, "To": true, "From": true, "Via": true, "Max-Forwards": true}, request, true)
						for _, i := range order {
							m.RemoveHeader(mandatory[i].name)
						}
						left := map[string]bool{}
						for _, h := range mandatory {
							left[h.name] = !has[h.name]
						}
						has = left
					default:
						m = emptyMsg(request)
						for _, i := range order {
							h := one(mandatory[i].name, mandatory[i].value)
							switch way {
							case "AttachHeader":
								m.AttachHeader(h)
							case "AddHeader":
								m.AddHeader(h)
							case "SetHeader":
								m.SetHeader(h)
							default:
								setTyped(m, h)
							}
						}
					}
					c.Step(1)
					complete(k, way, m, has, request, true)
					c.State(fmt.Sprint(has))
					c.Outcome(fmt.Sprint("complete: ", m.CheckHeaders() == nil))
					c.Trace()
				})
			}
		}
	}
	visit = func(order []int) {
		orders++
		try(append([]int{}, order...))
		for i := 0; i < n; i++ {
			used := false
			for _, o := range order {
				used = used || o == i
			}
			if !used {
				visit(append(order, i))
			}
		}
	}
	visit(nil)
	c.Bound("subsets in an order", "%d", orders)

	// histories
	type op struct {
		name string
		do   func(m checked)
		mod  func(has map[string]int)
	}
	var ops []op
	for _, h := range mandatory {
		h := h
		if h.name == "Call-ID" {
			continue
		}
		ops = append(ops, op{"add " + h.name, func(m checked) { m.AddHeader(one(h.name, h.value)) }, func(has map[string]int) {
			if h.name == "Via" {
				has["Via"]++
			} else {
				has[h.name] = 1
			}
		}}, op{"remove " + h.name, func(m checked) { m.RemoveHeader(h.name) }, func(has map[string]int) { has[h.name] = 0 }})
	}
	ops = append(ops, op{"remove the top Via", func(m checked) { m.RemoveHeader2("Via", true) }, func(has map[string]int) {
		if has["Via"] > 0 {
			has["Via"]--
		}
	}}, op{"remove the last Via", func(m checked) { m.RemoveHeader2("via", false) }, func(has map[string]int) {
		if has["Via"] > 0 {
			has["Via"]--
		}
	}})
	depth := c.Pick(3, 4)
	c.Bound("histories", "%d operations, depth %d", len(ops), depth)
	for _, request := range []bool{true, false} {
		request := request
		sequences(len(ops), depth, func(seq []int) {
			if !c.Mine() {
				return
			}
			key := starts[request]
			for _, i := range seq {
				key += ", " + ops[i].name
			}
			c.Run(key, func() {
				k := kk{c, key}
				m := emptyMsg(request)
				has := map[string]int{}
				for _, h := range mandatory {
					m.AttachHeader(one(h.name, h.value))
					has[h.name] = 1
				}
				for _, i := range seq {
					c.Step(1)
					ops[i].do(m)
					ops[i].mod(has)
					b := map[string]bool{}
					for n, x := range has {
						b[n] = x > 0
					}
					complete(k, "after "+ops[i].name, m, b, request, true)
					c.State(fmt.Sprint(b))
				}
				c.Trace()
			})
		})
	}

	// methods
	methods := []string{"OPTIONS", "ACK", "INVITE", "X-y", "OPTION", "OPTIONSS", "-"}
	for _, a := range methods {
		for _, b := range methods {
			for pos := 0; pos <= 9; pos++ {
				if !c.Mine() {
					continue
				}
				a, b, pos := a, b, pos
				key := fmt.Sprintf("start line %s, CSeq %s at %d", a, b, pos)
				c.Run(key, func() {
					k := kk{c, key}
					text := a + " sip:u@h SIP/2.0\r\n"
					q := message.NewSIPRequest()
					q.SetRequestLine(header.NewRequestLineFromString(mustURI("sip:u@h"), a))
					for i := 0; i < 10; i++ {
						if i == pos {
							text += "CSeq: 7 " + b + "\r\n"
							q.AttachHeader(one("CSeq", "7 "+b))
						}
						if i >= 5 && pos > 5 {
							text += fmt.Sprintf("X-%d: e\r\n", i)
						}
						if i < 5 {
							text += line(i+1) + "\r\n"
							q.AttachHeader(one(mandatory[i+1].name, mandatory[i+1].value))
						}
					}
					m, err := parseMsg(text + "\r\n")
					k.ok(fmt.Sprintf("parsing gives the error %v", err), (err == nil) == (a == b))
					if err == nil {
						k.eq("check of the parsed message", fmt.Sprint(m.(checked).CheckHeaders()), "<nil>")
					}
					all := map[string]bool{"CSeq": true, "To": true, "From": true, "Via": true, "Max-Forwards": true}
					complete(k, "built", q, all, true, a == b)
					q.SetMethod(b)
					complete(k, "after SetMethod", q, all, true, true)
					// a response's CSeq method is free
					s, err := parseMsg("SIP/2.0 200 " + a + "\r\n" + strings.SplitN(text, "\r\n", 2)[1] + "\r\n")
					if k.ok(fmt.Sprintf("a response is rejected: %v", err), err == nil) {
						complete(k, "response", s.(checked), all, false, true)
					}
					c.Step(3)
					c.Trace()
				})
			}
		}
	}
}

func setTyped(m checked, h header.Header) {
	switch h := h.(type) {
	case *header.CSeq:
		m.SetCSeq(h)
	case *header.To:
		m.SetTo(h)
	case *header.From:
		m.SetFrom(h)
	case *header.Via:
		l := header.NewViaList()
		l.PushBack(h)
		m.SetVia(l)
	case *header.ViaList:
		m.SetVia(h)
	case *header.MaxForwards:
		m.SetMaxForwards(h)
	case *header.CallID:
		m.SetCallId(h)
	default:
		panic(fmt.Sprintf("%T", h))
	}
}

// sequences gives every sequence of n things of up to the given length.
func sequences(n, depth int, f func(seq []int)) {
	if depth > 0 {
		sequences(n, depth-1, f)
	}
	seq := make([]int, depth)
	for {
		f(append([]int{}, seq...))
		i := depth - 1
		for i >= 0 && seq[i] == n-1 {
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
		seq[i]++
	}
}

// smodel is a start line, if there is one, and the method in the CSeq header.
type smodel struct {
	line                        bool
	method, uri, version, cseq  string
	code                        int
	reason                      string
	hasURI, hasVersion, hasCSeq bool
}

func (m *smodel) make() {
	if !m.line {
		*m = smodel{line: true, version: "SIP/2.0", cseq: m.cseq, hasCSeq: m.hasCSeq}
	}
}

func (m *smodel) request() string {
	if !m.line {
		return ""
	}
	s := ""
	if m.method != "" {
		s += m.method + " "
	}
	if m.uri != "" {
		s += m.uri + " "
	}
	return s + m.version + "\r\n"
}

func (m *smodel) response() string {
	if !m.line {
		return ""
	}
	return fmt.Sprintf("%s %d %s\r\n", m.version, m.code, m.reason)
}

// withParam sets a parameter in the text of a URI that has no headers; one
// that was there moves to the end.
func withParam(uri, name, value string) string {
	var r []string
	for i, p := range strings.Split(uri, ";") {
		if i == 0 || !strings.EqualFold(strings.SplitN(p, "=", 2)[0], name) {
			r = append(r, p)
		}
	}
	return strings.Join(append(r, name+"="+value), ";")
}

// orderless is the text of a URI with its parameters in a fixed order.
func orderless(uri string) string {
	p := strings.Split(uri, ";")
	sort.Strings(p[1:])
	return strings.Join(p, ";")
}

func c41(c *mc.C) {
	if key := "a request whose method has small letters, encoded and parsed again"; c.Mine() {
		c.Run(key, func() {
			m := mustMsg("foo sip:h SIP/2.0\r\nCSeq: 1 foo\r\n\r\n")
			_, err := parseMsg(m.String())
			c.Check(err == nil, key, "%q is rejected: %v", m.String(), err)
		})
	}
	type op struct {
		name string
		do   func(q *message.SIPRequest)
		mod  func(m *smodel)
	}
	var ops []op
	add := func(name string, do func(q *message.SIPRequest), mod func(m *smodel)) {
		ops = append(ops, op{name, do, mod})
	}
	for _, x := range []string{"INVITE", "REGISTER", "foo", ""} {
		x := x
		add("SetMethod "+x, func(q *message.SIPRequest) { q.SetMethod(x) }, func(m *smodel) {
			m.make()
			m.method = x
			if m.hasCSeq && x != "" {
				m.cseq = x
			}
		})
	}
	for _, u := range []string{"sip:v@w:7", "sips:x;user=phone;lr", "tel:+1", "http://a/b"} {
		u := u
		add("SetRequestURI "+u, func(q *message.SIPRequest) { q.SetRequestURI(mustURI(u)) }, func(m *smodel) {
			m.make()
			m.uri = u
		})
	}
	add("SetSIPVersion", func(q *message.SIPRequest) { q.SetSIPVersion("SIP/3.1") }, func(m *smodel) {
		m.make()
		m.version = "SIP/3.1"
	})
	add("SetRequestLine", func(q *message.SIPRequest) {
		q.SetRequestLine(header.NewRequestLineFromString(mustURI("sip:new@h"), "ACK"))
	}, func(m *smodel) { m.line, m.method, m.uri, m.version = true, "ACK", "sip:new@h", "SIP/2.0" })
	add("SetRequestLine empty", func(q *message.SIPRequest) { q.SetRequestLine(header.NewRequestLine()) }, func(m *smodel) { m.line, m.method, m.uri, m.version = true, "", "", "SIP/2.0" })
	add("SetRequestLine nil", func(q *message.SIPRequest) { q.SetRequestLine(nil) }, func(m *smodel) { m.line, m.method, m.uri, m.version = false, "", "", "" })
	add("SetCSeq", func(q *message.SIPRequest) { q.SetCSeq(header.NewCSeq(4, "BYE")) }, func(m *smodel) { m.hasCSeq, m.cseq = true, "BYE" })
	add("RemoveHeader CSeq", func(q *message.SIPRequest) { q.RemoveHeader("CSeq") }, func(m *smodel) { m.hasCSeq, m.cseq = false, "" })
	fill := func(m *smodel) {
		if m.line && m.method == "" && m.hasCSeq {
			m.method = m.cseq
		}
	}
	add("SetRequestLineDefaults", func(q *message.SIPRequest) { q.SetRequestLineDefaults() }, fill)
	add("SetDefaults", func(q *message.SIPRequest) { q.SetDefaults() }, func(m *smodel) {
		if m.line && (m.method == "INVITE" || m.method == "REGISTER") && strings.HasPrefix(m.uri, "sip") {
			m.uri = withParam(withParam(m.uri, "user", "ip"), "transport", "udp")
		}
	})
	add("encode", func(q *message.SIPRequest) { _ = q.String() }, fill)
	starts := []struct {
		name string
		m    smodel
	}{
		{"", smodel{}},
		{"INVITE sip:u@h;transport=tcp SIP/2.0\r\nFrom: <sip:a@b>\r\nCSeq: 1 INVITE\r\nVia: SIP/2.0/UDP h\r\n\r\n", smodel{line: true, method: "INVITE", uri: "sip:u@h;transport=tcp", version: "SIP/2.0", hasCSeq: true, cseq: "INVITE"}},
		{"foo tel:+2 SIP/2.0\r\nTo: <sip:a@b>\r\n\r\n", smodel{line: true, method: "foo", uri: "tel:+2", version: "SIP/2.0"}},
	}
	depth := c.Pick(3, 4)
	c.Bound("operations on a request", "%d, depth %d, from %d states", len(ops), depth, len(starts))
	for _, st := range starts {
		st := st
		sequences(len(ops), depth, func(seq []int) {
			if !c.Mine() {
				return
			}
			key := "new request"
			if st.name != "" {
				key = strings.SplitN(st.name, "\r\n", 2)[0]
			}
			for _, i := range seq {
				key += ", " + ops[i].name
			}
			c.Run(key, func() {
				k := kk{c, key}
				q := message.NewSIPRequest()
				if st.name != "" {
					q = mustMsg(st.name).(*message.SIPRequest)
				}
				m := st.m
				look := func(what string) {
					k.eq(what+"method", q.GetMethod(), m.method)
					u := ""
					if x := q.GetRequestURI(); !isNil(x) {
						u = x.String()
					}
					k.eq(what+"URI", orderless(u), orderless(m.uri))
					if orderless(u) == orderless(m.uri) {
						m.uri = u
					}
					k.eq(what+"version", q.GetSIPVersion(), m.version)
					k.eq(what+"presence of a request line", q.GetRequestLine() != nil, m.line)
					k.eq(what+"first line", q.GetFirstLine(), m.request())
					cs := ""
					if x := q.GetCSeq(); !isNil(x) {
						cs = x.GetMethod()
					}
					k.eq(what+"method of CSeq", cs, m.cseq)
					c.State(fmt.Sprint(m))
				}
				look("")
				for _, i := range seq {
					c.Step(1)
					ops[i].do(q)
					ops[i].mod(&m)
					look("after " + ops[i].name + ": ")
				}
				fill(&m)
				want := m.request() + q.SIPMessage.String()
				// each way of encoding on its own: the first may fill in the method
				switch c.CaseNo() % 3 {
				case 0:
					k.eq("text", q.String(), want)
				case 1:
					k.eq("bytes", string(q.EncodeAsBytes()), want)
				default:
					f := q.GetMessageAsEncodedStrings().Front()
					if m.line {
						k.ok("no encoded strings", f != nil)
						if f != nil {
							k.eq("first encoded string", fmt.Sprint(f.Value), m.request())
						}
					}
				}
				k.eq("text", q.String(), want)
				k.eq("bytes", string(q.EncodeAsBytes()), want)
				look("at the end: ")
				if m.line && m.method != "" && m.uri != "" && m.version == "SIP/2.0" && (m.cseq == "" || m.cseq == m.method && m.cseq == strings.ToUpper(m.cseq)) {
					x, err := parseMsg(q.String())
					if k.ok(fmt.Sprintf("%q is rejected: %v", q.String(), err), err == nil) {
						k.eq("parsed again", x.String(), want)
						c.Outcome("parsed again")
					}
				}
				c.Trace()
			})
		})
	}

	type rop struct {
		name string
		do   func(s *message.SIPResponse)
		mod  func(m *smodel)
	}
	var rops []rop
	radd := func(name string, do func(s *message.SIPResponse), mod func(m *smodel)) {
		rops = append(rops, rop{name, do, mod})
	}
	for _, x := range []int{0, 100, 199, 200, 486, 699} {
		x := x
		radd(fmt.Sprint("SetStatusCode ", x), func(s *message.SIPResponse) { s.SetStatusCode(x) }, func(m *smodel) {
			m.make()
			m.code = x
		})
	}
	for _, x := range []string{"Go on", "", "\xc3\xa9: \"<>\""} {
		x := x
		radd("SetReasonPhrase "+x, func(s *message.SIPResponse) { s.SetReasonPhrase(x) }, func(m *smodel) {
			m.make()
			m.reason = x
		})
	}
	radd("SetSIPVersion", func(s *message.SIPResponse) { s.SetSIPVersion("SIP/3.1") }, func(m *smodel) {
		m.make()
		m.version = "SIP/3.1"
	})
	radd("SetStatusLine", func(s *message.SIPResponse) {
		l := header.NewStatusLine()
		l.SetStatusCode(301)
		l.SetReasonPhrase("Gone")
		s.SetStatusLine(l)
	}, func(m *smodel) { *m = smodel{line: true, version: "SIP/2.0", code: 301, reason: "Gone"} })
	radd("SetStatusLine empty", func(s *message.SIPResponse) { s.SetStatusLine(header.NewStatusLine()) }, func(m *smodel) { *m = smodel{line: true, version: "SIP/2.0"} })
	radd("SetStatusLine nil", func(s *message.SIPResponse) { s.SetStatusLine(nil) }, func(m *smodel) { *m = smodel{} })
	rdepth := c.Pick(3, 5)
	c.Bound("operations on a response", "%d, depth %d", len(rops), rdepth)
	for _, st := range []struct {
		name string
		m    smodel
	}{{"", smodel{}}, {"SIP/2.0 180 Ringing\r\nCSeq: 1 INVITE\r\nSubject: x\r\n\r\n", smodel{line: true, version: "SIP/2.0", code: 180, reason: "Ringing"}}} {
		st := st
		sequences(len(rops), rdepth, func(seq []int) {
			if !c.Mine() {
				return
			}
			key := "new response"
			if st.name != "" {
				key = "parsed response"
			}
			for _, i := range seq {
				key += ", " + rops[i].name
			}
			c.Run(key, func() {
				k := kk{c, key}
				s := message.NewSIPResponse()
				if st.name != "" {
					s = mustMsg(st.name).(*message.SIPResponse)
				}
				rest := s.SIPMessage.String()
				m := st.m
				look := func(what string) {
					k.eq(what+"code", s.GetStatusCode(), m.code)
					k.eq(what+"reason phrase", s.GetReasonPhrase(), m.reason)
					k.eq(what+"version", s.GetSIPVersion(), m.version)
					k.eq(what+"presence of a status line", s.GetStatusLine() != nil, m.line)
					k.eq(what+"first line", s.GetFirstLine(), m.response())
					k.eq(what+"final", s.IsFinalResponse(), m.code >= 200)
					c.State(fmt.Sprint(m))
				}
				look("")
				for _, i := range seq {
					c.Step(1)
					rops[i].do(s)
					rops[i].mod(&m)
					look("after " + rops[i].name + ": ")
				}
				want := m.response() + rest
				k.eq("text", s.String(), want)
				k.eq("bytes", string(s.EncodeAsBytes()), want)
				if f := s.GetMessageAsEncodedStrings().Front(); m.line && k.ok("no encoded strings", f != nil) {
					k.eq("first encoded string", fmt.Sprint(f.Value), m.response())
				}
				if m.line && m.code >= 100 && m.version == "SIP/2.0" {
					x, err := parseMsg(s.String())
					if k.ok(fmt.Sprintf("%q is rejected: %v", s.String(), err), err == nil) {
						k.eq("parsed again", x.String(), want)
						c.Outcome("parsed again")
					}
				}
				c.Trace()
			})
		})
	}
}
