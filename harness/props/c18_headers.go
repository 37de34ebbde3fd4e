package props

import (
	"container/list"
	"fmt"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C18", Rule: "all sequences of operations that add, attach, set and remove headers, singly and in lists, and of the typed setters, to a depth, on a fresh request and on parsed messages, in lock step with an ordered table of headers", Run: c18})
}

// hent is a header of the model: its canonical name and the bodies of its
// values.
type hent struct {
	name    string
	bodies  []string
	oneLine bool // each value stands in a line of its own
}

// hmodel is the model of a message's headers, in order of appearance.
type hmodel []*hent

func (m hmodel) at(name string) int {
	for i, e := range m {
		if strings.EqualFold(e.name, name) {
			return i
		}
	}
	return -1
}

func (m hmodel) clone() hmodel {
	var r hmodel
	for _, e := range m {
		r = append(r, &hent{e.name, append([]string{}, e.bodies...), e.oneLine})
	}
	return r
}

func (m *hmodel) remove(name string) {
	if i := m.at(name); i >= 0 {
		*m = append(append(hmodel{}, (*m)[:i]...), (*m)[i+1:]...)
	}
}

func (m *hmodel) removeOne(name string, top bool) {
	i := m.at(name)
	if i < 0 {
		return
	}
	e := (*m)[i]
	if top {
		e.bodies = e.bodies[1:]
	} else {
		e.bodies = e.bodies[:len(e.bodies)-1]
	}
	if len(e.bodies) == 0 {
		m.remove(name)
	}
}

func (m *hmodel) set(name string, bodies ...string) {
	m.remove(name)
	*m = append(*m, &hent{name: name, bodies: bodies})
}

// add adds values of a header: in front if top says so. One that may occur
// only once stays as it is.
func (m *hmodel) add(single, top bool, name string, bodies ...string) {
	i := m.at(name)
	switch {
	case i < 0:
		*m = append(*m, &hent{name: name, bodies: bodies})
	case single:
	case top:
		(*m)[i].bodies = append(append([]string{}, bodies...), (*m)[i].bodies...)
	default:
		(*m)[i].bodies = append((*m)[i].bodies, bodies...)
	}
}

func (m hmodel) body(name string) (string, bool) {
	if i := m.at(name); i >= 0 {
		return m[i].bodies[0], true
	}
	return "", false
}

var onePerLine = map[string]bool{"WWW-Authenticate": true, "Proxy-Authenticate": true, "Authorization": true, "Proxy-Authorization": true, "X-E": true}

func (e *hent) text() string {
	if onePerLine[e.name] || e.oneLine {
		s := ""
		for _, b := range e.bodies {
			s += e.name + ": " + b + "\r\n"
		}
		return s
	}
	return e.name + ": " + strings.Join(e.bodies, ",") + "\r\n"
}

func (m hmodel) text() string {
	s := ""
	for _, e := range m {
		if e.name != "Content-Length" {
			s += e.text()
		}
	}
	return s
}

// one parses a header of one value.
func one(name, body string) header.Header {
	h, err := parseLine(name + ": " + body + "\n")
	if err != nil {
		panic(name + ": " + body + ": " + err.Error())
	}
	if l, ok := h.(header.SIPHeaderLister); ok {
		return l.Front().Value.(header.Header)
	}
	return h
}

// listOf parses a header of several values, as a list.
func listOf(name string, bodies ...string) header.Header {
	h, err := parseLine(name + ": " + strings.Join(bodies, ",") + "\n")
	if err != nil {
		panic(err)
	}
	return h
}

type msgOp struct {
	name string
	do   func(m editable)
	mod  func(m *hmodel)
}

type editable interface {
	msgI
	AddHeader(h header.Header)
	AttachHeader(h header.Header) error
	SetHeader(h header.Header) error
	SetHeaders(l *list.List)
	AttachHeader2(h header.Header, replace bool)
	AttachHeader3(h header.Header, replace, top bool) error
	SetHeaderFromSIPHeaderList(l header.SIPHeaderLister)
	SetMinExpiresHeader(h header.MinExpiresHeader)
	SetContentDisposition(h header.ContentDispositionHeader)
	SetContentEncoding(h header.ContentEncodingHeader)
	SetContentLanguage(h header.ContentLanguageHeader)
	RemoveHeader(n string)
	RemoveHeader2(n string, top bool)
	SetVia(l *header.ViaList)
	SetFrom(h header.FromHeader)
	SetTo(h header.ToHeader)
	SetCallId(h header.CallIdHeader)
	SetCallIdFromString(s string)
	SetMaxForwards(h header.MaxForwardsHeader)
	SetCSeq(h header.CSeqHeader)
	SetExpires(h header.ExpiresHeader)
	SetFromTag(t string)
	SetToTag(t string)
	GetFromTag() string
	GetToTag() string
	HasFromTag() bool
	HasToTag() bool
	GetCSeqNumber() int
	GetCallIdentifier() string
	GetTopmostVia() *header.Via
	GetViaHeaders() *header.ViaList
	GetContactHeaders() *header.ContactList
	GetRouteHeaders() *header.RouteList
	GetRecordRouteHeaders() *header.RecordRouteList
	GetFrom() header.FromHeader
	GetTo() header.ToHeader
	GetCallId() header.CallIdHeader
	GetCSeq() header.CSeqHeader
	GetMaxForwards() header.MaxForwardsHeader
	GetExpires() header.ExpiresHeader
	GetContentDisposition() header.ContentDispositionHeader
	GetContentEncoding() header.ContentEncodingHeader
	GetContentLanguage() header.ContentLanguageHeader
	GetContentTypeHeader() header.ContentTypeHeader
	GetErrorInfoHeaders() *header.ErrorInfoList
	GetAuthorization() *header.Authorization
	GetProxyAuthorizationHeader() *header.ProxyAuthorization
	GetMinExpires() *header.MinExpires
	GetOrganizationHeader() *header.Organization
	GetPriorityHeader() *header.Priority
}

// setTag is what setting a tag does to the text of a From or To.
func setTag(m *hmodel, name, tag string) {
	i := m.at(name)
	if i < 0 {
		return
	}
	b := m.bodyOf(i)
	if j := strings.Index(b, ";tag="); j >= 0 {
		(*m)[i].bodies[0] = b[:j] + ";tag=" + tag
	} else {
		(*m)[i].bodies[0] = b + ";tag=" + tag
	}
}

func (m hmodel) bodyOf(i int) string { return m[i].bodies[0] }

func headerOps(thorough bool) (ops []msgOp) {
	type kind struct {
		name   string
		single bool
		vals   [3]string
	}
	kinds := []kind{
		{"Via", false, [3]string{"SIP/2.0/UDP a;branch=z9hG4bK1", "SIP/2.0/TCP b:1", "SIP/2.0/UDP c"}},
		{"Contact", false, [3]string{"<sip:a@h>", "\"B\" <sip:b@h>;q=0.5", "<sip:c@h>"}},
		{"Subject", true, [3]string{"one", "two, three", "four"}},
		{"From", true, [3]string{"<sip:a@h>;tag=1", "<sip:b@h>", "\"C\" <sip:c@h>;tag=3"}},
		{"X-E", false, [3]string{"1", "2, 3", "4"}},
		{"Authorization", false, [3]string{`Digest realm="a"`, `Digest realm="b"`, `Digest realm="c"`}},
	}
	if thorough {
		kinds = append(kinds,
			kind{"To", true, [3]string{"<sip:a@h>;tag=1", "<sip:b@h>", "\"C\" <sip:c@h>;tag=3"}},
			kind{"CSeq", true, [3]string{"1 INVITE", "2 INVITE", "3 FOO"}},
			kind{"Record-Route", false, [3]string{"<sip:a@h>", "<sip:b@h;lr>", "<sip:c@h>"}},
		)
	}
	op := func(name string, do func(m editable), mod func(m *hmodel)) { ops = append(ops, msgOp{name, do, mod}) }
	for _, k := range kinds {
		k := k
		n, v := k.name, k.vals
		for i := 0; i < 2; i++ {
			b := v[i]
			op("AddHeader "+n+": "+b, func(m editable) { m.AddHeader(one(n, b)) }, func(m *hmodel) { m.add(k.single, n == "Via", n, b) })
		}
		op("AttachHeader "+n+": "+v[2], func(m editable) { m.AttachHeader(one(n, v[2])) }, func(m *hmodel) { m.add(k.single, false, n, v[2]) })
		op("SetHeader "+n+": "+v[1], func(m editable) { m.SetHeader(one(n, v[1])) }, func(m *hmodel) { m.set(n, v[1]) })
		if !k.single && n != "X-E" && n != "Authorization" {
			op("AttachHeader list "+n, func(m editable) { m.AttachHeader(listOf(n, v[0], v[2])) }, func(m *hmodel) { m.add(false, false, n, v[0], v[2]) })
			op("SetHeader list "+n, func(m editable) { m.SetHeader(listOf(n, v[2], v[0])) }, func(m *hmodel) { m.set(n, v[2], v[0]) })
		}
		op("RemoveHeader "+n, func(m editable) { m.RemoveHeader(mixed(n)) }, func(m *hmodel) { m.remove(n) })
		op("RemoveHeader2 first "+n, func(m editable) { m.RemoveHeader2(strings.ToUpper(n), true) }, func(m *hmodel) { m.removeOne(n, true) })
		op("RemoveHeader2 last "+n, func(m editable) { m.RemoveHeader2(strings.ToLower(n), false) }, func(m *hmodel) { m.removeOne(n, false) })
	}
	op("SetVia", func(m editable) {
		m.SetVia(listOf("Via", "SIP/2.0/UDP x", "SIP/2.0/UDP y;branch=z9hG4bK2").(*header.ViaList))
	}, func(m *hmodel) { m.set("Via", "SIP/2.0/UDP x", "SIP/2.0/UDP y;branch=z9hG4bK2") })
	op("SetFrom", func(m editable) { m.SetFrom(one("From", "<sip:f@h>;tag=f").(header.FromHeader)) }, func(m *hmodel) { m.set("From", "<sip:f@h>;tag=f") })
	op("SetTo", func(m editable) { m.SetTo(one("To", "<sip:t@h>").(header.ToHeader)) }, func(m *hmodel) { m.set("To", "<sip:t@h>") })
	op("SetCallId", func(m editable) { m.SetCallId(one("Call-ID", "c@h").(header.CallIdHeader)) }, func(m *hmodel) { m.set("Call-ID", "c@h") })
	op("SetCallIdFromString", func(m editable) { m.SetCallIdFromString("d") }, func(m *hmodel) {
		if i := m.at("Call-ID"); i >= 0 {
			(*m)[i].bodies = []string{"d"}
		} else {
			m.set("Call-ID", "d")
		}
	})
	op("SetCallIdFromString of nothing", func(m editable) { m.SetCallIdFromString("") }, func(m *hmodel) {})
	op("SetMaxForwards", func(m editable) { m.SetMaxForwards(one("Max-Forwards", "7").(header.MaxForwardsHeader)) }, func(m *hmodel) { m.set("Max-Forwards", "7") })
	op("SetCSeq", func(m editable) { m.SetCSeq(one("CSeq", "9 BYE").(header.CSeqHeader)) }, func(m *hmodel) { m.set("CSeq", "9 BYE") })
	op("SetExpires", func(m editable) { m.SetExpires(one("Expires", "60").(header.ExpiresHeader)) }, func(m *hmodel) { m.set("Expires", "60") })
	op("SetFromTag", func(m editable) { m.SetFromTag("zz") }, func(m *hmodel) { setTag(m, "From", "zz") })
	op("SetFromTag again", func(m editable) { m.SetFromTag("Z1") }, func(m *hmodel) { setTag(m, "From", "Z1") })
	op("SetToTag again", func(m editable) { m.SetToTag("Y1") }, func(m *hmodel) { setTag(m, "To", "Y1") })
	op("SetToTag", func(m editable) { m.SetToTag("yy") }, func(m *hmodel) { setTag(m, "To", "yy") })
	op("SetHeaders", func(m editable) {
		l := list.New()
		l.PushBack(one("Subject", "many"))
		l.PushBack(one("Via", "SIP/2.0/UDP m"))
		l.PushBack(one("X-E", "m"))
		m.SetHeaders(l)
	}, func(m *hmodel) {
		m.add(true, false, "Subject", "many")
		m.add(false, false, "Via", "SIP/2.0/UDP m")
		m.add(false, false, "X-E", "m")
	})
	op("AttachHeader empty list", func(m editable) { m.AttachHeader(header.NewContactList()) }, func(m *hmodel) {})
	op("SetHeader empty list", func(m editable) { m.SetHeader(header.NewContactList()) }, func(m *hmodel) {})
	op("RemoveHeader of none", func(m editable) { m.RemoveHeader("Sub"); m.RemoveHeader2("X-", true) }, func(m *hmodel) {})
	return
}

func c18(c *mc.C) {
	ops := headerOps(c.Thorough())
	depth := 3
	starts := []struct {
		text string
		mod  hmodel
	}{
		{"", hmodel{{name: "Content-Length", bodies: []string{"0"}}}},
		{"SIP/2.0 200 OK\r\nv: SIP/2.0/UDP p\r\nSubject: s\r\nVia: SIP/2.0/UDP q;branch=z\r\nContact: <sip:p@h>, <sip:q@h>\r\nTo: <sip:t@h>\r\nCSeq: 5 INVITE\r\n\r\n",
			hmodel{{name: "Content-Length", bodies: []string{"0"}}, {name: "Via", bodies: []string{"SIP/2.0/UDP p", "SIP/2.0/UDP q;branch=z"}}, {name: "Subject", bodies: []string{"s"}}, {name: "Contact", bodies: []string{"<sip:p@h>", "<sip:q@h>"}}, {name: "To", bodies: []string{"<sip:t@h>"}}, {name: "CSeq", bodies: []string{"5 INVITE"}}}},
	}
	c.Bound("operations", "all sequences of up to %d of %d, from %d messages", depth, len(ops), len(starts))
	var rec func(seq []int)
	rec = func(seq []int) {
		for _, s := range starts {
			if !c.Mine() {
				continue
			}
			names := ""
			for _, i := range seq {
				names += ops[i].name + "; "
			}
			key := fmt.Sprintf("%.8q: %s", s.text, names)
			c.Run(key, func() {
				var m editable
				if s.text == "" {
					m = message.NewSIPRequest()
				} else {
					x, err := parseMsg(s.text)
					if err != nil {
						c.Fail(key, "%v", err)
						return
					}
					m = x.(editable)
				}
				mod := s.mod.clone()
				for _, i := range seq {
					c.Step(1)
					ops[i].do(m)
					ops[i].mod(&mod)
				}
				observeHeaders(kk{c, key}, m, mod)
				c.State(mod.text())
				c.Trace()
				if c.CaseNo()%99991 == 0 {
					c.Sample("%s -> %q", key, mod.text())
				}
			})
		}
		if len(seq) < depth {
			for i := range ops {
				rec(append(append([]int{}, seq...), i))
			}
		}
	}
	rec(nil)
	kindOps(c)
	valueOps(c)
}

// typedSetters set a header that may occur once.
var typedSetters = map[string]func(m editable, h header.Header){
	"From":                func(m editable, h header.Header) { m.SetFrom(h.(header.FromHeader)) },
	"To":                  func(m editable, h header.Header) { m.SetTo(h.(header.ToHeader)) },
	"Call-ID":             func(m editable, h header.Header) { m.SetCallId(h.(header.CallIdHeader)) },
	"CSeq":                func(m editable, h header.Header) { m.SetCSeq(h.(header.CSeqHeader)) },
	"Max-Forwards":        func(m editable, h header.Header) { m.SetMaxForwards(h.(header.MaxForwardsHeader)) },
	"Expires":             func(m editable, h header.Header) { m.SetExpires(h.(header.ExpiresHeader)) },
	"Min-Expires":         func(m editable, h header.Header) { m.SetMinExpiresHeader(h.(header.MinExpiresHeader)) },
	"Content-Disposition": func(m editable, h header.Header) { m.SetContentDisposition(h.(header.ContentDispositionHeader)) },
	"Content-Encoding":    func(m editable, h header.Header) { m.SetContentEncoding(h.(header.ContentEncodingHeader)) },
	"Content-Language":    func(m editable, h header.Header) { m.SetContentLanguage(h.(header.ContentLanguageHeader)) },
	"Via":                 func(m editable, h header.Header) { m.SetVia(listOf("Via", h.EncodeBody()).(*header.ViaList)) },
}

// valueOps puts headers with values from all over their grammar into messages
// that have one of that kind, and into messages that have none.
func valueOps(c *mc.C) {
	n := 0
	for _, s := range hspecs {
		s := s
		if s.name == "Content-Length" {
			continue
		}
		v := s.three(c)[0]
		single := !s.list && !s.ext && !onePerLine[s.name]
		for _, f := range spread(c.Pick(40, 800), s.forms(c)) {
			b := f.out
			if !fits(s, f) || b == "" || strings.Contains(b, "\n") || s.name == "Contact" && b == "*" {
				continue
			}
			if h, err := parseLine(s.name + ": " + b + "\n"); err != nil || h.String() != s.name+": "+b+"\r\n" {
				continue // more than one value, or one that another property asks about
			} else if l, ok := h.(header.SIPHeaderLister); ok && l.Len() != 1 {
				continue
			}
			n++
			for way := 0; way < 8; way++ {
				if !c.Mine() {
					continue
				}
				there, typed := way%2 == 1, way == 6 || way == 7
				set := typedSetters[s.name]
				if typed && set == nil {
					continue
				}
				key := fmt.Sprintf("%s: %s, way %d", s.name, b, way)
				c.Run(key, func() {
					m := editable(message.NewSIPRequest())
					mod := hmodel{{name: "Content-Length", bodies: []string{"0"}}}
					m.AddHeader(one("X-A", "1"))
					mod.add(false, false, "X-A", "1")
					if there {
						m.AddHeader(one(s.name, v))
						mod.add(single, false, s.name, v)
					}
					c.Step(1)
					h := one(s.name, b)
					switch way / 2 {
					case 0:
						m.AddHeader(h)
						mod.add(single, s.name == "Via", s.name, b)
					case 1:
						m.SetHeader(h)
						mod.set(s.name, b)
					case 2:
						m.AttachHeader(h)
						mod.add(single, false, s.name, b)
					case 3:
						set(m, h)
						mod.set(s.name, b)
					}
					m.AddHeader(one("X-B", "2"))
					mod.add(false, false, "X-B", "2")
					for _, e := range mod {
						e.oneLine = s.ext && e.name == s.name || e.name[0] == 'X'
					}
					observe(kk{c, key}, m, mod, []string{s.name, "X-A", "X-B", "Content-Length"})
					m.RemoveHeader(s.name)
					mod.remove(s.name)
					observe(kk{c, key}, m, mod, []string{s.name, "X-A", "X-B", "Content-Length"})
					c.State(mod.text())
					c.Trace()
				})
			}
		}
	}
	c.Bound("values", "%d values of all headers, put in in four ways", n)
}

// three picks three values of a kind that are told apart by what they encode
// to.
func (s *hspec) three(c *mc.C) (v [3]string) {
	n := 0
	for _, f := range s.forms(c) {
		if n < 3 && f.out != "" && !strings.Contains(f.out, "\n") && (n < 1 || f.out != v[0]) && (n < 2 || f.out != v[1]) {
			if h, err := parseLine(s.name + ": " + f.out + "\n"); err == nil && h.String() == s.name+": "+f.out+"\r\n" {
				v[n] = f.out
				n++
			}
		}
	}
	return
}

// kindOps explores the operations on one kind of header, for every kind, with
// another header before or behind it.
func kindOps(c *mc.C) {
	depth := 3
	for _, s := range hspecs {
		s := s
		n := s.name
		if n == "Content-Length" {
			continue
		}
		v := s.three(c)
		if v[2] == "" {
			panic("no three values of " + n)
		}
		single := !s.list && !s.ext && !onePerLine[n]
		oneLine := onePerLine[n] || s.ext
		var ops []msgOp
		op := func(name string, do func(m editable), mod func(m *hmodel)) { ops = append(ops, msgOp{name, do, mod}) }
		op("add first", func(m editable) { m.AddHeader(one(n, v[0])) }, func(m *hmodel) { m.add(single, n == "Via", n, v[0]) })
		op("add second", func(m editable) { m.AddHeader(one(n, v[1])) }, func(m *hmodel) { m.add(single, n == "Via", n, v[1]) })
		op("attach third", func(m editable) { m.AttachHeader(one(n, v[2])) }, func(m *hmodel) { m.add(single, false, n, v[2]) })
		op("attach second without replacing", func(m editable) { m.AttachHeader2(one(n, v[1]), false) }, func(m *hmodel) { m.add(single, false, n, v[1]) })
		op("attach second in place", func(m editable) { m.AttachHeader2(one(n, v[1]), true) }, func(m *hmodel) { m.set(n, v[1]) })
		op("attach third at the top", func(m editable) { m.AttachHeader3(one(n, v[2]), false, true) }, func(m *hmodel) { m.add(single, true, n, v[2]) })
		op("attach third at the top in place", func(m editable) { m.AttachHeader3(one(n, v[2]), true, true) }, func(m *hmodel) { m.set(n, v[2]) })
		op("set second", func(m editable) { m.SetHeader(one(n, v[1])) }, func(m *hmodel) { m.set(n, v[1]) })
		if s.list {
			op("attach list", func(m editable) { m.AttachHeader(listOf(n, v[0], v[2])) }, func(m *hmodel) { m.add(false, false, n, v[0], v[2]) })
			op("attach list at the top", func(m editable) { m.AttachHeader3(listOf(n, v[1], v[0]), false, true) }, func(m *hmodel) { m.add(false, true, n, v[1], v[0]) })
			op("set list", func(m editable) { m.SetHeader(listOf(n, v[2], v[0])) }, func(m *hmodel) { m.set(n, v[2], v[0]) })
			op("set from list", func(m editable) { m.SetHeaderFromSIPHeaderList(listOf(n, v[1], v[0]).(header.SIPHeaderLister)) }, func(m *hmodel) { m.set(n, v[1], v[0]) })
		}
		switch n {
		case "Min-Expires":
			op("typed setter", func(m editable) { m.SetMinExpiresHeader(one(n, v[2]).(header.MinExpiresHeader)) }, func(m *hmodel) { m.set(n, v[2]) })
		case "Content-Disposition":
			op("typed setter", func(m editable) { m.SetContentDisposition(one(n, v[2]).(header.ContentDispositionHeader)) }, func(m *hmodel) { m.set(n, v[2]) })
		case "Content-Encoding":
			op("typed setter", func(m editable) { m.SetContentEncoding(one(n, v[2]).(header.ContentEncodingHeader)) }, func(m *hmodel) { m.set(n, v[2]) })
		case "Content-Language":
			op("typed setter", func(m editable) { m.SetContentLanguage(one(n, v[2]).(header.ContentLanguageHeader)) }, func(m *hmodel) { m.set(n, v[2]) })
		}
		op("remove", func(m editable) { m.RemoveHeader(mixed(n)) }, func(m *hmodel) { m.remove(n) })
		op("remove the first", func(m editable) { m.RemoveHeader2(strings.ToUpper(n), true) }, func(m *hmodel) { m.removeOne(n, true) })
		op("remove the last", func(m editable) { m.RemoveHeader2(strings.ToLower(n), false) }, func(m *hmodel) { m.removeOne(n, false) })
		o, ov := "X-O", "o"
		op("add another", func(m editable) { m.AddHeader(one(o, ov)) }, func(m *hmodel) { m.add(false, false, o, ov) })
		names := []string{n, "X-O", "Content-Length"}
		c.Bound("operations on "+n, "all sequences of up to %d of %d", depth, len(ops))
		sequences(len(ops), depth, func(seq []int) {
			for _, parsed := range []bool{false, true} {
				if !c.Mine() {
					continue
				}
				key := fmt.Sprintf("%s (parsed %v): ", n, parsed)
				for _, i := range seq {
					key += ops[i].name + "; "
				}
				c.Run(key, func() {
					var m editable
					var mod hmodel
					if parsed {
						x, err := parseMsg("SIP/2.0 200 OK\r\nX-A: 1\r\n" + n + ": " + v[0] + "\r\nX-B: 2\r\n\r\n")
						if err != nil {
							c.Fail(key, "%v", err)
							return
						}
						m = x.(editable)
						mod = hmodel{{name: "Content-Length", bodies: []string{"0"}}, {name: "X-A", bodies: []string{"1"}}, {name: n, bodies: []string{v[0]}}, {name: "X-B", bodies: []string{"2"}}}
					} else {
						m = message.NewSIPRequest()
						mod = hmodel{{name: "Content-Length", bodies: []string{"0"}}}
					}
					for _, i := range seq {
						c.Step(1)
						ops[i].do(m)
						ops[i].mod(&mod)
					}
					for _, e := range mod {
						e.oneLine = oneLine && e.name == n || e.name[0] == 'X'
					}
					observe(kk{c, key}, m, mod, names)
					c.State(mod.text())
					c.Trace()
				})
			}
		})
	}
}

func hstr(h header.Header) string {
	if isNil(h) {
		return ""
	}
	return h.EncodeBody()
}

func bodies(l interface {
	Front() *list.Element
}) string {
	s := ""
	if isNil(l) {
		return s
	}
	for e := l.Front(); e != nil; e = e.Next() {
		h, ok := e.Value.(header.Header)
		if !ok {
			return fmt.Sprintf("%T", e.Value)
		}
		s += h.EncodeBody() + "|"
	}
	return s
}

func observeHeaders(k kk, m editable, mod hmodel) {
	observe(k, m, mod, []string{"Via", "Contact", "Subject", "From", "To", "X-E", "Authorization", "CSeq", "Call-ID", "Max-Forwards", "Expires", "Record-Route", "Route", "Content-Length"})
}

func observe(k kk, m editable, mod hmodel, names []string) {
	line := ""
	switch x := m.(type) {
	case *message.SIPRequest:
		line = x.GetFirstLine()
	case *message.SIPResponse:
		line = x.GetFirstLine()
	}
	text := line + mod.text() + "Content-Length: 0\r\n\r\n"
	k.eq("encoding", m.String(), text)
	k.eq("encoding as bytes", string(m.EncodeAsBytes()), text)
	n := m.GetHeaderNames()
	var got, want []string
	for e := n.Front(); e != nil; e = e.Next() {
		h, ok := e.Value.(header.Header)
		if !ok {
			k.ok(fmt.Sprintf("a header is a %T", e.Value), false)
			return
		}
		got = append(got, h.GetName())
	}
	var encs []string
	if line != "" {
		encs = append(encs, line)
	}
	for _, e := range mod {
		want = append(want, e.name)
		for _, b := range e.bodies {
			encs = append(encs, e.name+": "+b+"\r\n")
		}
	}
	k.eq("headers", strings.Join(got, "|"), strings.Join(want, "|"))
	var ss []string
	for e := asStrings(m).Front(); e != nil; e = e.Next() {
		s, _ := e.Value.(string)
		ss = append(ss, s)
	}
	k.eq("encoded strings", strings.Join(ss, "|"), strings.Join(encs, "|"))
	for _, name := range names {
		i := mod.at(name)
		for _, n := range []string{name, strings.ToLower(name), mixed(name)} {
			k.eq("has "+n, m.HasHeader(n), i >= 0)
			if i < 0 {
				k.ok("there is a "+n, isNil(m.GetHeader(n)))
				if l := m.GetHeaders(n); !isNil(l) && l.Len() != 0 {
					k.ok("there are headers "+n, false)
				}
				continue
			}
			k.eq(n, hstr(m.GetHeader(n)), mod[i].bodies[0])
			k.eq("all "+n, bodies(m.GetHeaders(n)), strings.Join(mod[i].bodies, "|")+"|")
			k.eq("list of "+n, bodies(m.GetHeaderList(n)), strings.Join(mod[i].bodies, "|")+"|")
		}
	}
	all := func(name string) string {
		if i := mod.at(name); i >= 0 {
			return strings.Join(mod[i].bodies, "|") + "|"
		}
		return ""
	}
	first := func(name string) string { s, _ := mod.body(name); return s }
	k.eq("vias", bodies(m.GetViaHeaders()), all("Via"))
	if v := m.GetTopmostVia(); v == nil {
		k.eq("top via", "", first("Via"))
	} else {
		k.eq("top via", v.EncodeBody(), first("Via"))
	}
	if r, ok := m.(*message.SIPRequest); ok {
		// The sent-by of a Via is what follows its first word.
		host, port := "", 5060
		if f := strings.Fields(first("Via")); len(f) > 1 {
			at, _, _ := strings.Cut(f[1], ";")
			if i := strings.LastIndex(at, ":"); i > strings.LastIndex(at, "]") {
				port, _ = strconv.Atoi(at[i+1:])
				at = at[:i]
			}
			host = at
		}
		k.eq("host and port of the top via", fmt.Sprint(r.GetViaHost(), " ", r.GetViaPort()), fmt.Sprint(host, " ", port))
	}
	k.eq("contacts", bodies(m.GetContactHeaders()), all("Contact"))
	k.eq("routes", bodies(m.GetRouteHeaders()), all("Route"))
	k.eq("record routes", bodies(m.GetRecordRouteHeaders()), all("Record-Route"))
	k.eq("error infos", bodies(m.GetErrorInfoHeaders()), all("Error-Info"))
	k.eq("from", hstr(m.GetFrom()), first("From"))
	k.eq("to", hstr(m.GetTo()), first("To"))
	k.eq("call id", hstr(m.GetCallId()), first("Call-ID"))
	k.eq("call identifier", m.GetCallIdentifier(), first("Call-ID"))
	k.eq("cseq", hstr(m.GetCSeq()), first("CSeq"))
	k.eq("max forwards", hstr(m.GetMaxForwards()), first("Max-Forwards"))
	k.eq("expires", hstr(m.GetExpires()), first("Expires"))
	if a := m.GetAuthorization(); a == nil {
		k.eq("authorization", "", first("Authorization"))
	} else {
		k.eq("authorization", a.EncodeBody(), first("Authorization"))
	}
	for _, x := range []struct {
		name string
		h    header.Header
	}{{"Content-Disposition", m.GetContentDisposition()}, {"Content-Encoding", m.GetContentEncoding()}, {"Content-Language", m.GetContentLanguage()}, {"Content-Type", m.GetContentTypeHeader()}, {"Proxy-Authorization", m.GetProxyAuthorizationHeader()}, {"Min-Expires", m.GetMinExpires()}, {"Organization", m.GetOrganizationHeader()}, {"Priority", m.GetPriorityHeader()}} {
		k.eq(x.name, hstr(x.h), first(x.name))
	}
	cs := -1
	if s, ok := mod.body("CSeq"); ok {
		cs = atoi(strings.Fields(s)[0])
	}
	k.eq("cseq number", m.GetCSeqNumber(), cs)
	tag := func(name string) string {
		s := first(name)
		if i := strings.Index(s, ";tag="); i >= 0 {
			s, _, _ = strings.Cut(s[i+5:], ";")
			return s
		}
		return ""
	}
	k.eq("from tag", m.GetFromTag(), tag("From"))
	k.eq("has from tag", m.HasFromTag(), tag("From") != "")
	k.eq("to tag", m.GetToTag(), tag("To"))
	k.eq("has to tag", m.HasToTag(), tag("To") != "")
	if cl := m.GetContentLength(); isNil(cl) {
		k.ok("no content length", false)
	} else {
		k.eq("content length", strconv.Itoa(cl.GetContentLength()), "0")
	}
}
