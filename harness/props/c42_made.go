package props

import (
	"container/list"
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C42", Rule: "every constructor that takes values, on all values of a domain, and all sequences, to a depth, of the operations that put together a list of methods, a call identifier, a challenge, the parts of a Via, parameters and the authority of a URI, against the text of these parts", Run: c42})
}

// made compares a header made from parts with the one its text gives.
func made(k kk, what string, h header.Header, name, body string) {
	if isNil(h) {
		k.ok(what+" gives nothing", false)
		return
	}
	k.eq(what+": encoding", h.String(), name+": "+body+"\r\n")
	k.eq(what+": body", h.EncodeBody(), body)
	k.eq(what+": name", h.GetName(), name)
	p, err := parseLine(name + ": " + body + "\n")
	if err != nil {
		k.ok(fmt.Sprintf("%s: its text is rejected: %v", what, err), false)
		return
	}
	if _, ok := h.(header.SIPHeaderLister); !ok {
		es := elements(p)
		if !k.ok(fmt.Sprintf("%s: its text gives %d headers", what, len(es)), len(es) == 1) {
			return
		}
		p = es[0]
	}
	k.eq(what+": what it says", digest(h), digest(p))
}

func c42(c *mc.C) {
	tokens := []string{"a", "INVITE", "x-Y.1", "-.!%*_+`'~", "0"}
	type maker struct {
		name string
		f    func(s string) header.Header
		set  func(h header.Header, s string) error
	}
	var makers []maker
	add := func(name string, f func(s string) header.Header, set func(h header.Header, s string) error) {
		makers = append(makers, maker{name, f, set})
	}
	add("Allow", func(s string) header.Header { return header.NewAllowFromString(s) }, func(h header.Header, s string) error { return h.(*header.Allow).SetMethod(s) })
	add("Allow-Events", func(s string) header.Header { return header.NewAllowEventsFromString(s) }, func(h header.Header, s string) error { return h.(*header.AllowEvents).SetEventType(s) })
	add("Content-Encoding", func(s string) header.Header { return header.NewContentEncodingFromString(s) }, func(h header.Header, s string) error { return h.(*header.ContentEncoding).SetEncoding(s) })
	add("Content-Language", func(s string) header.Header { return header.NewContentLanguageFromString(s) }, func(h header.Header, s string) error { h.(*header.ContentLanguage).SetContentLanguage(s); return nil })
	add("Proxy-Require", func(s string) header.Header { return header.NewProxyRequireFromString(s) }, func(h header.Header, s string) error { return h.(*header.ProxyRequire).SetOptionTag(s) })
	add("Require", func(s string) header.Header { return header.NewRequireFromString(s) }, func(h header.Header, s string) error { return h.(*header.Require).SetOptionTag(s) })
	add("Supported", func(s string) header.Header { return header.NewSupportedFromString(s) }, func(h header.Header, s string) error { return h.(*header.Supported).SetOptionTag(s) })
	add("Unsupported", func(s string) header.Header { return header.NewUnsupportedFromString(s) }, func(h header.Header, s string) error { return h.(*header.Unsupported).SetOptionTag(s) })
	for _, m := range makers {
		for _, s := range tokens {
			for _, t := range tokens {
				if !c.Mine() {
					continue
				}
				key := m.name + " " + s + " " + t
				c.Run(key, func() {
					k := kk{c, key}
					h := m.f(s)
					made(k, "made", h, m.name, s)
					if err := m.set(h, t); err != nil {
						k.ok(fmt.Sprintf("setting %q: %v", t, err), false)
					}
					c.Step(2)
					made(k, "set again", h, m.name, t)
					made(k, "made after that", m.f(s), m.name, s)
					c.State(h.String())
					c.Trace()
				})
			}
		}
	}

	one := func(key string, f func(k kk)) {
		if c.Mine() {
			c.Run(key, func() {
				c.Step(1)
				c.State(key)
				f(kk{c, key})
				c.Trace()
			})
		}
	}
	for _, t := range tokens {
		for _, s := range tokens {
			t, s := t, s
			one("Content-Type "+t+"/"+s, func(k kk) {
				made(k, "made", header.NewContentTypeFromString(t, s), "Content-Type", t+"/"+s)
			})
			one("Call-ID "+t+"@"+s, func(k kk) {
				for _, id := range []string{t + "@" + s, t} {
					h, err := header.NewCallID(id)
					k.ok(fmt.Sprintf("%s: %v", id, err), err == nil)
					made(k, id, h, "Call-ID", id)
					ci, err := header.NewCallIdentifier(id)
					k.ok(fmt.Sprintf("%s: %v", id, err), err == nil)
					k.eq("call identifier", ci.String(), id)
					k.eq("local id", ci.GetLocalId(), t)
					k.eq("host", ci.GetHost(), strings.TrimPrefix(strings.TrimPrefix(id, t), "@"))
					made(k, "In-Reply-To "+id, header.NewInReplyToFromCallIdentifier(ci), "In-Reply-To", id)
					g, _ := header.NewCallID("zz@zz")
					g.SetCallIdentifier(ci)
					made(k, "Call-ID with identifier "+id, g, "Call-ID", id)
				}
				for _, bad := range []string{"", "@", t + "@", "@" + s} {
					h, err := header.NewCallID(bad)
					k.ok(fmt.Sprintf("a Call-ID is made of %q", bad), err != nil && h == nil)
					ci, err := header.NewCallIdentifier(bad)
					k.ok(fmt.Sprintf("a call identifier is made of %q", bad), err != nil && ci == nil)
				}
			})
		}
		for _, n := range []int{0, 1, 77, 2147483647} {
			t, n := t, n
			one(fmt.Sprintf("CSeq %d %s", n, t), func(k kk) {
				h := header.NewCSeq(n, strings.ToUpper(t))
				made(k, "made", h, "CSeq", fmt.Sprintf("%d %s", n, strings.ToUpper(t)))
			})
		}
	}
	for _, n := range []int{0, 1, 10, 65536, 2147483647} {
		n := n
		one(fmt.Sprintf("Content-Length %d", n), func(k kk) {
			made(k, "made", header.NewContentLengthFromInt(n), "Content-Length", fmt.Sprint(n))
		})
	}
	for _, name := range []string{"X-A", "p-asserted", "Z"} {
		for _, v := range []string{"a", "a, b;c=\"d\" <e>", "x:y"} {
			name, v := name, v
			one(name+": "+v, func(k kk) {
				h := header.NewExtension(name)
				h.SetValue(v)
				made(k, "made", h, name, v)
				k.eq("value", h.GetValue(), v)
				k.eq("header value", h.GetHeaderValue(), v)
				l := header.NewExtensionHeaderList(name)
				k.eq("name of list", l.GetName(), name)
				k.eq("length of list", l.Len(), 0)
				l.PushBack(h)
				k.eq("list", l.String(), name+": "+v+"\r\n")
				g := header.NewSIPHeaderList(name)
				k.eq("name of header list", g.GetName(), name)
				g.PushBack(h)
				k.eq("header list", g.String(), name+": "+v+"\r\n")
				k.eq("is a list", fmt.Sprint(g.IsHeaderList(), l.IsHeaderList(), h.IsHeaderList()), "true true false")
			})
		}
	}
	uris := []string{"sip:a", "sips:u:p@h.i:5061;lr;x=1?a=b", "tel:+1-23", "http://a/b?c=d"}
	for _, u := range uris {
		u := u
		one("of "+u, func(k kk) {
			made(k, "Error-Info", header.NewErrorInfoFromURI(mustURI(u)), "Error-Info", "<"+u+">")
			for _, m := range tokens {
				l := header.NewRequestLineFromString(mustURI(u), m)
				k.eq("request line", l.String(), m+" "+u+" SIP/2.0\r\n")
				k.eq("method", l.GetMethod(), m)
				k.eq("version", l.GetSipVersion()+"|"+l.GetVersionMajor()+"|"+l.GetVersionMinor(), "SIP/2.0|2|0")
				if v, err := parser.NewStringMsgParser().ParseSIPRequestLine(m + " " + u + " SIP/2.0\n"); err != nil {
					k.ok(fmt.Sprintf("%s %s: %v", m, u, err), false)
				} else {
					k.eq("what it says", digest(l), digest(v))
				}
			}
			if strings.HasPrefix(u, "http") {
				return
			}
			for _, a := range []string{"<" + u + ">", "\"A \\\" b\" <" + u + ">"} {
				f := anAddress(a).f
				made(k, "Route", header.NewRouteFromAddress(f().(address.Address)), "Route", a)
				made(k, "Record-Route", header.NewRecordRouteFromAddress(f().(address.Address)), "Record-Route", a)
				made(k, "Reply-To", header.NewReplyToFromAddress(f().(address.Address)), "Reply-To", a)
			}
		})
	}
	one("final responses", func(k kk) {
		for n := -1; n <= 1000; n++ {
			k.eq(fmt.Sprint("a response of code ", n, " is final"), message.NewSIPResponse().IsFinalResponseFromInt(n), n >= 200 && n < 700)
		}
	})
	one("headers that could not be parsed", func(k kk) {
		for _, m := range []interface {
			AddUnparsed(string)
			GetUnrecognizedHeaders() *list.List
			String() string
		}{message.NewSIPMessage(), message.NewSIPRequest(), message.NewSIPResponse()} {
			text, want := m.String(), ""
			for _, h := range []string{"A: b\r\n", "C d", "A: b\r\n"} {
				m.AddUnparsed(h)
				want += h + "|"
				got := ""
				for e := m.GetUnrecognizedHeaders().Front(); e != nil; e = e.Next() {
					got += fmt.Sprint(e.Value, "|")
				}
				k.eq("headers that could not be parsed", got, want)
				k.eq("encoding", m.String(), text)
			}
		}
	})
	one("start lines without a version", func(k kk) {
		s := header.NewStatusLine()
		s.SetSipVersion("")
		r := header.NewRequestLine()
		r.SetSipVersion("")
		k.eq("versions", s.GetVersionMajor()+s.GetVersionMinor()+r.GetVersionMajor()+r.GetVersionMinor(), "")
	})
	for _, v := range []string{"SIP/2.0", "SIP/1.0", "SIP/12.34", "sip/2.0"} {
		v := v
		one("version "+v, func(k kk) {
			s := header.NewStatusLine()
			s.SetSipVersion(v)
			r := header.NewRequestLine()
			r.SetSipVersion(v)
			n := strings.Split(v[4:], ".")
			k.eq("status line", s.GetVersionMajor()+"|"+s.GetVersionMinor(), n[0]+"|"+n[1])
			k.eq("request line", r.GetVersionMajor()+"|"+r.GetVersionMinor(), n[0]+"|"+n[1])
			k.eq("versions", s.GetSipVersion()+r.GetSipVersion(), v+v)
		})
	}
	for _, t := range []string{"*", "text", "", "**"} {
		for _, s := range []string{"*", "plain", "", "**"} {
			t, s := t, s
			one(fmt.Sprintf("Accept %q/%q", t, s), func(k kk) {
				a := header.NewAccept()
				k.eq("a new one allows all", fmt.Sprint(a.AllowsAllContentTypes(), a.AllowsAllContentSubTypes()), "false false")
				if t != "" {
					a.SetContentType(t)
				}
				if s != "" {
					a.SetContentSubType(s)
				}
				k.eq("allows all", fmt.Sprint(a.AllowsAllContentTypes(), a.AllowsAllContentSubTypes()), fmt.Sprint(t == "*", s == "*"))
			})
		}
	}

	type op struct {
		name string
		do   func(x, m interface{}) // on the value and on the record
	}
	explore := func(what string, depth int, fresh func() (x, m interface{}), ops []op, check func(k kk, x, m interface{})) {
		c.Bound(what, "all sequences of up to %d of %d operations", depth, len(ops))
		sequences(len(ops), depth, func(seq []int) {
			if !c.Mine() {
				return
			}
			key := what + ":"
			for _, i := range seq {
				key += " " + ops[i].name
			}
			c.Run(key, func() {
				x, m := fresh()
				for _, i := range seq {
					c.Step(1)
					ops[i].do(x, m)
				}
				check(kk{c, key}, x, m)
				c.State(fmt.Sprintf("%v", m))
				c.Trace()
			})
		})
	}
	depth := c.Pick(3, 4)

	// lists of methods and of events
	type methods struct{ m []string }
	lists := [][]interface{}{{"A"}, {"B", "C"}, {}, {"A", "A", "B"}, {""}, {"D", ""}, {"E", 1}}
	for _, events := range []bool{false, true} {
		events := events
		what := "Allow list"
		if events {
			what = "Allow-Events list"
		}
		var ops []op
		type setter interface {
			SetMethods(l *list.List) error
			GetMethods() *list.List
			header.SIPHeaderLister
		}
		for _, l := range lists {
			l := l
			ops = append(ops, op{fmt.Sprintf("set %q", l), func(x, m interface{}) {
				ll := list.New()
				bad := false
				var ss []string
				for _, s := range l {
					ll.PushBack(s)
					t, ok := s.(string)
					bad = bad || !ok || t == ""
					ss = append(ss, t)
				}
				err := x.(setter).SetMethods(ll)
				if (err != nil) != bad {
					panic(fmt.Sprintf("setting %q: %v", l, err))
				}
				if err == nil {
					m.(*methods).m = ss
				}
			}})
		}
		ops = append(ops, op{"push X", func(x, m interface{}) {
			if events {
				x.(setter).PushBack(header.NewAllowEventsFromString("X"))
			} else {
				x.(setter).PushBack(header.NewAllowFromString("X"))
			}
			m.(*methods).m = append(append([]string{}, m.(*methods).m...), "X")
		}})
		explore(what, depth, func() (interface{}, interface{}) {
			if events {
				return header.NewAllowEventsList(), &methods{}
			}
			return header.NewAllowList(), &methods{}
		}, ops, func(k kk, x, m interface{}) {
			var got []string
			for e := x.(setter).GetMethods().Front(); e != nil; e = e.Next() {
				got = append(got, fmt.Sprint(e.Value))
			}
			want := m.(*methods).m
			k.eq("methods", strings.Join(got, "|"), strings.Join(want, "|"))
			k.eq("length", x.(setter).Len(), len(want))
			if len(want) > 0 {
				made(k, "list", x.(header.Header), strings.TrimSuffix(what, " list"), strings.Join(want, ","))
			}
		})
	}

	// call identifiers
	type cid struct{ id, host string }
	var ops []op
	for _, s := range []string{"a", "b"} {
		s := s
		ops = append(ops, op{"local id " + s, func(x, m interface{}) { x.(*header.CallIdentifier).SetLocalId(s); m.(*cid).id = s }})
	}
	for _, s := range []string{"h", "i", ""} {
		s := s
		ops = append(ops, op{"host " + s, func(x, m interface{}) { x.(*header.CallIdentifier).SetHost(s); m.(*cid).host = s }})
	}
	for _, s := range []string{"c", "d@j", "e@", "@k", "", "@"} {
		s := s
		ops = append(ops, op{fmt.Sprintf("call id %q", s), func(x, m interface{}) {
			err := x.(*header.CallIdentifier).SetCallID(s)
			bad := s == "" || s[0] == '@' || s[len(s)-1] == '@'
			if bad != (err != nil) {
				panic(fmt.Sprintf("%q: %v", s, err))
			}
			if !bad {
				m.(*cid).id, m.(*cid).host, _ = strings.Cut(s, "@")
			}
		}})
	}
	explore("call identifier", depth+1, func() (interface{}, interface{}) {
		x, err := header.NewCallIdentifier("x@y")
		if err != nil {
			panic(err)
		}
		return x, &cid{"x", "y"}
	}, ops, func(k kk, x, m interface{}) {
		w := m.(*cid)
		text := w.id
		if w.host != "" {
			text += "@" + w.host
		}
		ci := x.(*header.CallIdentifier)
		k.eq("local id", ci.GetLocalId(), w.id)
		k.eq("host", ci.GetHost(), w.host)
		k.eq("text", ci.String(), text)
		h, _ := header.NewCallID("zz")
		h.SetCallIdentifier(ci)
		made(k, "Call-ID", h, "Call-ID", text)
		r := header.NewInReplyToFromCallIdentifier(ci)
		made(k, "In-Reply-To", r, "In-Reply-To", text)
	})

	c42challenge(c, depth, func(depth int, fresh func() (x, m interface{}), names []string, dos []func(x, m interface{}), check func(k kk, x, m interface{})) {
		var ops []op
		for i := range names {
			ops = append(ops, op{names[i], dos[i]})
		}
		explore("challenge", depth, fresh, ops, check)
	})

	// a protocol
	ops = nil
	for _, s := range []string{"SIP", "sip", "x-Y"} {
		s := s
		ops = append(ops, op{"name " + s, func(x, m interface{}) { x.(*header.Protocol).SetProtocolName(s); m.(*[3]string)[0] = s }})
	}
	for _, s := range []string{"2.0", "1.x"} {
		s := s
		ops = append(ops, op{"version " + s, func(x, m interface{}) { x.(*header.Protocol).SetProtocolVersion(s); m.(*[3]string)[1] = s }})
	}
	for _, s := range []string{"UDP", "tcp", "Tls-sctp", "ws"} {
		s := s
		ops = append(ops, op{"transport " + s, func(x, m interface{}) { x.(*header.Protocol).SetTransport(s); m.(*[3]string)[2] = s }})
	}
	explore("protocol", depth, func() (interface{}, interface{}) { return header.NewProtocol(), &[3]string{"SIP", "2.0", "UDP"} }, ops, func(k kk, x, m interface{}) {
		p, w := x.(*header.Protocol), m.(*[3]string)
		k.eq("parts", p.GetProtocolName()+"|"+p.GetProtocolVersion()+"|"+p.GetTransport(), w[0]+"|"+w[1]+"|"+w[2])
		k.eq("text", p.String(), strings.ToUpper(w[0])+"/"+w[1]+"/"+strings.ToUpper(w[2]))
		if w[0] != "x-Y" && w[1] == "2.0" {
			v := header.NewVia()
			v.SetSentProtocol(p)
			v.SetHostFromString("h")
			k.eq("Via", v.String(), "Via: "+p.String()+" h\r\n")
			l, err := parseLine("Via: " + p.String() + " h\n")
			if k.ok(fmt.Sprintf("%q is rejected: %v", v, err), err == nil) {
				k.eq("Via parsed again", elements(l)[0].String(), v.String())
			}
		}
	})

	// an address
	type addr struct {
		name, uri string
		brackets  bool
		wild      bool
	}
	ops = nil
	ad := func(name string, do func(x *address.AddressImpl, m *addr)) {
		ops = append(ops, op{name, func(x, m interface{}) { do(x.(*address.AddressImpl), m.(*addr)) }})
	}
	for _, s := range []string{"Bob", "A, B <c>", ""} {
		s := s
		ad(fmt.Sprintf("name %q", s), func(x *address.AddressImpl, m *addr) {
			x.SetDisplayName(s)
			m.name, m.brackets, m.wild = s, true, false
		})
	}
	ad("no name", func(x *address.AddressImpl, m *addr) { x.RemoveDisplayName(); m.name = "" })
	for _, s := range []string{"sip:u@h:7;p=1", "sips:[::1]"} {
		s := s
		ad("URI "+s, func(x *address.AddressImpl, m *addr) { x.SetURI(mustURI(s)); m.uri = s })
		ad("address "+s, func(x *address.AddressImpl, m *addr) { x.SetAddess(mustURI(s)); m.uri = s })
	}
	ad("URI tel", func(x *address.AddressImpl, m *addr) {
		x.SetURI(address.NewURIImpl("http://a/b"))
		m.uri = "http://a/b"
	})
	ad("spec", func(x *address.AddressImpl, m *addr) {
		x.SetAddressType(address.ADDRESS_SPEC)
		m.brackets, m.wild = false, false
	})
	ad("name-addr", func(x *address.AddressImpl, m *addr) {
		x.SetAddressType(address.NAME_ADDR)
		m.brackets, m.wild = true, false
	})
	ad("wild", func(x *address.AddressImpl, m *addr) { x.SetWildCardFlag(); m.wild = true })
	ad("user v", func(x *address.AddressImpl, m *addr) {
		x.SetUser("v")
		if m.uri == "sips:[::1]" || m.uri == "sips:v@[::1]" {
			m.uri = "sips:v@[::1]"
		} else if strings.HasPrefix(m.uri, "sip") {
			m.uri = "sip:v@" + m.uri[strings.Index(m.uri, "@")+1:]
		}
	})
	ad("no p", func(x *address.AddressImpl, m *addr) {
		err := x.RemoveParameter("P")
		if (err != nil) != !strings.HasPrefix(m.uri, "sip") {
			panic(fmt.Sprintf("removing a parameter of %q: %v", m.uri, err))
		}
		m.uri = strings.TrimSuffix(m.uri, ";p=1")
	})
	ad("clone", func(x *address.AddressImpl, m *addr) {
		y := x.Clone().(*address.AddressImpl)
		x.SetDisplayName("gone")
		x.SetUser("gone")
		*x = *y
	})
	for _, start := range []string{"", "\"N\" <sip:u@h:7;p=1>", "sips:[::1]"} {
		start := start
		explore("address from "+start, depth+1, func() (interface{}, interface{}) {
			if start == "" {
				return address.NewAddressImpl(), &addr{brackets: true}
			}
			m := &addr{name: "N", uri: "sip:u@h:7;p=1", brackets: true}
			if start[0] != '"' {
				m = &addr{uri: start}
			}
			return anAddress(start).f(), m
		}, ops, func(k kk, x, mm interface{}) {
			a, m := x.(*address.AddressImpl), mm.(*addr)
			text := m.uri
			if m.uri != "" && (m.brackets || m.name != "") {
				text = "<" + m.uri + ">"
			}
			if m.name != "" {
				text = "\"" + m.name + "\" " + text
			}
			if m.wild {
				text = "*"
			}
			k.eq("text", a.String(), text)
			k.eq("name", a.GetDisplayName(), m.name)
			k.eq("has a name", a.HasDisplayName(), m.name != "")
			k.eq("wild", a.IsWildcard(), m.wild)
			got := ""
			if !isNil(a.GetURI()) {
				got = a.GetURI().String()
			}
			k.eq("URI", got, m.uri)
			sip := strings.HasPrefix(m.uri, "sip")
			k.eq("is a SIP address", a.IsSIPAddress(), sip)
			host, herr := a.GetHost()
			port, perr := a.GetPort()
			hp, hperr := a.GetHostPort()
			k.eq("host and port are there", fmt.Sprint(herr == nil, perr == nil, hperr == nil), fmt.Sprint(sip, sip, sip))
			if sip {
				at := m.uri[strings.Index(m.uri, ":")+1:]
				at, _, _ = strings.Cut(at, ";")
				wu, whp, ok := strings.Cut(at, "@")
				if !ok {
					wu, whp = "", at
				}
				k.eq("host and port", hp.String(), whp)
				if strings.HasPrefix(whp, "h") {
					k.eq("host", fmt.Sprint(host, port), "h7")
				} else {
					k.eq("host", fmt.Sprint(host, port), "[::1]-1")
				}
				k.eq("user", a.GetURI().(*address.SipURIImpl).GetUser(), wu)
			}
			if m.uri != "" && !m.wild {
				b, err := parser.NewStringMsgParser().ParseAddress(text)
				if k.ok(fmt.Sprintf("%q is rejected: %v", text, err), err == nil) && (m.brackets || m.name == "" && !strings.Contains(m.uri, ";")) {
					k.eq("what it says", digest(b), digest(a))
				}
			}
		})
	}

	// a Via
	type via struct{ proto, ver, tr, host, port, comment string }
	ops = nil
	v := func(name string, do func(x *header.Via, m *via)) {
		ops = append(ops, op{name, func(x, m interface{}) { do(x.(*header.Via), m.(*via)) }})
	}
	protocol := func(n, ver, tr string) *header.Protocol {
		p := header.NewProtocol()
		p.SetProtocolName(n)
		p.SetProtocolVersion(ver)
		p.SetTransport(tr)
		return p
	}
	hostPort := func(h string, p int) *core.HostPort {
		hp := core.NewHostPort()
		hp.SetHost(core.NewHost(h))
		if p >= 0 {
			hp.SetPort(p)
		}
		return hp
	}
	v("protocol SIP/2.0/TCP", func(x *header.Via, m *via) {
		x.SetSentProtocol(protocol("SIP", "2.0", "TCP"))
		m.proto, m.ver, m.tr = "SIP", "2.0", "TCP"
	})
	v("protocol SIP/2.0/SCTP", func(x *header.Via, m *via) {
		x.SetSentProtocol(protocol("SIP", "2.0", "SCTP"))
		m.proto, m.ver, m.tr = "SIP", "2.0", "SCTP"
	})
	v("transport TLS", func(x *header.Via, m *via) { x.GetSentProtocol().SetTransport("TLS"); m.tr = "TLS" })
	v("protocol name", func(x *header.Via, m *via) { x.SetProtocol("SIP"); m.proto = "SIP" })
	v("sent by h:1", func(x *header.Via, m *via) { x.SetSentBy(hostPort("h", 1)); m.host, m.port = "h", "1" })
	v("sent by [::1]", func(x *header.Via, m *via) { x.SetSentBy(hostPort("[::1]", -1)); m.host, m.port = "[::1]", "" })
	v("host k", func(x *header.Via, m *via) { x.SetHost(core.NewHost("k")); m.host = "k" })
	v("host l.m", func(x *header.Via, m *via) { x.SetHostFromString("l.m"); m.host = "l.m" })
	v("port 5061", func(x *header.Via, m *via) { x.SetPort(5061); m.port = "5061" })
	v("no port", func(x *header.Via, m *via) { x.RemovePort(); m.port = "" })
	v("comment", func(x *header.Via, m *via) { x.SetComment("c d"); m.comment = "c d" })
	v("no comment", func(x *header.Via, m *via) { x.RemoveComment(); m.comment = "" })
	explore("Via", depth, func() (interface{}, interface{}) {
		x := header.NewVia()
		x.SetSentBy(hostPort("z", 9))
		return x, &via{"SIP", "2.0", "UDP", "z", "9", ""}
	}, ops, func(k kk, x, m interface{}) {
		w := m.(*via)
		h := x.(*header.Via)
		text := w.proto + "/" + w.ver + "/" + w.tr + " " + w.host
		if w.port != "" {
			text += ":" + w.port
		}
		if w.comment != "" {
			text += " (" + w.comment + ")"
		}
		made(k, "Via", h, "Via", text)
		k.eq("protocol", h.GetProtocol()+"/"+h.GetProtocolVersion()+"/"+h.GetTransport(), w.proto+"/"+w.ver+"/"+w.tr)
		k.eq("host", h.GetHost(), w.host)
		k.eq("has port", h.HasPort(), w.port != "")
		k.eq("comment", h.GetComment(), w.comment)
		k.eq("has comment", h.HasComment(), w.comment != "")
	})

	// parameters given one by one, by name and value and as a pair
	type parms map[string]string
	for _, start := range []string{"From: <sip:a@b>", "Via: SIP/2.0/UDP h", "Contact: <sip:a@b>;a=0", "sip:h", "sip:h;a=0"} {
		start := start
		uri := start[:4] == "sip:"
		ops = nil
		p := func(name string, do func(x interface{}, m parms)) {
			ops = append(ops, op{name, func(x, m interface{}) { do(x, m.(parms)) }})
		}
		type hset interface {
			SetParameter(name, value string) error
			SetParameterFromNameValue(nv *core.NameValue)
			RemoveParameter(name string)
			GetParameters() *core.NameValueList
		}
		for _, n := range []string{"a", "A", "b"} {
			for _, val := range []string{"1", "2"} {
				n, val := n, val
				p("set "+n+"="+val, func(x interface{}, m parms) {
					if u, ok := x.(*address.SipURIImpl); ok {
						u.SetParameter(n, val)
					} else {
						x.(hset).SetParameter(n, val)
					}
					m[strings.ToLower(n)] = val
				})
				p("set pair "+n+"="+val, func(x interface{}, m parms) {
					if u, ok := x.(*address.SipURIImpl); ok {
						u.SetUriParameter(core.NewNameValue(n, val))
					} else {
						x.(hset).SetParameterFromNameValue(core.NewNameValue(n, val))
					}
					m[strings.ToLower(n)] = val
				})
				if uri {
					p("set value "+n+"="+val, func(x interface{}, m parms) {
						x.(*address.SipURIImpl).SetUriParm(n, val)
						m[strings.ToLower(n)] = val
					})
				}
			}
			n := n
			p("remove "+n, func(x interface{}, m parms) {
				if u, ok := x.(*address.SipURIImpl); ok {
					u.RemoveParameter(n)
				} else {
					x.(hset).RemoveParameter(n)
				}
				delete(m, strings.ToLower(n))
			})
		}
		if uri {
			p("default a=3", func(x interface{}, m parms) {
				x.(*address.SipURIImpl).SetDefaultParm("a", "3")
				if _, ok := m["a"]; !ok {
					m["a"] = "3"
				}
			})
		}
		explore("parameters of "+start, c.Pick(2, 3), func() (interface{}, interface{}) {
			m := parms{}
			if strings.HasSuffix(start, ";a=0") {
				m["a"] = "0"
			}
			if uri {
				return mustURI(start), m
			}
			h, err := parseLine(start + "\n")
			if err != nil {
				panic(err)
			}
			return elements(h)[0], m
		}, ops, func(k kk, x, mm interface{}) {
			m := mm.(parms)
			check := func(what string, x interface{}) {
				var l *core.NameValueList
				get := func(n string) string { return x.(hasParams).GetParameter(n) }
				has := func(n string) bool { return x.(hasParams).HasParameter(n) }
				if u, ok := x.(*address.SipURIImpl); ok {
					l, get, has = u.GetUriParms(), u.GetParameter, u.HasParameter
				} else {
					l = x.(hset).GetParameters()
				}
				k.eq(what+"number of parameters", l.Len(), len(m))
				for _, n := range []string{"a", "b", "A", "B", "c"} {
					v, ok := m[strings.ToLower(n)]
					k.eq(what+"parameter "+n, get(n), v)
					k.eq(what+"has parameter "+n, has(n), ok)
				}
			}
			check("", x)
			text := x.(fmt.Stringer).String()
			if uri {
				check("after encoding and parsing: ", mustURI(text))
			} else if h, err := parseLine(strings.TrimSpace(text) + "\n"); err != nil {
				k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
			} else {
				check("after encoding and parsing: ", elements(h)[0])
			}
		})
	}

	// a user by itself
	type user struct {
		user, pass string
		kind       int
	}
	ops = nil
	ui := func(name string, do func(x *address.UserInfo, m *user)) {
		ops = append(ops, op{name, func(x, m interface{}) { do(x.(*address.UserInfo), m.(*user)) }})
	}
	for _, s := range []string{"u", "v;x=1", "#9", ""} {
		s := s
		ui("user "+s, func(x *address.UserInfo, m *user) {
			x.SetUser(s)
			m.user, m.kind = s, address.USER
			if strings.ContainsAny(s, "#;") {
				m.kind = address.TELEPHONE_SUBSCRIBER
			}
		})
	}
	ui("password", func(x *address.UserInfo, m *user) { x.SetPassword("p"); m.pass = "p" })
	ui("no password", func(x *address.UserInfo, m *user) { x.ClearPassword(); m.pass = "" })
	for _, t := range []int{address.USER, address.TELEPHONE_SUBSCRIBER} {
		t := t
		ui(fmt.Sprintf("type %d", t), func(x *address.UserInfo, m *user) { x.SetUserType(t); m.kind = t })
	}
	ui("bad types", func(x *address.UserInfo, m *user) {
		for _, t := range []int{-1, address.USER + address.TELEPHONE_SUBSCRIBER + 1, 77} {
			x.SetUserType(t)
		}
	})
	ui("clone", func(x *address.UserInfo, m *user) {
		y := x.Clone().(*address.UserInfo)
		x.SetUser("gone;")
		x.SetPassword("gone")
		*x = *y
	})
	explore("user", depth+1, func() (interface{}, interface{}) { return address.NewUserInfo(), &user{} }, ops, func(k kk, x, mm interface{}) {
		i, m := x.(*address.UserInfo), mm.(*user)
		k.eq("user", i.GetUser(), m.user)
		k.eq("password", i.GetPassword(), m.pass)
		k.eq("type", i.GetUserType(), m.kind)
		text := m.user
		if m.pass != "" {
			text += ":" + m.pass
		}
		k.eq("text", i.String(), text)
	})

	// the authority of a SIP URI
	type auth struct{ user, pass, host, port string }
	ops = nil
	u := func(name string, do func(x *address.SipURIImpl, m *auth)) {
		ops = append(ops, op{name, func(x, m interface{}) { do(x.(*address.SipURIImpl), m.(*auth)) }})
	}
	info := func(u, p string) *address.UserInfo {
		i := address.NewUserInfo()
		i.SetUser(u)
		if p != "" {
			i.SetPassword(p)
		}
		return i
	}
	authority := func(i *address.UserInfo, hp *core.HostPort) *address.Authority {
		a := address.NewAuthority()
		if i != nil {
			a.SetUserInfo(i)
		}
		a.SetHostPort(hp)
		return a
	}
	u("authority a", func(x *address.SipURIImpl, m *auth) {
		x.SetAuthority(authority(nil, hostPort("a", -1)))
		*m = auth{host: "a"}
	})
	u("authority u:p@b:1", func(x *address.SipURIImpl, m *auth) {
		x.SetAuthority(authority(info("u", "p"), hostPort("b", 1)))
		*m = auth{"u", "p", "b", "1"}
	})
	u("user info v", func(x *address.SipURIImpl, m *auth) {
		x.GetAuthority().SetUserInfo(info("v", ""))
		m.user, m.pass = "v", ""
	})
	u("user w", func(x *address.SipURIImpl, m *auth) { x.SetUser("w"); m.user = "w" })
	u("no user", func(x *address.SipURIImpl, m *auth) { x.RemoveUser(); m.user, m.pass = "", "" })
	u("password", func(x *address.SipURIImpl, m *auth) {
		if m.user != "" {
			x.SetUserPassword("q")
			m.pass = "q"
		}
	})
	u("no password", func(x *address.SipURIImpl, m *auth) { x.ClearPassword(); m.pass = "" })
	u("host port c:2", func(x *address.SipURIImpl, m *auth) { x.SetHostPort(hostPort("c", 2)); m.host, m.port = "c", "2" })
	u("host d", func(x *address.SipURIImpl, m *auth) { x.SetHost(core.NewHost("d")); m.host = "d" })
	u("host string e", func(x *address.SipURIImpl, m *auth) { x.SetHostString("e"); m.host = "e" })
	u("port 3", func(x *address.SipURIImpl, m *auth) { x.SetPort(3); m.port = "3" })
	u("no port", func(x *address.SipURIImpl, m *auth) { x.RemovePort(); m.port = "" })
	explore("URI", depth, func() (interface{}, interface{}) {
		x := address.NewSipURIImpl()
		x.SetHost(core.NewHost("h"))
		return x, &auth{host: "h"}
	}, ops, func(k kk, x, m interface{}) {
		w := m.(*auth)
		h := x.(*address.SipURIImpl)
		text := w.user
		if w.pass != "" {
			text += ":" + w.pass
		}
		if text != "" {
			text += "@"
		}
		text += w.host
		if w.port != "" {
			text += ":" + w.port
		}
		k.eq("authority", h.GetAuthority().String(), text)
		k.eq("URI", h.String(), "sip:"+text)
		k.eq("user", h.GetUser(), w.user)
		k.eq("password", h.GetUserPassword(), w.pass)
		k.eq("host", h.GetHost(), w.host)
		k.eq("what it says", digest(h), digest(mustURI("sip:"+text)))
	})
}

// c42challenge explores a challenge and the header it is set in.
func c42challenge(c *mc.C, depth int, explore func(depth int, fresh func() (x, m interface{}), names []string, dos []func(x, m interface{}), check func(k kk, x, m interface{}))) {
	type chal struct {
		scheme string
		names  []string
		vals   map[string]string
	}
	var names []string
	var dos []func(x, m interface{})
	op := func(name string, do func(x *header.Challenge, m *chal)) {
		names = append(names, name)
		dos = append(dos, func(x, m interface{}) { do(x.(*header.Challenge), m.(*chal)) })
	}
	remove := func(m *chal, n string) bool {
		for i, o := range m.names {
			if o == n {
				m.names = append(append([]string{}, m.names[:i]...), m.names[i+1:]...)
				delete(m.vals, n)
				return true
			}
		}
		return false
	}
	for _, s := range []string{"Digest", "Basic"} {
		s := s
		op("scheme "+s, func(x *header.Challenge, m *chal) { x.SetScheme(s); m.scheme = s })
	}
	for _, p := range [][2]string{{"realm", "r, 1"}, {"realm", "s"}, {"nonce", "n="}, {"opaque", "o"}, {"domain", "sip:d"}, {"qop", "auth"}, {"uri", "sip:u"}, {"response", "0f"}, {"algorithm", "MD5"}} {
		p := p
		op("parameter "+p[0]+"="+p[1], func(x *header.Challenge, m *chal) {
			nv := core.NewNameValue(p[0], p[1])
			nv.SetQuotedValue()
			x.SetParameter(nv)
			remove(m, p[0])
			m.names = append(m.names, p[0])
			m.vals[p[0]] = "\"" + p[1] + "\""
		})
	}
	for _, p := range [][2]string{{"stale", "true"}, {"zz", "1"}} {
		p := p
		op("parameter "+p[0]+"="+p[1], func(x *header.Challenge, m *chal) {
			x.SetParameter(core.NewNameValue(p[0], p[1]))
			remove(m, p[0])
			m.names = append(m.names, p[0])
			m.vals[p[0]] = p[1]
		})
	}
	for _, n := range []string{"realm", "zz"} {
		n := n
		op("no "+n, func(x *header.Challenge, m *chal) {
			got := x.RemoveParameter(strings.ToUpper(n))
			if want := remove(m, n); got != want {
				panic(fmt.Sprintf("removing %s says %v", n, got))
			}
		})
	}
	op("no parameters", func(x *header.Challenge, m *chal) { x.RemoveParameters(); m.names, m.vals = nil, map[string]string{} })
	explore(depth, func() (interface{}, interface{}) {
		x := header.NewChallenge()
		x.SetScheme("Digest")
		return x, &chal{"Digest", nil, map[string]string{}}
	}, names, dos, func(k kk, x, m interface{}) {
		h, w := x.(*header.Challenge), m.(*chal)
		var ps []string
		for _, n := range w.names {
			ps = append(ps, n+"="+w.vals[n])
		}
		text := w.scheme + " " + strings.Join(ps, ",")
		k.eq("challenge", h.String(), text)
		k.eq("scheme", h.GetScheme(), w.scheme)
		k.eq("has parameters", h.HasParameters(), len(ps) > 0)
		for n, got := range map[string]string{"realm": h.GetRealm(), "opaque": h.GetOpaque(), "domain": h.GetDomain(), "qop": h.GetQOP(), "uri": h.GetURI(), "response": h.GetResponse(), "algorithm": h.GetAlgorithm(), "stale": h.GetStale(), "signature": h.GetSignature(), "signed-by": h.GetSignedBy()} {
			k.eq(n, got, unq(w.vals[n]))
		}
		for _, n := range []string{"realm", "nonce", "zz", "Realm", "ZZ", "none"} {
			v, ok := w.vals[strings.ToLower(n)]
			k.eq("parameter "+n, h.GetParameter(n), unq(v))
			k.eq("has parameter "+n, h.HasParameter(n), ok)
		}
		if len(ps) == 0 {
			return
		}
		a := header.NewWWWAuthenticate()
		a.SetChallenge(*h)
		made(k, "WWW-Authenticate", a, "WWW-Authenticate", text)
		p := header.NewProxyAuthenticate()
		p.SetRealm("before")
		p.SetChallenge(*h)
		made(k, "Proxy-Authenticate", p, "Proxy-Authenticate", text)
	})
}
