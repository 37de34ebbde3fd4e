package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

// nv is a name, a value and whether there is one.
type nv struct {
	n, v string
	has  bool
}

func (p nv) String() string {
	if p.has {
		return p.n + "=" + p.v
	}
	return p.n
}

// sipURI is the reference model of a SIP URI.
type sipURI struct {
	scheme, user, pw, host string
	hasUser                bool
	port                   int
	params, hdrs           []nv
}

func (m *sipURI) clone() *sipURI {
	n := *m
	n.params = append([]nv{}, m.params...)
	n.hdrs = append([]nv{}, m.hdrs...)
	return &n
}

func find(l []nv, name string) *nv {
	for i := range l {
		if strings.EqualFold(l[i].n, name) {
			return &l[i]
		}
	}
	return nil
}

func drop(l []nv, name string) (r []nv) {
	for _, p := range l {
		if !strings.EqualFold(p.n, name) {
			r = append(r, p)
		}
	}
	return
}

func put(l []nv, name, v string, has bool) []nv { return append(drop(l, name), nv{name, v, has}) }

func (m *sipURI) head() string {
	s := m.scheme + ":"
	if m.hasUser {
		s += m.user
		if m.pw != "" {
			s += ":" + m.pw
		}
		s += "@"
	}
	s += m.host
	if m.port >= 0 {
		s += ":" + strconv.Itoa(m.port)
	}
	return s
}

func joined(l []nv, first, sep string) string {
	s := ""
	for i, p := range l {
		if i == 0 {
			s += first
		} else {
			s += sep
		}
		s += p.String()
	}
	return s
}

func (m *sipURI) text() string {
	return m.head() + joined(m.params, ";", ";") + joined(m.hdrs, "?", "&")
}

// sorted gives the model's text with parameters and headers in order of name:
// their order means nothing.
func sortedURI(s string) string {
	h, q, _ := strings.Cut(s, "?")
	at := strings.LastIndex(h, "@") + 1
	i := strings.Index(h[at:], ";")
	var ps []string
	if i >= 0 {
		ps = strings.Split(h[at+i+1:], ";")
		h = h[:at+i]
	}
	qs := strings.Split(q, "&")
	sort.Strings(ps)
	sort.Strings(qs)
	return h + " ; " + strings.Join(ps, ";") + " ? " + strings.Join(qs, "&")
}

// check compares everything a SIP URI says of itself with the model.
func (m *sipURI) check(k kk, u *address.SipURIImpl) {
	k.eq("scheme", u.GetScheme(), m.scheme)
	k.eq("secure", u.IsSecure(), m.scheme == "sips")
	k.eq("is a SIP URI", u.IsSipURI(), true)
	k.eq("user", u.GetUser(), m.user)
	k.eq("password", u.GetUserPassword(), m.pw)
	k.eq("host", u.GetHost(), m.host)
	k.eq("port", u.GetPort(), m.port)
	if hp := u.GetHostPort(); hp != nil {
		k.eq("port of the host and port", hp.GetPort(), m.port)
		k.eq("has a port", hp.HasPort(), m.port >= 0)
	} else if m.host != "" {
		k.ok("no host and port", false)
	}
	uh := m.host
	if m.user != "" {
		uh = m.user + "@" + m.host
	}
	k.eq("user@host", u.GetUserAtHost(), uh)
	if m.port >= 0 {
		uh += ":" + strconv.Itoa(m.port)
	}
	k.eq("user@host:port", u.GetUserAtHostPort(), uh)
	val := func(n string) string {
		if p := find(m.params, n); p != nil {
			return p.v
		}
		return ""
	}
	for _, p := range m.params {
		if find(m.params, p.n).v == p.v { // the first of its name
			for _, n := range []string{p.n, strings.ToUpper(p.n), strings.ToLower(p.n)} {
				k.eq("has parameter "+n, u.HasParameter(n), true)
				k.eq("parameter "+n, u.GetParameter(n), p.v)
			}
		}
	}
	for _, n := range []string{"transport", "ttl", "maddr", "method", "user", "lr", "x", "y", "absent", ""} {
		if n == "" && find(m.params, "") != nil {
			continue
		}
		k.eq("has parameter "+n, u.HasParameter(n), find(m.params, n) != nil)
		k.eq("parameter "+n, u.GetParameter(n), val(n))
	}
	k.eq("number of parameters", u.GetParameterNames().Len(), len(m.params))
	k.eq("transport", u.GetTransportParam(), val("transport"))
	k.eq("has a transport", u.HasTransport(), find(m.params, "transport") != nil)
	ttl := -1
	if n, err := strconv.Atoi(val("ttl")); err == nil {
		ttl = n
	}
	k.eq("ttl", u.GetTTLParam(), ttl)
	k.eq("maddr", u.GetMAddrParam(), val("maddr"))
	k.eq("method", u.GetMethodParam(), val("method"))
	k.eq("method", u.GetMethod(), val("method"))
	k.eq("user parameter", u.GetUserParam(), val("user"))
	k.eq("user type", u.GetUserType(), val("user"))
	k.eq("is a telephone subscriber", u.IsUserTelephoneSubscriber(), val("user") == "phone")
	k.eq("lr", u.HasLrParam(), find(m.params, "lr") != nil)
	for _, p := range m.hdrs {
		if find(m.hdrs, p.n).v == p.v {
			k.eq("header "+p.n, u.GetHeader(p.n), p.v)
		}
	}
	if find(m.hdrs, "absent") == nil {
		k.eq("absent header", u.GetHeader("absent"), "")
	}
	k.eq("number of headers", u.GetQheaders().Len(), len(m.hdrs))
	if m.host != "" {
		k.eq("text, parameters and headers in any order", sortedURI(u.String()), sortedURI(m.text()))
	}
}

func init() {
	reg(&P{ID: "C13", Rule: "scheme spellings x user strings over a class-representative alphabet x passwords x hosts x ports x parameter sequences x header sequences; parsed at three entry points, read, encoded, parsed again; and every one-character deletion that leaves a part empty, to be rejected", Run: c13})
	reg(&P{ID: "C14", Rule: "all sequences of set, remove, clear and clone operations to a depth, on a fresh and on parsed SIP URIs, in lock step with a reference model", Run: c14})
}

var sipSchemes = []string{"sip", "SIP", "sips", "SiPs"}

func words(alphabet []string, max int) []string {
	r := []string{}
	last := []string{""}
	for i := 0; i < max; i++ {
		var n []string
		for _, p := range last {
			for _, a := range alphabet {
				n = append(n, p+a)
			}
		}
		r = append(r, n...)
		last = n
	}
	return r
}

var hosts = []string{"b.com", "h", "1.2.3.4", "[2001:db8::1]", "[::ffff:1.2.3.4]", "a-1.B-2.c3.", "xn--a.d"}

func c13(c *mc.C) {
	one := func(m *sipURI, in string) {
		if !c.Mine() {
			return
		}
		key := in
		c.Run(key, func() {
			c.Step(1)
			p, err := parser.NewURLParser(in).Parse()
			if !c.Check(err == nil, key, "%q is rejected: %v", in, err) {
				return
			}
			u, ok := p.(*address.SipURIImpl)
			if !c.Check(ok, key, "%q gives a %T", in, p) {
				return
			}
			k := kk{c, key}
			m.check(k, u)
			enc := u.String()
			c.State(enc)
			k.eq("encoding", enc, m.text())
			c.Step(3)
			u2, err := parser.NewStringMsgParser().ParseSIPUrl(enc)
			if c.Check(err == nil && u2 != nil, key, "%q is encoded as %q, which is rejected: %v", in, enc, err) {
				m.check(k, u2)
				k.eq("encoding of the encoding", u2.String(), enc)
			}
			u3, err := parser.NewStringMsgParser().ParseUrl(in)
			if c.Check(err == nil && u3 != nil, key, "%q is rejected: %v", in, err) {
				k.eq("as any URI", u3.String(), enc)
				k.eq("scheme as any URI", u3.GetScheme(), m.scheme)
			}
			a, err := parser.NewStringMsgParser().ParseAddress("<" + in + ">")
			if c.Check(err == nil && a != nil && a.GetURI() != nil, key, "<%s> is rejected: %v", in, err) {
				k.eq("in an address", a.GetURI().String(), enc)
			}
			rl, err := parser.NewStringMsgParser().ParseSIPRequestLine("OPTIONS " + in + " SIP/2.0")
			if c.Check(err == nil && rl != nil && rl.GetUri() != nil, key, "%q is rejected in a request line: %v", in, err) {
				k.eq("in a request line", rl.GetUri().String(), enc)
			}
			c.Trace()
			if c.CaseNo()%9973 == 0 {
				c.Sample("%q -> %q", in, enc)
			}
		})
	}
	mk := func(sch, user, pw, host string, port string, ps, hs []nv) {
		m := &sipURI{scheme: strings.ToLower(sch), user: user, pw: pw, hasUser: user != "", host: host, port: -1, params: ps, hdrs: hs}
		in := sch + ":"
		if user != "" {
			in += user
			if pw != "" {
				in += ":" + pw
			}
			in += "@"
		}
		in += host
		if port != "" {
			in += ":" + port
			m.port, _ = strconv.Atoi(port)
		}
		one(m, in+joined(ps, ";", ";")+joined(hs, "?", "&"))
	}
	userA := []string{"a", "Z", "0", "-", "_", ".", "!", "~", "*", "'", "(", ")", "&", "=", "+", "$", ",", ";", "?", "/", "%41", "%3a", "%40"}
	pwA := []string{"a", "0", "-", "_", ".", "!", "~", "*", "'", "(", ")", "&", "=", "+", "$", ",", "%41", "%20"}
	us := words(userA, c.Pick(3, 4))
	c.Bound("user names", "%d, all of up to %d symbols of %d", len(us), c.Pick(3, 4), len(userA))
	for i, u := range us {
		mk(sipSchemes[i%4], u, "", hosts[i%len(hosts)], []string{"", "5060"}[i%2], nil, nil)
	}
	pws := words(pwA, c.Pick(3, 4))
	c.Bound("passwords", "%d", len(pws))
	for i, p := range pws {
		mk(sipSchemes[i%4], us[i%len(us)], p, hosts[i%len(hosts)], []string{"", "5060"}[i%2], nil, nil)
	}
	parA := []string{"a", "B", "0", "-", "_", ".", "!", "~", "*", "'", "(", ")", "[", "]", "/", ":", "&", "+", "$", "%41", "%3b"}
	parW := words(parA, c.Pick(2, 3))
	hdrA := []string{"a", "B", "0", "-", "_", ".", "!", "~", "*", "'", "(", ")", "[", "]", "/", ":", "?", "+", "$", "%41", "%26"}
	hdrW := words(hdrA, c.Pick(2, 3))
	c.Bound("parameter and header words", "%d and %d, as name and as value", len(parW), len(hdrW))
	for i, w := range parW {
		mk("sip", "u", "", "h", "", []nv{{w, "", false}}, nil)
		mk("sip", "", "", "h", "1", []nv{{w, parW[(i*7)%len(parW)], true}, {"lr", "", false}}, nil)
		mk("sip", "", "", "h", "", []nv{{"x", w, true}, {w + "1", w, true}}, nil)
	}
	for i, w := range hdrW {
		mk("sip", "u", "", "h", "", nil, []nv{{w, hdrW[(i*5)%len(hdrW)], true}})
		mk("sips", "", "", "h", "1", []nv{{"lr", "", false}}, []nv{{"s", w, true}, {w + "1", "", true}})
	}
	ports := []string{"", "0", "1", "5060", "5061", "65535"}
	if c.Thorough() {
		for p := 2; p < 65535; p += 61 {
			ports = append(ports, strconv.Itoa(p))
		}
	}
	c.Bound("ports", "%d", len(ports))
	known := []nv{{"transport", "udp", true}, {"transport", "tls", true}, {"ttl", "255", true}, {"maddr", "239.1.2.3", true}, {"maddr", "[::1]", true}, {"method", "INVITE", true}, {"user", "phone", true}, {"user", "ip", true}, {"lr", "", false}, {"lr", "true", true}, {"x", "", true}, {"Y", "%20", true}}
	hds := []nv{{"subject", "project%20x", true}, {"To", "alice%40a.com", true}, {"body", "", true}, {"h", "1", true}}
	var seqs func(l []nv, max int) [][]nv
	seqs = func(l []nv, max int) [][]nv {
		r := [][]nv{nil}
		last := r
		for i := 0; i < max; i++ {
			var n [][]nv
			for _, s := range last {
				for _, p := range l {
					if find(s, p.n) == nil {
						n = append(n, append(append([]nv{}, s...), p))
					}
				}
			}
			r = append(r, n...)
			last = n
		}
		return r
	}
	pss, hss := seqs(known, c.Pick(2, 4)), seqs(hds, c.Pick(2, 4))
	c.Bound("parameter sequences", "%d", len(pss))
	c.Bound("header sequences", "%d", len(hss))
	users := [][2]string{{"", ""}, {"alice", ""}, {"+1-212;isub=1", ""}, {"a", "pw"}}
	for i, ps := range pss {
		for j, hs := range hss {
			if len(ps)+len(hs) > c.Pick(3, 4) {
				continue
			}
			for l, u := range users {
				mk(sipSchemes[(i+j+l)%4], u[0], u[1], hosts[(i+j*3)%len(hosts)], ports[(i*j+l)%len(ports)], ps, hs)
			}
		}
	}
	for _, s := range sipSchemes {
		for _, u := range users {
			for _, h := range hosts {
				for _, p := range ports {
					mk(s, u[0], u[1], h, p, nil, nil)
				}
			}
		}
	}
	// what lacks a part is not a SIP URI
	for _, s := range sipSchemes {
		for _, bad := range []string{"", ":", ":@h", ":a@", ":a:p@", ":@", ":a@b@", ":h:", ":h:x", ":a@h:", ":a@h:x", ":;lr", ":?a=b", ":a@;lr", ":[", ":[::1", ":[::1:5060", ":[x]", ":a@:5060", "://h", ":/h", ":a@/h", ":a b@h", ":a@ h", " :h", ":%@h", ":%4@h", ":%4g@h", ":h?a", ":h?a&b=c", ":h?a=b&c", ":.", ":a@.", ":a..b", ":u@a..b", ":.b", ":u@.b:5060", ":u@a...b;lr", ":a@..?a=b"} {
			in := s + bad
			if !c.Mine() {
				continue
			}
			key := "bad " + in
			c.Run(key, func() {
				c.Step(1)
				u, err := parser.NewStringMsgParser().ParseSIPUrl(in)
				c.Check(err != nil, key, "%q is accepted as %v", in, u)
				c.Outcome("rejected")
				c.Trace()
			})
		}
	}
}

// uriOp is one operation on a SIP URI, with its meaning for the model.
type uriOp struct {
	name string
	do   func(u *address.SipURIImpl) error
	mod  func(m *sipURI)
	bad  bool                 // is refused
	ok   func(m *sipURI) bool // applicable
}

// uriWide are setters with many more values.
func uriWide() (ops []uriOp) {
	add := func(name string, bad bool, do func(u *address.SipURIImpl) error, mod func(m *sipURI)) {
		ops = append(ops, uriOp{name: name, do: do, mod: mod, bad: bad})
	}
	for _, s := range []string{"0", "A", "aB", "+1-212", "a.b", "a/b", "&=+$,;/-_.!~*'()", "%41", "sip", "x;p=1"} {
		s := s
		add("user "+s, false, func(u *address.SipURIImpl) error { u.SetUser(s); return nil }, func(m *sipURI) { m.user, m.hasUser = s, true })
		if !strings.ContainsAny(s, ";?/") {
			add("password "+s, false, func(u *address.SipURIImpl) error { u.SetUserPassword(s); return nil }, func(m *sipURI) { m.pw = s })
			ops[len(ops)-1].ok = func(m *sipURI) bool { return m.hasUser }
		}
	}
	for _, n := range []int{0, 1, 9, 10, 80, 443, 999, 1024, 5059, 5060, 5061, 5062, 8080, 9999, 32767, 32768, 65535} {
		n := n
		add(fmt.Sprintf("port %d", n), false, func(u *address.SipURIImpl) error { u.SetPort(n); return nil }, func(m *sipURI) { m.port = n })
		add(fmt.Sprintf("host and port %d", n), false, func(u *address.SipURIImpl) error {
			hp := core.NewHostPort()
			hp.SetHost(core.NewHost("hp"))
			hp.SetPort(n)
			u.SetHostPort(hp)
			return nil
		}, func(m *sipURI) { m.host, m.port = "hp", n })
	}
	for _, h := range []string{"a", "A.b", "1.2.3.4", "255.255.255.255", "[2001:DB8::aB]", "[::ffff:1.2.3.4]", "x-1.y.", "localhost", "sip"} {
		h := h
		add("host string "+h, false, func(u *address.SipURIImpl) error { u.SetHostString(h); return nil }, func(m *sipURI) { m.host = h })
		add("host "+h, false, func(u *address.SipURIImpl) error { u.SetHost(core.NewHost(h)); return nil }, func(m *sipURI) { m.host = h })
	}
	for _, p := range []nv{{"a", "b", true}, {"A", "B", true}, {"p", "[::1]:5/&+$", true}, {"p-1", "%41", true}, {"lr", "on", true}, {"LR", "x", true}, {"method", "x-Y", true}, {"user", "Phone", true}, {"comp", "sigcomp", true}, {"x", "X", true}, {"transport", "WS", true}, {"maddr", "H.i", true}, {"p", "a!~*'()b", true}} {
		p := p
		add("parameter "+p.String(), false, func(u *address.SipURIImpl) error { u.SetParameter(p.n, p.v); return nil }, func(m *sipURI) { m.params = put(m.params, p.n, p.v, true) })
		add("URI parameter "+p.String(), false, func(u *address.SipURIImpl) error { u.SetUriParm(p.n, p.v); return nil }, func(m *sipURI) { m.params = put(m.params, p.n, p.v, true) })
		add("default parameter "+p.String(), false, func(u *address.SipURIImpl) error { u.SetDefaultParm(p.n, p.v); return nil }, func(m *sipURI) {
			if find(m.params, p.n) == nil {
				m.params = put(m.params, p.n, p.v, true)
			}
		})
		add("no parameter "+p.n, false, func(u *address.SipURIImpl) error { u.RemoveParameter(p.n); return nil }, func(m *sipURI) { m.params = drop(m.params, p.n) })
	}
	for _, n := range []int{1, 2, 15, 31, 32, 63, 64, 127, 128, 254, 255} {
		n := n
		add(fmt.Sprintf("TTL %d", n), false, func(u *address.SipURIImpl) error { return u.SetTTLParam(n) }, func(m *sipURI) { m.params = put(m.params, "ttl", strconv.Itoa(n), true) })
		add(fmt.Sprintf("ttl=%d", n), false, func(u *address.SipURIImpl) error { u.SetParameter("ttl", strconv.Itoa(n)); return nil }, func(m *sipURI) { m.params = put(m.params, "ttl", strconv.Itoa(n), true) })
	}
	for _, t := range []string{"tls", "TCP", "Udp", "ws", "X-y", "SCTP"} {
		t := t
		add("transport "+t, false, func(u *address.SipURIImpl) error { return u.SetTransportParam(t) }, func(m *sipURI) { m.params = put(m.params, "transport", strings.ToLower(t), true) })
	}
	for _, t := range []string{"INVITE", "invite", "x-Y", "REGISTER"} {
		t := t
		add("method "+t, false, func(u *address.SipURIImpl) error { u.SetMethod(t); return nil }, func(m *sipURI) { m.params = put(m.params, "method", t, true) })
		add("method parameter "+t, false, func(u *address.SipURIImpl) error { u.SetMethodParam(t); return nil }, func(m *sipURI) { m.params = put(m.params, "method", t, true) })
	}
	for _, t := range []string{"ip", "phone", "dialstring", "IP"} {
		t := t
		add("user parameter "+t, false, func(u *address.SipURIImpl) error { u.SetUserParam(t); return nil }, func(m *sipURI) { m.params = put(m.params, "user", t, true) })
	}
	for _, t := range []string{"M.n", "[::1]", "1.2.3.4"} {
		t := t
		add("maddr "+t, false, func(u *address.SipURIImpl) error { return u.SetMAddrParam(t) }, func(m *sipURI) { m.params = put(m.params, "maddr", t, true) })
		add("SetMAddr "+t, false, func(u *address.SipURIImpl) error { u.SetMAddr(t); return nil }, func(m *sipURI) { m.params = put(m.params, "maddr", t, true) })
	}
	for _, p := range []nv{{"a", "b", true}, {"A", "B", true}, {"S", "%3d%26", true}, {"h-1", "[::1]/?:+$", true}, {"t", "", true}, {"body", "x!~*'()y", true}} {
		p := p
		add("header "+p.String(), false, func(u *address.SipURIImpl) error { u.SetHeader(p.n, p.v); return nil }, func(m *sipURI) {
			if o := find(m.hdrs, p.n); o != nil {
				o.v = p.v
			} else {
				m.hdrs = append(m.hdrs, p)
			}
		})
		add("no header "+p.n, false, func(u *address.SipURIImpl) error { u.RemoveHeader(p.n); return nil }, func(m *sipURI) { m.hdrs = drop(m.hdrs, p.n) })
	}
	for _, t := range []string{"sip", "Sip", "SIP", "sips", "sIpS"} {
		t := t
		add("scheme "+t, false, func(u *address.SipURIImpl) error { return u.SetScheme(t) }, func(m *sipURI) { m.scheme = strings.ToLower(t) })
	}
	for _, t := range []string{"", "s", "sipss", "http", "sip:", " sip"} {
		t := t
		add(fmt.Sprintf("scheme %q", t), true, func(u *address.SipURIImpl) error { return u.SetScheme(t) }, nil)
	}
	for _, n := range []int{-2, -100} {
		n := n
		add(fmt.Sprintf("TTL %d", n), true, func(u *address.SipURIImpl) error { return u.SetTTLParam(n) }, nil)
	}
	return
}

func uriOps(c *mc.C) []uriOp {
	none := func(m *sipURI) {}
	nor := func(f func(u *address.SipURIImpl)) func(u *address.SipURIImpl) error {
		return func(u *address.SipURIImpl) error { f(u); return nil }
	}
	var ops []uriOp
	add := func(name string, do func(u *address.SipURIImpl), mod func(m *sipURI)) {
		ops = append(ops, uriOp{name: name, do: nor(do), mod: mod})
	}
	adde := func(name string, bad bool, do func(u *address.SipURIImpl) error, mod func(m *sipURI)) {
		ops = append(ops, uriOp{name: name, do: do, mod: mod, bad: bad})
	}
	for _, s := range []string{"bob", "%40;x"} {
		s := s
		add("SetUser "+s, func(u *address.SipURIImpl) { u.SetUser(s) }, func(m *sipURI) { m.user, m.hasUser = s, true })
	}
	add("RemoveUser", func(u *address.SipURIImpl) { u.RemoveUser() }, func(m *sipURI) { m.user, m.pw, m.hasUser = "", "", false })
	add("SetUserPassword", func(u *address.SipURIImpl) { u.SetUserPassword("s3") }, func(m *sipURI) { m.pw = "s3" })
	ops[len(ops)-1].ok = func(m *sipURI) bool { return m.hasUser }
	add("ClearPassword", func(u *address.SipURIImpl) { u.ClearPassword() }, func(m *sipURI) { m.pw = "" })
	for _, h := range []string{"new.org", "[::2]"} {
		h := h
		add("SetHostString "+h, func(u *address.SipURIImpl) { u.SetHostString(h) }, func(m *sipURI) { m.host = h })
	}
	add("SetHost", func(u *address.SipURIImpl) { u.SetHost(core.NewHost("10.0.0.1")) }, func(m *sipURI) { m.host = "10.0.0.1" })
	add("SetHostPort", func(u *address.SipURIImpl) {
		hp := core.NewHostPort()
		hp.SetHost(core.NewHost("hp"))
		u.SetHostPort(hp)
	}, func(m *sipURI) { m.host, m.port = "hp", -1 })
	add("SetPort", func(u *address.SipURIImpl) { u.SetPort(5070) }, func(m *sipURI) { m.port = 5070 })
	add("RemovePort", func(u *address.SipURIImpl) { u.RemovePort() }, func(m *sipURI) { m.port = -1 })
	for _, p := range []nv{{"x", "1", true}, {"X", "2", true}, {"y", "3", true}, {"ttl", "9", true}, {"Transport", "sctp", true}} {
		p := p
		add("SetParameter "+p.String(), func(u *address.SipURIImpl) { u.SetParameter(p.n, p.v) }, func(m *sipURI) { m.params = put(m.params, p.n, p.v, true) })
	}
	add("SetParameter ttl=x", func(u *address.SipURIImpl) { u.SetParameter("ttl", "x") }, none)
	add("SetUriParm", func(u *address.SipURIImpl) { u.SetUriParm("x", "5") }, func(m *sipURI) { m.params = put(m.params, "x", "5", true) })
	for _, n := range []string{"x", "Transport", "absent", "LR"} {
		n := n
		add("RemoveParameter "+n, func(u *address.SipURIImpl) { u.RemoveParameter(n) }, func(m *sipURI) { m.params = drop(m.params, n) })
	}
	for _, n := range []string{"x", "lr"} {
		n := n
		add("SetDefaultParm "+n, func(u *address.SipURIImpl) { u.SetDefaultParm(n, "d") }, func(m *sipURI) {
			if find(m.params, n) == nil {
				m.params = put(m.params, n, "d", true)
			}
		})
	}
	for _, t := range []string{"UDP", "tcp", "sctp", "TLS"} {
		t := t
		adde("SetTransportParam "+t, false, func(u *address.SipURIImpl) error { return u.SetTransportParam(t) }, func(m *sipURI) { m.params = put(m.params, "transport", strings.ToLower(t), true) })
	}
	adde("SetTransportParam none", true, func(u *address.SipURIImpl) error { return u.SetTransportParam("") }, none)
	add("RemoveTransport", func(u *address.SipURIImpl) { u.RemoveTransport() }, func(m *sipURI) { m.params = drop(m.params, "transport") })
	adde("SetTTLParam 16", false, func(u *address.SipURIImpl) error { return u.SetTTLParam(16) }, func(m *sipURI) { m.params = put(m.params, "ttl", "16", true) })
	adde("SetTTLParam -1", true, func(u *address.SipURIImpl) error { return u.SetTTLParam(-1) }, none)
	add("RemoveTTL", func(u *address.SipURIImpl) { u.RemoveTTL() }, func(m *sipURI) { m.params = drop(m.params, "ttl") })
	adde("SetMAddrParam", false, func(u *address.SipURIImpl) error { return u.SetMAddrParam("224.2.0.1") }, func(m *sipURI) { m.params = put(m.params, "maddr", "224.2.0.1", true) })
	adde("SetMAddrParam none", true, func(u *address.SipURIImpl) error { return u.SetMAddrParam("") }, none)
	add("SetMAddr", func(u *address.SipURIImpl) { u.SetMAddr("224.9.9.9") }, func(m *sipURI) { m.params = put(m.params, "maddr", "224.9.9.9", true) })
	add("RemoveMAddr", func(u *address.SipURIImpl) { u.RemoveMAddr() }, func(m *sipURI) { m.params = drop(m.params, "maddr") })
	add("SetMethodParam", func(u *address.SipURIImpl) { u.SetMethodParam("BYE") }, func(m *sipURI) { m.params = put(m.params, "method", "BYE", true) })
	add("SetMethod", func(u *address.SipURIImpl) { u.SetMethod("ACK") }, func(m *sipURI) { m.params = put(m.params, "method", "ACK", true) })
	add("RemoveMethod", func(u *address.SipURIImpl) { u.RemoveMethod() }, func(m *sipURI) { m.params = drop(m.params, "method") })
	add("SetUserParam", func(u *address.SipURIImpl) { u.SetUserParam("phone") }, func(m *sipURI) { m.params = put(m.params, "user", "phone", true) })
	add("RemoveUserType", func(u *address.SipURIImpl) { u.RemoveUserType() }, func(m *sipURI) { m.params = drop(m.params, "user") })
	add("SetLrParam", func(u *address.SipURIImpl) { u.SetLrParam() }, func(m *sipURI) {
		if find(m.params, "lr") == nil {
			m.params = put(m.params, "lr", "", false)
		}
	})
	add("ClearUriParms", func(u *address.SipURIImpl) { u.ClearUriParms() }, func(m *sipURI) { m.params = nil })
	add("RemoveUriParms", func(u *address.SipURIImpl) { u.RemoveUriParms() }, func(m *sipURI) { m.params = nil })
	for _, p := range []nv{{"s", "a", true}, {"S", "b", true}, {"t", "%20", true}} {
		p := p
		add("SetHeader "+p.String(), func(u *address.SipURIImpl) { u.SetHeader(p.n, p.v) }, func(m *sipURI) {
			if o := find(m.hdrs, p.n); o != nil {
				o.v = p.v
			} else {
				m.hdrs = append(m.hdrs, p)
			}
		})
	}
	add("RemoveHeader s", func(u *address.SipURIImpl) { u.RemoveHeader("s") }, func(m *sipURI) { m.hdrs = drop(m.hdrs, "s") })
	add("RemoveHeaders", func(u *address.SipURIImpl) { u.RemoveHeaders() }, func(m *sipURI) { m.hdrs = nil })
	add("ClearQheaders", func(u *address.SipURIImpl) { u.ClearQheaders() }, func(m *sipURI) { m.hdrs = nil })
	add("SetSecure true", func(u *address.SipURIImpl) { u.SetSecure(true) }, func(m *sipURI) { m.scheme = "sips" })
	add("SetSecure false", func(u *address.SipURIImpl) { u.SetSecure(false) }, func(m *sipURI) { m.scheme = "sip" })
	adde("SetScheme SIPS", false, func(u *address.SipURIImpl) error { return u.SetScheme("SIPS") }, func(m *sipURI) { m.scheme = "sips" })
	adde("SetScheme tel", true, func(u *address.SipURIImpl) error { return u.SetScheme("tel") }, none)
	return ops
}

func c14(c *mc.C) {
	starts := []struct {
		in string
		m  sipURI
	}{
		{"", sipURI{scheme: "sip", port: -1}},
		{"sip:h", sipURI{scheme: "sip", host: "h", port: -1}},
		{"sips:a:b@h:1;x=0;transport=udp;lr;maddr=m;ttl=1;user=ip;method=INVITE?s=1&t=2", sipURI{scheme: "sips", user: "a", pw: "b", hasUser: true, host: "h", port: 1,
			params: []nv{{"x", "0", true}, {"transport", "udp", true}, {"lr", "", false}, {"maddr", "m", true}, {"ttl", "1", true}, {"user", "ip", true}, {"method", "INVITE", true}}, hdrs: []nv{{"s", "1", true}, {"t", "2", true}}}},
		{"sip:u@[::1];X=1;x=2;y;Z=;TTL=5?S=&t=%20&s=2", sipURI{scheme: "sip", user: "u", hasUser: true, host: "[::1]", port: -1,
			params: []nv{{"X", "1", true}, {"x", "2", true}, {"y", "", false}, {"Z", "", true}, {"TTL", "5", true}}, hdrs: []nv{{"S", "", true}, {"t", "%20", true}, {"s", "2", true}}}},
	}
	ops, wide := uriOps(c), uriWide()
	depth := c.Pick(3, 4)
	c.Bound("operations with a value of the wider tables", "%d, alone, before and after (thorough: and between) every other", len(wide))
	c.Bound("operations", "%d", len(ops))
	c.Bound("depth", "%d operations, from %d starting URIs", depth, len(starts))
	fresh := func(i int) *address.SipURIImpl {
		if starts[i].in == "" {
			return address.NewSipURIImpl()
		}
		u, err := parser.NewStringMsgParser().ParseSIPUrl(starts[i].in)
		if err != nil || u == nil {
			panic(fmt.Sprintf("%q is rejected: %v", starts[i].in, err))
		}
		return u
	}
	for si := range starts {
		si := si
		one := func(hist ...uriOp) {
			if c.Mine() {
				key := starts[si].in
				for _, o := range hist {
					key += " | " + o.name
				}
				c.Run(key, func() {
					k := kk{c, key}
					u := fresh(si)
					m := starts[si].m.clone()
					var left *address.SipURIImpl // an abandoned original of a clone
					leftText := ""
					for i, op := range hist {
						if op.ok != nil && !op.ok(m) {
							return
						}
						if i == len(hist)-1 { // the last operation is done on a clone
							cl, ok := u.Clone().(*address.SipURIImpl)
							if !c.Check(ok && cl != nil, key, "the clone is a %T", u.Clone()) {
								return
							}
							m.check(kk{c, key + " (clone)"}, cl)
							left, leftText = u, u.String()
							u = cl
						}
						c.Step(1)
						err := op.do(u)
						k.eq(op.name+" is refused", err != nil, op.bad)
						if err == nil {
							op.mod(m)
						}
					}
					m.check(k, u)
					if left != nil {
						k.eq("original after its clone was changed", left.String(), leftText)
					}
					c.State(u.String())
					if m.host != "" {
						c.Step(1)
						u2, err := parser.NewStringMsgParser().ParseSIPUrl(u.String())
						if c.Check(err == nil && u2 != nil, key, "gives %q, which is rejected: %v", u.String(), err) {
							k.eq("text of the URI its text parses to", u2.String(), u.String())
						}
					}
					c.Trace()
				})
			}
		}
		var rec func(hist []uriOp)
		rec = func(hist []uriOp) {
			one(hist...)
			if len(hist) < depth {
				for _, o := range ops {
					rec(append(append([]uriOp{}, hist...), o))
				}
			}
		}
		rec(nil)
		for _, w := range wide {
			one(w)
			for _, o := range ops {
				one(o, w)
				one(w, o)
				if c.Thorough() {
					for _, p := range ops {
						one(o, w, p)
					}
				}
			}
		}
	}
}
