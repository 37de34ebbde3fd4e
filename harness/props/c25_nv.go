package props

import (
	"container/list"
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C25", Rule: "all sequences of operations on name-value lists and on the parameters of every header that has them, to a depth, in lock step with a list of pairs; every name-value pair on its own", Run: c25})
}

// pair is a name with a value, nil or not, quoted or not.
type pair struct {
	n      string
	v      interface{}
	quoted bool
}

func (p pair) String() string {
	s := p.n
	if p.v == nil {
		return s
	}
	if s != "" {
		s += "="
	}
	if p.quoted {
		return s + `"` + p.v.(string) + `"`
	}
	return s + p.v.(string)
}

func (p pair) nv() *core.NameValue {
	nv := core.NewNameValue(p.n, p.v)
	if p.quoted {
		nv.SetQuotedValue()
	}
	return nv
}

type pairs []pair

func (l pairs) find(n string) *pair {
	for i := range l {
		if strings.EqualFold(l[i].n, n) {
			return &l[i]
		}
	}
	return nil
}

func (l pairs) without(n string) (r pairs) {
	for _, p := range l {
		if !strings.EqualFold(p.n, n) {
			r = append(r, p)
		}
	}
	return
}

func (l pairs) join(sep string) string {
	var s []string
	for _, p := range l {
		s = append(s, p.String())
	}
	return strings.Join(s, sep)
}

func names(l *list.List) string {
	var s []string
	for e := l.Front(); e != nil; e = e.Next() {
		s = append(s, fmt.Sprint(e.Value))
	}
	return strings.Join(s, ",")
}

func (l pairs) names() string {
	var s []string
	for _, p := range l {
		s = append(s, p.n)
	}
	return strings.Join(s, ",")
}

func (l pairs) check(k kk, what string, nl *core.NameValueList, sep string) {
	k.eq(what+"text", nl.String(), l.join(sep))
	k.eq(what+"length", nl.Len(), len(l))
	k.eq(what+"names", names(nl.GetNames()), l.names())
	for _, n := range []string{"a", "A", "b", "B", "c", "zz"} {
		p := l.find(n)
		k.eq(what+"has "+n, nl.HasNameValue(n), p != nil)
		nv := nl.GetNameValue(n)
		if p == nil {
			k.ok(what+"pair "+n+" is there", nv == nil)
			k.ok(what+"value of "+n+" is there", nl.GetValue(n) == nil)
			k.eq(what+"parameter "+n, nl.GetParameter(n), "")
			continue
		}
		if nv == nil {
			k.ok(what+"pair "+n+" is not there", false)
			continue
		}
		s, _ := p.v.(string)
		k.eq(what+"value of "+n, nl.GetValue(n), p.v)
		k.eq(what+"parameter "+n, nl.GetParameter(n), s)
		k.eq(what+"name of pair "+n, nv.GetName(), p.n)
		k.eq(what+"value of pair "+n, nv.GetValue(), p.v)
		k.eq(what+"pair "+n+" is quoted", nv.IsValueQuoted(), p.quoted)
	}
}

func c25(c *mc.C) {
	c25pairs(c)
	c25lists(c)
	c25challenges(c)
	c25headers(c)
}

func c25pairs(c *mc.C) {
	vals := []interface{}{nil, "", "v", `q "\"`, "x=y", "\xff;"}
	for _, n := range []string{"", "n", "N-1"} {
		for _, v := range vals {
			for _, quoted := range []bool{false, true} {
				for _, sep := range []string{"", ":", " = "} {
					for _, v2 := range vals {
						if !c.Mine() {
							continue
						}
						p := pair{n, v, quoted}
						key := fmt.Sprintf("pair %q %v, separator %q, then %v", n, p, sep, v2)
						n, v, quoted, sep, v2 := n, v, quoted, sep, v2
						c.Run(key, func() {
							k := kk{c, key}
							c.Step(3)
							nv := p.nv()
							text := func(p pair, sep string) string {
								if sep == "" || p.n == "" || p.v == nil {
									return p.String()
								}
								return p.n + sep + pair{"", p.v, p.quoted}.String()
							}
							if sep != "" {
								nv.SetSeparator(sep)
							}
							k.eq("text", nv.String(), text(p, sep))
							k.eq("name", nv.GetName(), n)
							k.eq("value", nv.GetValue(), v)
							k.eq("is quoted", nv.IsValueQuoted(), quoted)
							cl := nv.Clone().(*core.NameValue)
							cl.SetValue(v2)
							k.eq("text after its clone was set", nv.String(), text(p, sep))
							k.eq("text of the clone", cl.String(), text(pair{n, v2, quoted}, sep))
							cl.SetName("other")
							cl.SetQuotedValue()
							k.eq("text after its clone was renamed", nv.String(), text(p, sep))
							k.eq("text of the renamed clone", cl.String(), text(pair{"other", v2, true}, sep))
							c.State(key)
							c.Trace()
						})
					}
				}
			}
		}
	}
}

func c25lists(c *mc.C) {
	type st struct {
		l       *core.NameValueList
		m       pairs
		sep     string
		orig    *core.NameValueList // what was cloned
		origM   pairs
		origSep string
	}
	type op struct {
		name string
		do   func(k kk, s *st)
	}
	var ops []op
	add := func(n string, f func(k kk, s *st)) { ops = append(ops, op{n, f}) }
	for _, p := range []pair{{"a", "1", false}, {"A", nil, false}, {"b", "q r", true}, {"B", "", false}} {
		p := p
		add("add "+p.String(), func(k kk, s *st) {
			if p.quoted {
				s.l.AddNameValue(p.nv())
			} else {
				s.l.AddNameAndValue(p.n, p.v)
			}
			s.m = append(s.m[:len(s.m):len(s.m)], p)
		})
	}
	for _, p := range []pair{{"a", "2", false}, {"A", "z", true}, {"B", nil, false}, {"c", "", true}} {
		p := p
		add("set "+p.String(), func(k kk, s *st) {
			if p.quoted {
				s.l.SetNameValue(p.nv())
			} else {
				s.l.SetNameAndValue(p.n, p.v)
			}
			s.m = append(s.m.without(p.n), p)
		})
	}
	for _, n := range []string{"a", "B", "zz"} {
		n := n
		add("delete "+n, func(k kk, s *st) {
			k.eq("deleted "+n, s.l.Delete(n), s.m.find(n) != nil)
			s.m = s.m.without(n)
		})
	}
	other := pairs{{"c", "3", false}, {"a", "4", true}}
	for _, top := range []bool{false, true} {
		top := top
		add(fmt.Sprintf("concatenate, top %v", top), func(k kk, s *st) {
			o := core.NewNameValueList("o")
			o.SetSeparator("&")
			for _, p := range other {
				o.AddNameValue(p.nv())
			}
			s.l.Concatenate(o, top)
			if top {
				s.m = append(append(pairs{}, other...), s.m...)
			} else {
				s.m = append(s.m[:len(s.m):len(s.m)], other...)
			}
			other.check(k, "concatenated list: ", o, "&")
		})
	}
	add("concatenate nothing", func(k kk, s *st) {
		s.l.Concatenate(nil, true)
		s.l.Concatenate(core.NewNameValueList("e"), false)
		s.l.AddNameValue(nil)
	})
	add("separator", func(k kk, s *st) { s.l.SetSeparator(", "); s.sep = ", " })
	add("go on with a clone", func(k kk, s *st) {
		s.orig, s.origM, s.origSep = s.l, s.m, s.sep
		s.l = s.l.Clone().(*core.NameValueList)
	})
	add("go on with the original", func(k kk, s *st) {
		if s.orig != nil {
			s.l, s.orig = s.orig, s.l
			s.m, s.origM = s.origM, s.m
			s.sep, s.origSep = s.origSep, s.sep
		}
	})
	add("change the pair a", func(k kk, s *st) {
		if nv := s.l.GetNameValue("a"); nv != nil {
			nv.SetValue("changed")
			m := append(pairs{}, s.m...)
			m.find("a").v = "changed"
			s.m = m
		}
	})
	depth := c.Pick(4, 5)
	c.Bound("list operations", "all sequences of up to %d of %d", depth, len(ops))
	var rec func(seq []int)
	rec = func(seq []int) {
		if c.Mine() {
			key := "list: "
			for _, i := range seq {
				key += ops[i].name + "; "
			}
			c.Run(key, func() {
				k := kk{c, key}
				s := &st{l: core.NewNameValueList("l"), sep: ";"}
				for _, i := range seq {
					c.Step(1)
					ops[i].do(k, s)
				}
				s.m.check(k, "", s.l, s.sep)
				if s.orig != nil {
					s.origM.check(k, "the other list: ", s.orig, s.origSep)
				}
				c.State(s.l.String())
				c.Trace()
				if c.CaseNo()%9973 == 0 {
					c.Sample("%s -> %q", key, s.l.String())
				}
			})
		}
		if len(seq) < depth {
			for i := range ops {
				rec(append(append([]int{}, seq...), i))
			}
		}
	}
	rec(nil)
}

// c25challenges explores the parameters of a challenge, which are separated by
// commas.
func c25challenges(c *mc.C) {
	type op struct {
		name string
		do   func(k kk, x *header.Challenge, m *pairs, scheme *string)
	}
	var ops []op
	for _, p := range []pair{{"a", "1", false}, {"A", "q r", true}, {"realm", "x", true}, {"qop", "auth", false}} {
		p := p
		ops = append(ops, op{"set " + p.String(), func(k kk, x *header.Challenge, m *pairs, _ *string) {
			x.SetParameter(p.nv())
			*m = append(m.without(p.n), p)
		}})
	}
	for _, n := range []string{"a", "REALM"} {
		n := n
		ops = append(ops, op{"remove " + n, func(k kk, x *header.Challenge, m *pairs, _ *string) {
			k.eq("removed "+n, x.RemoveParameter(n), m.find(n) != nil)
			*m = m.without(n)
		}})
	}
	ops = append(ops, op{"remove all", func(k kk, x *header.Challenge, m *pairs, _ *string) {
		x.RemoveParameters()
		*m = nil
	}}, op{"set the scheme", func(k kk, x *header.Challenge, m *pairs, scheme *string) {
		x.SetScheme("Digest")
		*scheme = "Digest"
	}}, op{"set a list", func(k kk, x *header.Challenge, m *pairs, _ *string) {
		l := core.NewNameValueList("l")
		l.SetSeparator(",")
		*m = pairs{{"b", "2", false}, {"qop", "auth", true}}
		for _, p := range *m {
			l.AddNameValue(p.nv())
		}
		x.SetAuthParams(l)
	}})
	depth := c.Pick(4, 5)
	c.Bound("operations on a challenge", "all sequences of up to %d of %d", depth, len(ops))
	sequences(len(ops), depth, func(seq []int) {
		if !c.Mine() {
			return
		}
		key := "challenge: "
		for _, i := range seq {
			key += ops[i].name + "; "
		}
		c.Run(key, func() {
			k := kk{c, key}
			x := header.NewChallenge()
			var m pairs
			scheme := ""
			for _, i := range seq {
				c.Step(1)
				ops[i].do(k, x, &m, &scheme)
			}
			k.eq("text", x.String(), scheme+" "+m.join(","))
			k.eq("scheme", x.GetScheme(), scheme)
			k.eq("has parameters", x.HasParameters(), len(m) > 0)
			m.check(k, "", x.GetAuthParams(), ",")
			value := func(n string) string {
				if p := m.find(n); p != nil {
					return p.v.(string)
				}
				return ""
			}
			for _, n := range []string{"a", "B", "Realm", "qop", "uri"} {
				k.eq("parameter "+n, x.GetParameter(n), value(n))
				k.eq("has "+n, x.HasParameter(n), m.find(n) != nil)
			}
			k.eq("realm", x.GetRealm(), value("realm"))
			k.eq("qop", x.GetQOP(), value("qop"))
			k.eq("other parts", x.GetURI()+x.GetDomain()+x.GetOpaque()+x.GetAlgorithm()+x.GetStale()+x.GetSignature()+x.GetSignedBy()+x.GetResponse(), "")
			c.State(x.String())
			c.Trace()
		})
	})
}

type paramHeader interface {
	header.Header
	SetParameter(name, value string) error
	GetParameter(name string) string
	GetParameterValue(name string) string
	GetParameterNames() *list.List
	GetParameters() *core.NameValueList
	HasParameter(name string) bool
	HasParameters() bool
	RemoveParameter(name string)
	RemoveParameters()
	SetQuotedParameter(name, value string)
	SetParameterFromNameValue(nv *core.NameValue)
	SetParameters(l *core.NameValueList)
	GetNameValue(name string) *core.NameValue
}

// paramHeaders are the headers that have parameters: name, value without
// them, and what stands between parameters.
var paramHeaders = []struct{ name, val, first, sep string }{
	{"Contact", "<sip:a@h;x=0>", ";", ";"},
	{"From", "<sip:a@h>", ";", ";"},
	{"To", "\"N\" <sip:a@h>", ";", ";"},
	{"Reply-To", "<sip:a@h>", ";", ";"},
	{"Refer-To", "<sip:a@h>", ";", ";"},
	{"Route", "<sip:h;lr>", ";", ";"},
	{"Record-Route", "<sip:h;lr>", ";", ";"},
	{"Via", "SIP/2.0/UDP h:1", ";", ";"},
	{"Accept", "text/plain", ";", ";"},
	{"Accept-Encoding", "gzip", ";", ";"},
	{"Accept-Language", "en", ";", ";"},
	{"Alert-Info", "<http://h/x>", ";", ";"},
	{"Call-Info", "<http://h/x>", ";", ";"},
	{"Error-Info", "<http://h/x>", ";", ";"},
	{"Content-Disposition", "session", ";", ";"},
	{"Content-Type", "text/plain", ";", ";"},
	{"Event", "presence", ";", ";"},
	{"Reason", "SIP", ";", ";"},
	{"Retry-After", "5", ";", ";"},
	{"Subscription-State", "active", ";", ";"},
	{"Authorization", "Digest", " ", ","},
	{"Proxy-Authorization", "Digest", " ", ","},
	{"WWW-Authenticate", "Digest", " ", ","},
	{"Proxy-Authenticate", "Digest", " ", ","},
	{"Authentication-Info", "", "", ","},
}

func c25headers(c *mc.C) {
	type op struct {
		name string
		do   func(h paramHeader)
		mod  func(m pairs) pairs
	}
	var ops []op
	set := func(p pair) func(m pairs) pairs {
		return func(m pairs) pairs {
			m = append(pairs{}, m...)
			if q := m.find(p.n); q != nil {
				q.v = p.v
				q.quoted = q.quoted || p.quoted
				return m
			}
			return append(m, p)
		}
	}
	for _, p := range []pair{{"x", "1", false}, {"X", "two", false}, {"y", "", false}, {"X", "", false}, {"x", "q;r", true}, {"z", "", true}} {
		p := p
		ops = append(ops, op{fmt.Sprintf("set %s", p), func(h paramHeader) {
			if p.quoted {
				h.SetQuotedParameter(p.n, p.v.(string))
			} else {
				h.SetParameter(p.n, p.v.(string))
			}
		}, set(p)})
	}
	for _, n := range []string{"X", "y", "no"} {
		n := n
		ops = append(ops, op{"remove " + n, func(h paramHeader) { h.RemoveParameter(n) }, func(m pairs) pairs { return m.without(n) }})
	}
	ops = append(ops,
		op{"remove all", func(h paramHeader) { h.RemoveParameters() }, func(m pairs) pairs { return nil }},
		op{"set pair w", func(h paramHeader) {
			h.RemoveParameter("w")
			h.SetParameterFromNameValue(core.NewNameValue("w", "5"))
		}, func(m pairs) pairs { return append(m.without("w"), pair{"w", "5", false}) }},
		op{"set list", func(h paramHeader) {
			l := h.GetParameters().Clone().(*core.NameValueList)
			l.Delete("x")
			l.AddNameAndValue("x", "n")
			h.SetParameters(l)
		}, func(m pairs) pairs { return append(m.without("x"), pair{"x", "n", false}) }})
	depth := c.Pick(3, 5)
	c.Bound("operations on parameters", "all sequences of up to %d of %d, on %d headers", depth, len(ops), len(paramHeaders))
	for _, ph := range paramHeaders {
		ph := ph
		starts := []pairs{nil, {{"x", "0", false}, {"q1", "a,b", true}, {"y", "", false}}}
		for _, start := range starts {
			start := start
			if ph.val == "Digest" && start == nil || ph.val == "" && start == nil {
				start = pairs{{"p", "0", false}}
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				if c.Mine() {
					line := func(m pairs) string {
						s := ph.name + ": " + ph.val
						if len(m) > 0 {
							s += ph.first + m.join(ph.sep)
						}
						if ph.name == "Via" { // here an empty value makes a flag
							s = strings.ReplaceAll(s+";", "=;", ";")
							s = s[:len(s)-1]
						}
						return s
					}
					key := line(start) + ": "
					for _, i := range seq {
						key += ops[i].name + "; "
					}
					c.Run(key, func() {
						k := kk{c, key}
						l, err := parseLine(line(start) + "\n")
						if !c.Check(err == nil, key, "%q is rejected: %v", line(start), err) {
							return
						}
						h, ok := elements(l)[0].(paramHeader)
						if !c.Check(ok, key, "%T has no parameters", elements(l)[0]) {
							return
						}
						m := start
						for _, i := range seq {
							c.Step(1)
							ops[i].do(h)
							m = ops[i].mod(m)
						}
						see := func(what string, h paramHeader) {
							for _, n := range []string{"x", "X", "y", "Z", "w", "q1", "no"} {
								p := m.find(n)
								k.eq(what+"has "+n, h.HasParameter(n), p != nil)
								v := ""
								if p != nil {
									v = p.v.(string)
								}
								k.eq(what+n, unq(h.GetParameter(n)), v)
								k.eq(what+"value of "+n, unq(h.GetParameterValue(n)), v)
								k.eq(what+"pair "+n+" is there", h.GetNameValue(n) != nil, p != nil)
							}
							k.eq(what+"has parameters", h.HasParameters(), len(m) > 0)
							k.eq(what+"names", strings.ToLower(names(h.GetParameterNames())), strings.ToLower(m.names()))
						}
						see("", h)
						want := strings.TrimRight(line(m), " ")
						k.eq("text", strings.TrimRight(h.String(), "\r\n "), want)
						if len(m) > 0 || ph.sep == ";" {
							l, err := parseLine(h.String()[:len(h.String())-2] + "\n")
							if c.Check(err == nil, key, "%q is rejected: %v", h.String(), err) {
								see("parsed again: ", elements(l)[0].(paramHeader))
							}
						}
						c.State(h.String())
						c.Trace()
						if c.CaseNo()%9973 == 0 {
							c.Sample("%s -> %q", key, h.String())
						}
					})
				}
				if len(seq) < depth {
					for i := range ops {
						rec(append(append([]int{}, seq...), i))
					}
				}
			}
			rec(nil)
		}
	}
}
