package props

import (
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C15", Rule: "telephone numbers (global and local) over their alphabet x parameter sequences, as tel URL and alone; set and remove operations on tel URLs to a depth, in lock step with a model; generic URIs: schemes x all texts over a class-representative alphabet; malformed ones, to be rejected", Run: c15})
}

// telURL is the reference model of a tel URL.
type telURL struct {
	global bool
	num    string
	params []nv
}

func (m *telURL) text() string {
	s := m.num
	if m.global {
		s = "+" + s
	}
	return s + joined(m.params, ";", ";")
}

func (m *telURL) val(n string) string {
	if p := find(m.params, n); p != nil {
		return p.v
	}
	return ""
}

func (m *telURL) check(k kk, u *address.TelURLImpl) {
	k.eq("scheme", u.GetScheme(), "tel")
	k.eq("is a SIP URI", u.IsSipURI(), false)
	k.eq("global", u.IsGlobal(), m.global)
	k.eq("number", u.GetPhoneNumber(), m.num)
	k.eq("isdn subaddress", u.GetIsdnSubAddress(), m.val("isub"))
	k.eq("post dial", u.GetPostDial(), m.val("postdial"))
	for _, n := range []string{"isub", "postdial", "phone-context", "x", "absent"} {
		k.eq("parameter "+n, u.GetParameter(n), m.val(n))
		k.eq("parameter "+strings.ToUpper(n), u.GetParameter(strings.ToUpper(n)), m.val(n))
	}
	k.eq("number of parameters", u.GetParameterNames().Len(), len(m.params))
	k.eq("text, parameters in any order", sortedURI(u.String()), sortedURI("tel:"+m.text()))
}

func (m *telURL) checkNumber(k kk, t *address.TelephoneNumber) {
	k.eq("number: global", t.IsGlobal(), m.global)
	k.eq("number: number", t.GetPhoneNumber(), m.num)
	k.eq("number: isdn subaddress", t.GetIsdnSubaddress(), m.val("isub"))
	k.eq("number: has an isdn subaddress", t.HasIsdnSubaddress(), find(m.params, "isub") != nil)
	k.eq("number: post dial", t.GetPostDial(), m.val("postdial"))
	k.eq("number: has a post dial", t.HasPostDial(), find(m.params, "postdial") != nil)
	for _, n := range []string{"x", "absent", "phone-context"} {
		k.eq("number: has parameter "+n, t.HasParm(n), find(m.params, n) != nil)
		k.eq("number: parameter "+n, t.GetParameter(n), m.val(n))
	}
	k.eq("number: text", t.String(), m.text())
}

func c15(c *mc.C) {
	one := func(m *telURL, sch string) {
		if !c.Mine() {
			return
		}
		in := sch + ":" + m.text()
		c.Run(in, func() {
			k := kk{c, in}
			c.Step(4)
			p, err := parser.NewURLParser(in).Parse()
			if !c.Check(err == nil, in, "%q is rejected: %v", in, err) {
				return
			}
			u, ok := p.(*address.TelURLImpl)
			if !c.Check(ok, in, "%q gives a %T", in, p) {
				return
			}
			m.check(k, u)
			k.eq("encoding", u.String(), "tel:"+m.text())
			c.State(u.String())
			g, err := parser.NewStringMsgParser().ParseUrl(in)
			if c.Check(err == nil && g != nil, in, "%q is rejected: %v", in, err) {
				k.eq("as any URI", g.String(), u.String())
			}
			t, err := parser.NewStringMsgParser().ParSetelephoneNumber(m.text())
			if c.Check(err == nil && t != nil, in, "number %q is rejected: %v", m.text(), err) {
				m.checkNumber(k, t)
			}
			a, err := parser.NewStringMsgParser().ParseAddress("N <" + in + ">")
			if c.Check(err == nil && a != nil && a.GetURI() != nil, in, "<%s> is rejected: %v", in, err) {
				k.eq("in an address", a.GetURI().String(), u.String())
				k.eq("is a SIP address", a.IsSIPAddress(), false)
			}
			s, err := parser.NewStringMsgParser().ParseSIPUrl(in)
			c.Check(err != nil && s == nil, in, "%q is taken for a SIP URI", in)
			c.Trace()
			if c.CaseNo()%9973 == 0 {
				c.Sample("%q", in)
			}
		})
	}
	schemes := []string{"tel", "TEL", "Tel"}
	glob := words([]string{"0", "9", "-", ".", "(", ")"}, c.Pick(4, 6))
	loc := words([]string{"0", "7", "-", ".", "(", ")", "*", "#"}, c.Pick(4, 5))
	c.Bound("numbers", "%d global, %d local", len(glob), len(loc))
	ps := []nv{{"isub", "1411", true}, {"postdial", "22", true}, {"phone-context", "+1", true}, {"x", "a.b-c!%*_+`'~", true}, {"y", "", false}, {"Z", "1", true}}
	var seqs [][]nv
	var rec func(s []nv)
	rec = func(s []nv) {
		seqs = append(seqs, s)
		if len(s) < c.Pick(3, 5) {
			for _, p := range ps {
				if find(s, p.n) == nil {
					rec(append(append([]nv{}, s...), p))
				}
			}
		}
	}
	rec(nil)
	c.Bound("parameter sequences", "%d", len(seqs))
	for i, n := range glob {
		one(&telURL{true, n, nil}, schemes[i%3])
		one(&telURL{true, n, seqs[i%len(seqs)]}, "tel")
	}
	for i, n := range loc {
		one(&telURL{false, n, nil}, schemes[i%3])
		one(&telURL{false, n, seqs[i%len(seqs)]}, "tel")
	}
	for _, s := range seqs {
		one(&telURL{true, "1-212-555", s}, "tel")
		one(&telURL{false, "*69#", s}, "tel")
	}

	reject := func(in string, f func() (interface{}, error)) {
		if !c.Mine() {
			return
		}
		key := "bad " + in
		c.Run(key, func() {
			c.Step(1)
			v, err := f()
			c.Check(err != nil && isNil(v), key, "%q is accepted as %v", in, render(v, nil))
			c.Outcome("rejected")
			c.Trace()
		})
	}
	for _, s := range []string{"", "+", "+x", "x", "abc", "+*", ";isub=1", "+;x", "12;", "12 34", "+1=", "1@h", "+1+2", " 1"} {
		s := s
		for _, sch := range schemes {
			in := sch + ":" + s
			reject(in, func() (interface{}, error) { return parser.NewStringMsgParser().ParseUrl(in) })
		}
		reject(s, func() (interface{}, error) { return parser.NewStringMsgParser().ParSetelephoneNumber(s) })
	}

	// operations
	type op struct {
		name string
		do   func(u *address.TelURLImpl)
		mod  func(m *telURL)
	}
	ops := []op{
		{"SetPhoneNumber 911", func(u *address.TelURLImpl) { u.SetPhoneNumber("911") }, func(m *telURL) { m.num = "911" }},
		{"SetPhoneNumber 1-2", func(u *address.TelURLImpl) { u.SetPhoneNumber("1-2") }, func(m *telURL) { m.num = "1-2" }},
		{"SetGlobal true", func(u *address.TelURLImpl) { u.SetGlobal(true) }, func(m *telURL) { m.global = true }},
		{"SetGlobal false", func(u *address.TelURLImpl) { u.SetGlobal(false) }, func(m *telURL) { m.global = false }},
	}
	for _, v := range []string{"5", "6"} {
		v := v
		ops = append(ops,
			op{"SetPostDial " + v, func(u *address.TelURLImpl) { u.SetPostDial(v) }, func(m *telURL) { m.params = put(m.params, "postdial", v, true) }},
			op{"SetIsdnSubAddress " + v, func(u *address.TelURLImpl) { u.SetIsdnSubAddress(v) }, func(m *telURL) { m.params = put(m.params, "isub", v, true) }},
			op{"SetParameter x " + v, func(u *address.TelURLImpl) { u.SetParameter("x", v) }, func(m *telURL) { m.params = put(m.params, "x", v, true) }},
			op{"SetParameter ISUB " + v, func(u *address.TelURLImpl) { u.SetParameter("ISUB", v) }, func(m *telURL) { m.params = put(m.params, "ISUB", v, true) }})
	}
	for _, n := range []string{"x", "X", "isub", "postdial", "phone-context"} {
		n := n
		ops = append(ops, op{"RemoveParameter " + n, func(u *address.TelURLImpl) { u.RemoveParameter(n) }, func(m *telURL) { m.params = drop(m.params, n) }})
	}
	tels := []telURL{{false, "", nil}, {true, "1", []nv{{"x", "0", true}, {"isub", "1", true}}}, {false, "3", []nv{{"y", "", true}, {"postdial", "p", true}, {"phone-context", "c", true}}}}
	depth := c.Pick(4, 5)
	c.Bound("tel operations", "all sequences of up to %d of %d, from %d tel URLs", depth, len(ops), len(tels))
	for ti := range tels {
		ti := ti
		var seq func(h []int)
		seq = func(h []int) {
			if c.Mine() {
				key := "tel:" + tels[ti].text()
				for _, o := range h {
					key += " | " + ops[o].name
				}
				c.Run(key, func() {
					m := tels[ti]
					m.params = append([]nv{}, m.params...)
					u := address.NewTelURLImpl()
					if ti > 0 {
						p, err := parser.NewURLParser("tel:" + m.text()).Parse()
						if err != nil {
							c.Check(false, key, "rejected: %v", err)
							return
						}
						u = p.(*address.TelURLImpl)
					}
					var left *address.TelURLImpl
					was := ""
					for i, o := range h {
						if i == len(h)-1 {
							left, was = u, u.String()
							u = u.Clone().(*address.TelURLImpl)
						}
						c.Step(1)
						ops[o].do(u)
						ops[o].mod(&m)
					}
					m.check(kk{c, key}, u)
					if left != nil {
						c.Eq(key, "original after its clone was changed", left.String(), was)
					}
					c.State(u.String())
					c.Trace()
				})
			}
			if len(h) < depth {
				for o := range ops {
					seq(append(append([]int{}, h...), o))
				}
			}
		}
		seq(nil)
	}

	// the same on a number alone, which a tel URL then takes over
	type nop struct {
		name string
		do   func(t *address.TelephoneNumber)
		mod  func(m *telURL)
	}
	nops := []nop{
		{"SetPhoneNumber 911", func(t *address.TelephoneNumber) { t.SetPhoneNumber("911") }, func(m *telURL) { m.num = "911" }},
		{"SetGlobal true", func(t *address.TelephoneNumber) { t.SetGlobal(true) }, func(m *telURL) { m.global = true }},
		{"SetGlobal false", func(t *address.TelephoneNumber) { t.SetGlobal(false) }, func(m *telURL) { m.global = false }},
		{"SetPostDial 5", func(t *address.TelephoneNumber) { t.SetPostDial("5") }, func(m *telURL) { m.params = put(m.params, "postdial", "5", true) }},
		{"SetIsdnSubaddress 6", func(t *address.TelephoneNumber) { t.SetIsdnSubaddress("6") }, func(m *telURL) { m.params = put(m.params, "isub", "6", true) }},
		{"RemovePostDial", func(t *address.TelephoneNumber) { t.RemovePostDial() }, func(m *telURL) { m.params = drop(m.params, "postdial") }},
		{"RemoveIsdnSubaddress", func(t *address.TelephoneNumber) { t.RemoveIsdnSubaddress() }, func(m *telURL) { m.params = drop(m.params, "isub") }},
		{"SetParm x 7", func(t *address.TelephoneNumber) { t.SetParm("x", "7") }, func(m *telURL) { m.params = put(m.params, "x", "7", true) }},
		{"SetParameter X 8", func(t *address.TelephoneNumber) { t.SetParameter("X", "8") }, func(m *telURL) { m.params = put(m.params, "X", "8", true) }},
		{"DeleteParm x", func(t *address.TelephoneNumber) { t.DeleteParm("x") }, func(m *telURL) { m.params = drop(m.params, "x") }},
		{"RemoveParameter Isub", func(t *address.TelephoneNumber) { t.RemoveParameter("Isub") }, func(m *telURL) { m.params = drop(m.params, "isub") }},
		{"SetParameters", func(t *address.TelephoneNumber) {
			l := core.NewNameValueList("telparms")
			l.AddNameAndValue("isub", "9")
			t.SetParameters(l)
		}, func(m *telURL) { m.params = []nv{{"isub", "9", true}} }},
	}
	depth = c.Pick(3, 4)
	c.Bound("number operations", "all sequences of up to %d of %d, from %d numbers", depth, len(nops), len(tels))
	for ti := range tels {
		ti := ti
		var seq func(h []int)
		seq = func(h []int) {
			if c.Mine() {
				key := "number " + tels[ti].text()
				for _, o := range h {
					key += " | " + nops[o].name
				}
				c.Run(key, func() {
					k := kk{c, key}
					m := tels[ti]
					m.params = append([]nv{}, m.params...)
					t := address.NewTelephoneNumber()
					if ti > 0 {
						p, err := parser.NewStringMsgParser().ParSetelephoneNumber(m.text())
						if err != nil {
							c.Check(false, key, "rejected: %v", err)
							return
						}
						t = p
					}
					for _, o := range h {
						c.Step(1)
						nops[o].do(t)
						nops[o].mod(&m)
					}
					k.eq("number: names", t.GetParameterNames().Len(), len(m.params))
					m.checkNumber(k, t)
					u := address.NewTelURLImpl()
					u.SetTelephoneNumber(t.Clone().(*address.TelephoneNumber))
					m.check(k, u)
					c.State(t.String())
					c.Trace()
				})
			}
			if len(h) < depth {
				for o := range nops {
					seq(append(append([]int{}, h...), o))
				}
			}
		}
		seq(nil)
	}

	// any other URI
	body := words([]string{"a", "0", "-", "_", ".", "!", "~", "*", "'", "(", ")", ";", "/", "?", ":", "@", "&", "=", "+", "$", ",", "%2F"}, c.Pick(3, 4))
	gs := []string{"http", "HTTPS", "im", "mailto", "h323", "sipx", "telx", "x-1.+b", "SI", "te"}
	c.Bound("generic URIs", "%d texts, %d schemes", len(body), len(gs))
	for i, b := range body {
		if !c.Mine() {
			continue
		}
		sch := gs[i%len(gs)]
		in := sch + ":" + b
		c.Run(in, func() {
			k := kk{c, in}
			c.Step(4)
			u, err := parser.NewStringMsgParser().ParseUrl(in)
			if !c.Check(err == nil && u != nil, in, "%q is rejected: %v", in, err) {
				return
			}
			k.eq("scheme", u.GetScheme(), sch)
			k.eq("text", u.String(), in)
			k.eq("is a SIP URI", u.IsSipURI(), false)
			cl, _ := u.Clone().(*address.URIImpl)
			if c.Check(cl != nil, in, "the clone of %q is a %T", in, u.Clone()) {
				k.eq("clone", cl.String()+" "+cl.GetScheme(), in+" "+sch)
			}
			n := address.NewURIImpl(in)
			if c.Check(n != nil, in, "%q is no URI", in) {
				k.eq("made from text", n.String()+" "+n.GetScheme(), in+" "+sch)
			}
			a, err := parser.NewStringMsgParser().ParseAddress("<" + in + ">")
			if c.Check(err == nil && a != nil && a.GetURI() != nil, in, "<%s> is rejected: %v", in, err) {
				k.eq("in an address", a.GetURI().String(), in)
			}
			rl, err := parser.NewStringMsgParser().ParseSIPRequestLine("M " + in + " SIP/2.0")
			if c.Check(err == nil && rl != nil && rl.GetUri() != nil, in, "%q is rejected in a request line: %v", in, err) {
				k.eq("in a request line", rl.GetUri().String(), in)
			}
			s, err := parser.NewStringMsgParser().ParseSIPUrl(in)
			c.Check(err != nil && s == nil, in, "%q is taken for a SIP URI", in)
			c.State(in)
			c.Trace()
		})
	}
	for _, in := range []string{"", ":", "http", ":a", "ht tp:a", "http:a b", "<http:a>", "http:a\"b", "http:%zz", "http:%4"} {
		in := in
		reject(fmt.Sprintf("URI %q", in), func() (interface{}, error) { return parser.NewStringMsgParser().ParseUrl(in) })
	}
}
