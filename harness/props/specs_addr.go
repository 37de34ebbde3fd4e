package props

import (
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

func addrOf(h header.Header) *address.AddressImpl {
	a, _ := h.(interface{ GetAddress() address.Address })
	if a == nil {
		return nil
	}
	r, _ := a.GetAddress().(*address.AddressImpl)
	return r
}

func init() {
	reg(&P{ID: "C06", Rule: "every address header x (display name forms x URI forms x header parameter sequences) x name spellings; parsed, read, encoded, parsed again", Run: func(c *mc.C) {
		groupRun("C06")(c)
		for _, n := range []string{"Contact", "Reply-To", "Refer-To"} {
			if key := "the parameter of an address without angle brackets in " + n; c.Mine() {
				n := n
				c.Run(key, func() {
					h := one(n, "sip:a@h;x=5")
					a := addrOf(h)
					c.Check(h.(hasParams).GetParameter("x") == "5" && a.GetURI().String() == "sip:a@h", key, "%s: sip:a@h;x=5 has the URI %s and the header parameter %q", n, a.GetURI(), h.(hasParams).GetParameter("x"))
				})
			}
		}
		if key := "the wildcard Contact, encoded and parsed again"; c.Mine() {
			c.Run(key, func() {
				text := one("Contact", "*").String()
				_, err := parseLine(strings.TrimSuffix(text, "\r\n"))
				c.Check(err == nil, key, "Contact: * is encoded as %q: %v", text, err)
			})
		}
	}})
	reg(&P{ID: "C07", Rule: "Via: protocol forms x host forms x port x comment x parameter sequences x white space; parsed, read, encoded, parsed again", Run: groupRun("C07")})

	// addr enumerates addresses in angle brackets.
	addr := func(c *mc.C) []form {
		type uri struct {
			in, scheme, user, host string
			port                   int
		}
		uris := []uri{
			{"sip:a@b.com", "sip", "a", "b.com", -1},
			{"sip:b.com", "sip", "", "b.com", -1},
			{"sip:a:pw@b.com:5061;transport=tcp;x=%41?Subject=s&c=%20", "sip", "a", "b.com", 5061},
			{"sip:[2001:db8::1]:5060", "sip", "", "[2001:db8::1]", 5060},
			{"tel:+1-212-555;isub=4", "tel", "", "", 0},
			{"http://h.com/p?q=1", "http", "", "", 0},
			{"sips:c:p@h:1;lr", "sips", "c", "h", 1},
		}
		if c.Thorough() {
			uris = append(uris, uri{"sip:1.2.3.4:1", "sip", "", "1.2.3.4", 1},
				uri{"sip:%40a&=+$,;?/-_.!~*'()9@h-1.c.d;maddr=1.2.3.4;ttl=15;user=phone;method=INVITE", "sip", "%40a&=+$,;?/-_.!~*'()9", "h-1.c.d", -1},
				uri{"tel:911", "tel", "", "", 0}, uri{"mailto:a@b", "mailto", "", "", 0})
		}
		names := []form{{}, f2(`"A. G. Bell" `, `"A. G. Bell" `), f2(`Mr Watson `, `"Mr Watson" `), f2(`"a \"q\" \\,;<>:" `, `"a \"q\" \\,;<>:" `), f2(`Bob`, `"Bob" `), f2("\"\xc3\xa9\"\t", "\"\xc3\xa9\" ")}
		if c.Thorough() {
			names = append(names, f2("A-.!%*_+`'~1  \t", "\"A-.!%*_+`'~1\" "), f2(`"x"`, `"x" `))
		}
		var r []form
		for _, u := range uris {
			u := u
			uchk := func(k kk, h header.Header) {
				a := addrOf(h)
				if a == nil || a.GetURI() == nil {
					k.ok("has an address with a URI", false)
					return
				}
				k.eq("scheme", a.GetURI().GetScheme(), u.scheme)
				k.eq("URI", a.GetURI().String(), u.in)
				su, _ := a.GetURI().(*address.SipURIImpl)
				k.eq("is a SIP URI", su != nil, u.scheme[:3] == "sip")
				k.eq("is a SIP address", a.IsSIPAddress(), u.scheme[:3] == "sip")
				k.eq("wildcard", a.IsWildcard(), false)
				if su != nil {
					k.eq("user", su.GetUser(), u.user)
					k.eq("host", su.GetHost(), u.host)
					k.eq("port", su.GetPort(), u.port)
					at, hp := u.host, u.host
					if u.port != -1 {
						hp += fmt.Sprintf(":%d", u.port)
						at = hp
					}
					if u.user != "" {
						at = u.user + "@" + at
					}
					if x, ok := h.(interface {
						GetHostPort() (*core.HostPort, error)
					}); ok {
						p, err := x.GetHostPort()
						k.eq("host and port of the header", fmt.Sprint(p, err), hp+" <nil>")
					}
					if x, ok := h.(interface{ GetHostPort() *core.HostPort }); ok {
						k.eq("host and port of the header", fmt.Sprint(x.GetHostPort()), hp)
					}
					if x, ok := h.(interface{ GetUserAtHostPort() string }); ok {
						k.eq("user at host and port of the header", x.GetUserAtHostPort(), at)
					}
					k.eq("user at host and port", a.GetUserAtHostPort(), at)
					ah, herr := a.GetHost()
					ap, perr := a.GetPort()
					k.eq("host and port of the address", fmt.Sprint(ah, ap, herr, perr), fmt.Sprint(u.host, u.port, nil, nil))
				} else {
					_, herr := a.GetHost()
					_, perr := a.GetPort()
					_, hperr := a.GetHostPort()
					k.ok("an address that is no SIP address has a host or port", herr != nil && perr != nil && hperr != nil)
				}
			}
			for _, n := range names {
				disp := ""
				if n.out != "" {
					disp = strings.TrimSuffix(strings.TrimPrefix(n.out, `"`), `" `)
				}
				r = append(r, form{n.in + "<" + u.in + ">", n.out + "<" + u.in + ">", []chk{uchk, func(k kk, h header.Header) {
					if a := addrOf(h); a != nil {
						k.eq("display name", a.GetDisplayName(), disp)
						k.eq("has a display name", a.HasDisplayName(), disp != "")
					}
					if x, ok := h.(interface{ GetDisplayName() string }); ok {
						k.eq("display name of the header", x.GetDisplayName(), disp)
					}
				}}})
			}
		}
		return r
	}
	// withParams adds parameters. spec tells which may follow an address
	// without angle brackets: none (""), no such address ("-"), or those with
	// a value ("v"): the library keeps the others without their '=' there.
	withParams := func(spec string, max int, ps ...param) func(c *mc.C) []form {
		return func(c *mc.C) []form {
			m := max
			if c.Thorough() {
				m++
			}
			ps := append(append([]param{}, ps...), genericParams(c)...)
			r := seq(addr(c), params(c, m, ";", ps))
			bare := []form{f2("sip:a@b.com", "<sip:a@b.com>"), f2("sip:b.com:5061", "<sip:b.com:5061>"), f2("sip:[::1]", "<sip:[::1]>")}
			switch spec {
			case "":
				r = append(r, bare...)
			case "v":
				var vs []param
				for _, p := range ps {
					if p.name != "y" {
						vs = append(vs, p)
					}
				}
				r = append(r, seq(bare, params(c, m, ";", vs))...)
			}
			return r
		}
	}
	tag := param{in: "tag=a48s", out: "tag=a48s", name: "tag", val: "a48s", chks: []chk{func(k kk, h header.Header) {
		t := h.(interface {
			GetTag() string
			HasTag() bool
		})
		k.eq("tag", t.GetTag(), "a48s")
		k.eq("has tag", t.HasTag(), true)
	}}}
	hs("C06", "From", "f", false, withParams("v", 2, tag))
	hs("C06", "To", "t", false, withParams("v", 2, tag))
	exp := param{in: "expires=3600", out: "expires=3600", name: "expires", val: "3600", chks: []chk{func(k kk, h header.Header) {
		k.eq("expires", h.(*header.Contact).GetExpires(), 3600)
	}}}
	q := param{in: "q=0.5", out: "q=0.5", name: "q", val: "0.5", chks: []chk{func(k kk, h header.Header) {
		k.eq("q", h.(*header.Contact).GetQValue(), float32(0.5))
		k.eq("has q", h.(*header.Contact).HasQValue(), true)
		k.eq("wildcard", h.(*header.Contact).GetWildCardFlag(), false)
	}}}
	hs("C06", "Contact", "m", true, withParams("", 2, exp, q))
	hs("C06", "Reply-To", "", false, withParams("v", 2))
	hs("C06", "Refer-To", "r", false, withParams("v", 2))
	hs("C06", "Route", "", true, withParams("-", 2))
	hs("C06", "Record-Route", "", true, withParams("-", 2))

	hs("C07", "Via", "v", true, func(c *mc.C) []form {
		var protos []form
		for _, v := range []struct{ p, ver, t string }{{"SIP", "2.0", "UDP"}, {"SIP", "2.0", "TCP"}, {"SIP", "2.0", "TLS"}, {"SIP", "2.0", "SCTP"}, {"SIP", "2.0", "X-1.!"}} {
			v := v
			ck := func(k kk, h header.Header) {
				via := h.(*header.Via)
				k.eq("protocol", via.GetProtocol(), v.p)
				k.eq("version", via.GetProtocolVersion(), v.ver)
				k.eq("transport", strings.ToUpper(via.GetTransport()), v.t)
			}
			out := v.p + "/" + v.ver + "/" + v.t + " "
			protos = append(protos, f1(out, ck), f2(v.p+" / "+v.ver+"\t/ "+strings.ToLower(v.t)+" \t", out, ck))
		}
		hosts := each([]string{"erlang.bell.com", "1.2.3.4", "[2001:db8::9:1]", "h", "a-b.c-9.d"}, func(s string) chk {
			return func(k kk, h header.Header) {
				via := h.(*header.Via)
				k.eq("host", via.GetHost(), s)
				k.eq("sent-by host", via.GetSentBy().GetHost().GetHostName(), s)
			}
		})
		ports := []form{f1("", func(k kk, h header.Header) {
			k.eq("port", h.(*header.Via).GetPort(), -1)
			k.eq("has port", h.(*header.Via).HasPort(), false)
		}), f1(":5060", func(k kk, h header.Header) {
			k.eq("port", h.(*header.Via).GetPort(), 5060)
			k.eq("has port", h.(*header.Via).HasPort(), true)
		}), f1(":1"), f1(":65535", func(k kk, h header.Header) { k.eq("port", h.(*header.Via).GetPort(), 65535) })}
		nocomment := f1("", func(k kk, h header.Header) {
			k.eq("comment", h.(*header.Via).GetComment(), "")
			k.eq("has comment", h.(*header.Via).HasComment(), false)
		})
		comments := []form{nocomment, f1(" (acme)", func(k kk, h header.Header) {
			k.eq("comment", h.(*header.Via).GetComment(), "acme")
			k.eq("has comment", h.(*header.Via).HasComment(), true)
		}), f1(` (a\)b;c=d,e)`, func(k kk, h header.Header) { k.eq("comment", h.(*header.Via).GetComment(), `a\)b;c=d,e`) })}
		via := func(name, in, val string, f func(v *header.Via) interface{}, want interface{}) param {
			return param{in: in, out: name + "=" + val, name: name, val: val, chks: []chk{func(k kk, h header.Header) {
				k.eq(name, f(h.(*header.Via)), want)
			}}}
		}
		ps := []param{
			via("branch", "branch=z9hG4bK87a.~1", "z9hG4bK87a.~1", func(v *header.Via) interface{} { return v.GetBranch() }, "z9hG4bK87a.~1"),
			via("received", "received = 10.0.0.1", "10.0.0.1", func(v *header.Via) interface{} { return v.GetReceived() }, "10.0.0.1"),
			via("received", "RECEIVED=2001:db8::1", "2001:db8::1", func(v *header.Via) interface{} { return v.GetReceived() }, "2001:db8::1"),
			via("ttl", "ttl=16", "16", func(v *header.Via) interface{} { return v.GetTTL() }, 16),
			via("maddr", "maddr=224.2.0.1", "224.2.0.1", func(v *header.Via) interface{} { return v.GetMAddr() }, "224.2.0.1"),
			{in: "rport", out: "rport", name: "rport", val: ""},
			{in: `y="q;,"`, out: `y="q;,"`, name: "y", val: "q;,"},
		}
		p := params(c, c.Pick(2, 3), ";", ps)
		return cat(seq(protos, hosts, ports, comments, some(c.Pick(3, 13), p)), seq(some(2, protos), some(c.Pick(3, 5), hosts), some(2, ports), comments, p))
	})
}
