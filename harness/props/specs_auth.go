package props

import (
	"fmt"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C08", Rule: "every authentication header x scheme spellings x sequences of distinct parameters (known and unknown, token and quoted) x white space x name spellings, and nonce counts set and read back; parsed, read, encoded, parsed again", Run: func(c *mc.C) {
		groupRun("C08")(c)
		nonceCounts(c)
	}})

	type auth interface {
		GetRealm() string
		GetUsername() string
		GetNonce() string
		GetURI() address.URI
		GetResponse() string
		GetAlgorithm() string
		GetCNonce() string
		GetOpaque() string
		GetQop() string
		GetNonceCount() int
		GetDomain() string
		IsStale() bool
		GetScheme() string
	}
	known := map[string]func(a auth) interface{}{
		"realm":     func(a auth) interface{} { return a.GetRealm() },
		"username":  func(a auth) interface{} { return a.GetUsername() },
		"nonce":     func(a auth) interface{} { return a.GetNonce() },
		"response":  func(a auth) interface{} { return a.GetResponse() },
		"algorithm": func(a auth) interface{} { return a.GetAlgorithm() },
		"cnonce":    func(a auth) interface{} { return a.GetCNonce() },
		"opaque":    func(a auth) interface{} { return a.GetOpaque() },
		"qop":       func(a auth) interface{} { return a.GetQop() },
		"domain":    func(a auth) interface{} { return a.GetDomain() },
		"uri": func(a auth) interface{} {
			if a.GetURI() == nil {
				return ""
			}
			return a.GetURI().String()
		},
		"nc": func(a auth) interface{} {
			if a.GetNonceCount() < 0 {
				return fmt.Sprint(a.GetNonceCount())
			}
			return fmt.Sprintf("%08x", a.GetNonceCount())
		},
		"stale": func(a auth) interface{} { return a.IsStale() },
	}
	zero := map[string]interface{}{"nc": "-1", "stale": false}
	p := func(name, in, val string, want interface{}) param {
		q := `"`
		if name == "nc" || name == "stale" {
			q = ""
		}
		return param{in: in, out: in[:len(name)] + "=" + q + val + q, name: name, val: val, chks: []chk{func(k kk, h header.Header) {
			k.eq(name, known[name](h.(auth)), want)
		}}}
	}
	s := func(name, in, val string) param { return p(name, in, val, val) }
	common := []param{
		s("realm", `realm="a, \"b\";c=\\"`, `a, \"b\";c=\\`), s("nonce", `NONCE = "84a4cc6f3082121f32b42a2187831a9e"`, "84a4cc6f3082121f32b42a2187831a9e"),
		s("opaque", `opaque=""`, ""), s("algorithm", "algorithm=MD5-sess", "MD5-sess"), s("qop", `qop = "auth,auth-int"`, "auth,auth-int"),
		{in: "x=tok", out: "x=tok", name: "x", val: "tok"},
		{in: `Y="a, b"`, out: `Y="a, b"`, name: "y", val: "a, b"},
		{in: `z="tok"`, out: `z=tok`, name: "z", val: "tok"},
		{in: `w=""`, out: `w=""`, name: "w", val: ""},
	}
	challenge := []param{s("domain", `domain="sip:a@b sip:c"`, "sip:a@b sip:c"), p("stale", "stale=TRUE", "TRUE", true), p("stale", "stale=false", "false", false), p("stale", "stale=true", "true", true)}
	creds := []param{s("username", `username="bob"`, "bob"), s("uri", `uri="sip:a:b@c.com:5061;x=y?h=i"`, "sip:a:b@c.com:5061;x=y?h=i"), s("response", `response="6629fae49393a05397450978507c4ef1"`, "6629fae49393a05397450978507c4ef1"),
		s("cnonce", `CNonce="0a4f113b"`, "0a4f113b"), p("nc", "nc=00000001", "00000001", "00000001"), p("nc", "nc=FFFFFFFF", "FFFFFFFF", "ffffffff"), p("nc", "nc=0000001a", "0000001a", "0000001a")}
	nonEmpty := func(fs []form) (r []form) {
		for _, f := range fs {
			if f.in != "" {
				r = append(r, f)
			}
		}
		return
	}
	schemes := func(c *mc.C) []form {
		var r []form
		for _, sc := range []string{"Digest", "DIGEST", "Basic", "X-1.!"}[:c.Pick(2, 4)] {
			sc := sc
			ck := func(k kk, h header.Header) { k.eq("scheme", h.(auth).GetScheme(), sc) }
			r = append(r, f1(sc+" ", ck), f2(sc+"\t  ", sc+" ", ck))
		}
		return r
	}
	rest := func(ps []form) []form {
		// what is not written is absent
		for i := range ps {
			low := "," + strings.ToLower(ps[i].out)
			ps[i].chks = append(ps[i].chks, func(k kk, h header.Header) {
				for n, f := range known {
					if !strings.Contains(low, ","+n+"=") {
						want, ok := zero[n]
						if !ok {
							want = ""
						}
						k.eq("absent "+n, f(h.(auth)), want)
					}
				}
			})
		}
		return ps
	}
	reg2 := func(name string, extra []param) {
		hs("C08", name, "", false, func(c *mc.C) []form {
			ps := append(append([]param{}, common...), extra...)
			return seq(schemes(c), rest(nonEmpty(params(c, c.Pick(2, 3), ",", ps))))
		})
	}
	reg2("WWW-Authenticate", challenge)
	reg2("Proxy-Authenticate", challenge)
	reg2("Authorization", creds)
	reg2("Proxy-Authorization", creds)
	hs("C08", "Authentication-Info", "", false, func(c *mc.C) []form {
		ai := func(name, in, val string, get func(a *header.AuthenticationInfo) interface{}, want interface{}) param {
			q := `"`
			if name == "nc" {
				q = ""
			}
			return param{in: in, out: in[:len(name)] + "=" + q + val + q, name: name, val: val, chks: []chk{func(k kk, h header.Header) {
				k.eq(name, get(h.(*header.AuthenticationInfo)), want)
				if nv := h.(*header.AuthenticationInfo).GetAuthInfo(name); nv == nil {
					k.ok("no name-value of "+name, false)
				}
			}}}
		}
		ps := []param{
			ai("nextnonce", `nextnonce="47,36\""`, `47,36\"`, func(a *header.AuthenticationInfo) interface{} { return a.GetNextNonce() }, `47,36\"`),
			ai("qop", "qop=auth", "auth", func(a *header.AuthenticationInfo) interface{} { return a.GetQop() }, "auth"),
			ai("rspauth", `RSPAUTH =  "6629"`, "6629", func(a *header.AuthenticationInfo) interface{} { return a.GetResponse() }, "6629"),
			ai("cnonce", `cnonce="0a"`, "0a", func(a *header.AuthenticationInfo) interface{} { return a.GetCNonce() }, "0a"),
			ai("nc", "nc=000000ff", "000000ff", func(a *header.AuthenticationInfo) interface{} { return a.GetNonceCount() }, 255),
			{in: "x=tok", out: "x=tok", name: "x", val: "tok"}, {in: `Y="a, b"`, out: `Y="a, b"`, name: "y", val: "a, b"},
		}
		return nonEmpty(params(c, c.Pick(3, 5), ",", ps))
	})
}

type nonceCounter interface {
	header.Header
	SetNonceCount(int) error
	GetNonceCount() int
}

// nonceCounts sets counts on every header that has one and reads them back.
func nonceCounts(c *mc.C) {
	mk := []func() nonceCounter{
		func() nonceCounter { return header.NewAuthorization() },
		func() nonceCounter { return header.NewProxyAuthorization() },
		func() nonceCounter { return header.NewAuthenticationInfo() },
	}
	ns := []int{0xfffffffe, 0xffffffff, 0x7fffffff, 0x80000000, 0x1234abcd}
	for i := 0; i < c.Pick(5000, 70000); i++ {
		ns = append(ns, i)
	}
	// parameters are separated by commas
	params := []string{"realm=\"r\"", "nonce=\"n\"", "nc=00000001", "qop=auth", "x=y", "z=\"a, b\""}
	for _, name := range []string{"WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization", "Authentication-Info"} {
		scheme := "Digest "
		if name == "Authentication-Info" {
			scheme = ""
		}
		for _, sep := range []string{",", ", ", " ,\t", " ", "", ";", "; ", "\t", ":", ",;"} {
			for i, p := range params {
				for j, q := range params {
					if i == j || !c.Mine() {
						continue
					}
					if sep == "" && !strings.HasSuffix(p, "\"") {
						continue // another value
					}
					for _, line := range []string{
						name + ": " + scheme + p + sep + q,
						name + ": " + scheme + "opaque=\"\"," + p + sep + q,
						name + ": " + scheme + p + sep + q + ",opaque=\"\"",
					} {
						line, sep := line, sep
						c.Run(line, func() {
							c.Step(1)
							_, err := parseLine(line + "\n")
							c.Check((err == nil) == (strings.Trim(sep, " \t") == ","), line, "%q: %v", line, err)
							c.Trace()
						})
					}
				}
			}
		}
	}
	for i := 1; i < 32; i++ {
		ns = append(ns, 1<<uint(i))
	}
	c.Bound("nonce counts", "%d", len(ns))
	for i, m := range mk {
		for _, n := range ns {
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("nonce count %d of header %d", n, i)
			c.Run(key, func() {
				h := m()
				c.Step(2)
				err := h.SetNonceCount(n)
				c.Check(err == nil, key, "rejected: %v", err)
				c.Eq(key, "nonce count", h.GetNonceCount(), n)
				c.Check(strings.Contains(h.String(), fmt.Sprintf("nc=%08x", n)), key, "%q is encoded as %q", key, h.String())
				c.State(h.String())
				if n < 4 { // a second count replaces the first
					h.SetNonceCount(n + 10)
					c.Eq(key, "second nonce count", h.GetNonceCount(), n+10)
					c.Eq(key, "number of nc parameters", strings.Count(h.String(), "nc="), 1)
				}
				c.Trace()
			})
		}
		for _, n := range []int{-1, -2, -1 << 31, 1 << 32} {
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("bad nonce count %d of header %d", n, i)
			c.Run(key, func() {
				h := m()
				c.Step(2)
				h.SetNonceCount(7)
				before := h.String()
				c.Check(h.SetNonceCount(n) != nil, key, "accepted")
				c.Eq(key, "header after it", h.String(), before)
				c.Trace()
			})
		}
	}
}
