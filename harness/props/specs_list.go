package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

var tokens = []string{"100rel", "gzip", "a", "A-1.!%*_+`'~", "x-y.z", "INVITE", "presence.winfo", "en-gb", "*", "0"}

func init() {
	reg(&P{ID: "C10", Rule: "every negotiation, content, event, info, reason, warning and option header x every value of its grammar x parameter sequences x name spellings; parsed, read, encoded, parsed again", Run: groupRun("C10")})

	tok := func(get func(h header.Header) string) func(c *mc.C) []form {
		return func(c *mc.C) []form {
			var r []form
			for _, t := range tokens {
				for _, u := range append([]string{""}, tokens[:c.Pick(5, len(tokens))]...) {
					s := t + u
					ck := func(k kk, h header.Header) { k.eq("value", get(h), s) }
					r = append(r, f1(s, ck), f2(s+" \t", s, ck))
				}
			}
			return r
		}
	}
	hs("C10", "Allow", "", true, tok(func(h header.Header) string { return h.(*header.Allow).GetMethod() }))
	hs("C10", "Allow-Events", "u", true, tok(func(h header.Header) string { return h.(*header.AllowEvents).GetEventType() }))
	hs("C10", "Content-Encoding", "e", true, tok(func(h header.Header) string { return h.(*header.ContentEncoding).GetEncoding() }))
	hs("C10", "Content-Language", "", true, tok(func(h header.Header) string { return h.(*header.ContentLanguage).GetLanguageTag() }))
	hs("C10", "Require", "", true, tok(func(h header.Header) string { return h.(*header.Require).GetOptionTag() }))
	hs("C10", "Proxy-Require", "", true, tok(func(h header.Header) string { return h.(*header.ProxyRequire).GetOptionTag() }))
	hs("C10", "Supported", "k", true, tok(func(h header.Header) string { return h.(*header.Supported).GetOptionTag() }))
	hs("C10", "Unsupported", "", true, tok(func(h header.Header) string { return h.(*header.Unsupported).GetOptionTag() }))
	hs("C10", "In-Reply-To", "", true, func(c *mc.C) []form {
		var r []form
		for _, a := range tokens {
			for _, b := range append([]string{""}, tokens...) {
				s := a
				if b != "" {
					s += "@" + b
				}
				ck := func(k kk, h header.Header) { k.eq("call id", h.(*header.InReplyTo).GetCallId(), s) }
				r = append(r, f1(s, ck), f2(s+" ", s, ck))
			}
		}
		return r
	})

	depth := func(c *mc.C) int { return c.Pick(2, 3) }
	type qv interface {
		GetQValue() float32
		HasQValue() bool
	}
	qparam := func(in, out string) param {
		i := strings.Index(out, "=")
		v, _ := strconv.ParseFloat(out[i+1:], 32)
		return param{in: in, out: out, name: "q", val: out[i+1:], chks: []chk{func(k kk, h header.Header) {
			k.eq("has q", h.(qv).HasQValue(), true)
			k.eq("q", h.(qv).GetQValue(), float32(v))
		}}}
	}
	noq := func(ps []form) []form {
		for i := range ps {
			q := strings.Contains(ps[i].out, ";q=")
			ps[i].chks = append(ps[i].chks, func(k kk, h header.Header) {
				if !q {
					k.eq("has q", h.(qv).HasQValue(), false)
					k.eq("q", h.(qv).GetQValue(), float32(-1))
				}
			})
		}
		return ps
	}
	slash := func(a, b string) []form {
		s := a + "/" + b
		return []form{f1(s), f2(a+" /\t"+b, s), f2(s+" ", s)}
	}
	media := func(types [][2]string, ck func(a, b string) chk) []form {
		var r []form
		for _, t := range types {
			for _, f := range slash(t[0], t[1]) {
				f.chks = []chk{ck(t[0], t[1])}
				r = append(r, f)
			}
		}
		return r
	}
	types := [][2]string{{"application", "sdp"}, {"text", "*"}, {"*", "*"}, {"a-1.!", "x+y.z"}, {"Multipart", "Mixed"}}
	hs("C10", "Accept", "", true, func(c *mc.C) []form {
		ps := append([]param{qparam("q=0.5", "q=0.5"), qparam("q=0", "q=0"), qparam("q=1.000", "q=1.000"), {in: "level=1", out: "level=1", name: "level", val: "1"}}, genericParams(c)...)
		return seq(media(types, func(a, b string) chk {
			return func(k kk, h header.Header) {
				x := h.(*header.Accept)
				k.eq("type", x.GetContentType(), a)
				k.eq("subtype", x.GetContentSubType(), b)
				k.eq("all types", x.AllowsAllContentTypes(), a == "*")
				k.eq("all subtypes", x.AllowsAllContentSubTypes(), b == "*")
			}
		}), noq(params(c, depth(c), ";", ps)))
	})
	hs("C10", "Content-Type", "c", false, func(c *mc.C) []form {
		ps := append([]param{{in: `boundary="a;b"`, out: `boundary="a;b"`, name: "boundary", val: "a;b"}, {in: "charset=UTF-8", out: "charset=UTF-8", name: "charset", val: "UTF-8", chks: []chk{func(k kk, h header.Header) {
			k.eq("charset", h.(*header.ContentType).GetCharSet(), "UTF-8")
		}}}}, genericParams(c)...)
		return seq(media(types, func(a, b string) chk {
			return func(k kk, h header.Header) {
				x := h.(*header.ContentType)
				k.eq("type", x.GetContentType(), a)
				k.eq("subtype", x.GetContentSubType(), b)
				k.eq("media type", x.GetMediaType(), a)
				k.eq("media subtype", x.GetMediaSubType(), b)
				k.eq("media range", x.GetMediaRange().String(), a+"/"+b)
				k.eq("compares", x.CompareMediaRange(strings.ToUpper(a+"/"+b)), true)
				k.eq("compares with another", x.CompareMediaRange(a+"/"+b+"x"), false)
			}
		}), params(c, depth(c), ";", ps))
	})
	// Accept-Encoding and Accept-Language give q its shortest form.
	qforms := []param{qparam("q=0.5", "q=0.5"), qparam("Q = 0.250", "q=0.25"), qparam("q=1.0", "q=1"), qparam("q=0", "q=0"), qparam("q=0.001", "q=0.001"), qparam("q=1", "q=1"), qparam("q=0.1", "q=0.1")}
	hs("C10", "Accept-Encoding", "", true, func(c *mc.C) []form {
		return seq(each(tokens, func(s string) chk {
			return func(k kk, h header.Header) { k.eq("encoding", h.(*header.AcceptEncoding).GetEncoding(), s) }
		}), noq(params(c, depth(c), ";", append(append([]param{}, qforms...), genericParams(c)...))))
	})
	hs("C10", "Accept-Language", "", true, func(c *mc.C) []form {
		return seq(each(tokens, func(s string) chk {
			return func(k kk, h header.Header) {
				k.eq("language", h.(*header.AcceptLanguage).GetLanguageRange(), s)
				k.eq("language", h.(*header.AcceptLanguage).GetAcceptLanguage(), s)
			}
		}), noq(params(c, depth(c), ";", append(append([]param{}, qforms...), genericParams(c)...))))
	})

	uris := []string{"http://www.example.com/sounds/moo.wav", "sip:a@b.com;x=1?c=d", "tel:+1-2", "cid:a@b", "http://h/p?a=b&c=d;e"}
	info := func(get func(h header.Header) address.URI, ps ...param) func(c *mc.C) []form {
		return func(c *mc.C) []form {
			var r []form
			for _, u := range uris {
				u := u
				ck := func(k kk, h header.Header) {
					if get(h) == nil {
						k.ok("no URI", false)
						return
					}
					k.eq("URI", get(h).String(), u)
					k.eq("scheme", get(h).GetScheme(), u[:strings.Index(u, ":")])
				}
				r = append(r, f1("<"+u+">", ck))
			}
			return seq(r, params(c, depth(c), ";", append(append([]param{}, ps...), genericParams(c)...)))
		}
	}
	sp := func(name, val string, get func(h header.Header) string) param {
		return param{in: name + " =\t" + val, out: name + "=" + val, name: name, val: unq(val), chks: []chk{func(k kk, h header.Header) { k.eq(name, unq(get(h)), unq(val)) }}}
	}
	hs("C10", "Alert-Info", "", true, info(func(h header.Header) address.URI { return h.(*header.AlertInfo).GetAlertInfo() }))
	hs("C10", "Call-Info", "", true, info(func(h header.Header) address.URI { return h.(*header.CallInfo).GetInfo() },
		sp("purpose", "icon", func(h header.Header) string { return h.(*header.CallInfo).GetPurpose() })))
	hs("C10", "Error-Info", "", true, info(func(h header.Header) address.URI { return h.(*header.ErrorInfo).GetErrorInfo() },
		sp("message", "busy", func(h header.Header) string { return h.(*header.ErrorInfo).GetErrorMessage() })))

	hs("C10", "Content-Disposition", "", false, func(c *mc.C) []form {
		return seq(each(tokens, func(s string) chk {
			return func(k kk, h header.Header) { k.eq("type", h.(*header.ContentDisposition).GetDispositionType(), s) }
		}), params(c, depth(c), ";", append([]param{sp("handling", "optional", func(h header.Header) string { return h.(*header.ContentDisposition).GetHandling() })}, genericParams(c)...)))
	})
	hs("C10", "Event", "o", false, func(c *mc.C) []form {
		return seq(each(tokens, func(s string) chk {
			return func(k kk, h header.Header) { k.eq("type", h.(*header.Event).GetEventType(), s) }
		}), params(c, depth(c), ";", append([]param{sp("id", "1a", func(h header.Header) string { return h.(*header.Event).GetEventId() })}, genericParams(c)...)))
	})
	hs("C10", "Reason", "", true, func(c *mc.C) []form {
		var causes []param
		for _, n := range []int{0, 1, 200, 486, 699} {
			n := n
			causes = append(causes, param{in: fmt.Sprintf("cause = %d", n), out: fmt.Sprintf("cause=%d", n), name: "cause", val: strconv.Itoa(n), chks: []chk{func(k kk, h header.Header) {
				k.eq("cause", h.(*header.Reason).GetCause(), n)
			}}})
		}
		causes = append(causes, sp("text", `"Call; completed, \"else\"where"`, func(h header.Header) string { return h.(*header.Reason).GetText() }))
		return seq(each(tokens, func(s string) chk {
			return func(k kk, h header.Header) { k.eq("protocol", h.(*header.Reason).GetProtocol(), s) }
		}), params(c, depth(c), ";", append(causes, genericParams(c)...)))
	})
	hs("C10", "Subscription-State", "", false, func(c *mc.C) []form {
		get := func(h header.Header) *header.SubscriptionState { return h.(*header.SubscriptionState) }
		reasons := []form{f1("", func(k kk, h header.Header) { k.eq("reason", get(h).GetReasonCode(), "") })}
		for _, s := range []string{"timeout", "x-1.!", "deactivated", "probation", "rejected", "giveup", "noresource", "invariant"} {
			s := s
			ck := func(k kk, h header.Header) { k.eq("reason", get(h).GetReasonCode(), s) }
			reasons = append(reasons, f1(";reason="+s, ck), f2(" ; Reason = "+s, ";reason="+s, ck))
		}
		nums := func(name string, g func(h header.Header) int) []form {
			r := []form{f1("", func(k kk, h header.Header) { k.eq(name, g(h), -1) })}
			for _, n := range []int{0, 1, 3600, 2147483647} {
				n := n
				ck := func(k kk, h header.Header) { k.eq(name, g(h), n) }
				r = append(r, f1(fmt.Sprintf(";%s=%d", name, n), ck), f2(fmt.Sprintf("\t;\t%s =\t00%d", strings.ToUpper(name), n), fmt.Sprintf(";%s=%d", name, n), ck))
			}
			return r
		}
		ra := nums("retry-after", func(h header.Header) int { return get(h).GetRetryAfter() })
		ex := nums("expires", func(h header.Header) int { return get(h).GetExpires() })
		st := each(append([]string{"active", "pending", "terminated"}, tokens[:c.Pick(2, len(tokens))]...), func(s string) chk {
			return func(k kk, h header.Header) { k.eq("state", get(h).GetState(), s) }
		})
		gp := params(c, c.Pick(1, 2), ";", genericParams(c))
		r := seq(st, reasons, ra, ex, gp)
		// in any order they are encoded in the same one
		for _, a := range reasons[1:] {
			for _, b := range ra[1:] {
				for _, x := range ex[1:] {
					out := a.out + b.out + x.out
					ck := append(append(append([]chk{}, a.chks...), b.chks...), x.chks...)
					for _, p := range [][3]string{{a.in, x.in, b.in}, {b.in, a.in, x.in}, {b.in, x.in, a.in}, {x.in, a.in, b.in}, {x.in, b.in, a.in}} {
						r = append(r, form{"active" + p[0] + p[1] + p[2], "active" + out, ck}, form{"active" + p[0] + ";k=v" + p[1] + p[2], "active" + out + ";k=v", ck})
					}
				}
			}
		}
		return r
	})
	hs("C10", "Warning", "", true, func(c *mc.C) []form {
		var r []form
		for n := 300; n < 400; n += c.Pick(9, 1) {
			for _, agent := range []string{"isi.edu", "a", "1.2.3.4:5060", "h:1", "-._!%*+`'~"} {
				for _, text := range []string{"Session; parameter, \\\"x\\\" not understood", "x", " ", "\\\\", "\xc3\xa9<>:@()"} {
					for _, sp := range []string{" ", " \t"} {
						n, agent, text := n, agent, text
						r = append(r, f2(strconv.Itoa(n)+sp+agent+sp+`"`+text+`"`+sp[1:], strconv.Itoa(n)+" "+agent+` "`+text+`"`, func(k kk, h header.Header) {
							w := h.(*header.Warning)
							k.eq("code", w.GetCode(), n)
							k.eq("agent", w.GetAgent(), agent)
							k.eq("text", w.GetText(), text)
						}))
					}
				}
			}
		}
		return r
	})
}
