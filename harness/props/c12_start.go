package props

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C12", Rule: "request lines: methods (known, extension, all tokens to a length) x URIs x white space; status lines: codes x reason phrases (all texts to a length over a class-representative alphabet); alone and as the start of a message; and lines with a part missing, wrong or left over, to be rejected", Run: c12})
}

func c12(c *mc.C) {
	const rest = "Via: SIP/2.0/UDP h;branch=z9hG4bK1\nCall-ID: a\n\n"
	request := func(method, sp1, uri, sp2, tail string, out string) {
		if !c.Mine() {
			return
		}
		line := method + sp1 + uri + sp2 + "SIP/2.0" + tail
		c.Run(line, func() {
			k := kk{c, line}
			c.Step(2)
			check := func(what string, rl *header.RequestLine) {
				k.eq(what+"method", rl.GetMethod(), method)
				k.eq(what+"version", rl.GetSipVersion(), "SIP/2.0")
				k.eq(what+"major version", rl.GetVersionMajor(), "2")
				k.eq(what+"minor version", rl.GetVersionMinor(), "0")
				if rl.GetUri() == nil {
					k.ok(what+"no URI", false)
					return
				}
				k.eq(what+"URI", rl.GetUri().String(), out)
				k.eq(what+"text", rl.String(), method+" "+out+" SIP/2.0\r\n")
			}
			rl, err := parser.NewStringMsgParser().ParseSIPRequestLine(line)
			if !c.Check(err == nil && rl != nil, line, "%q is rejected: %v", line, err) {
				return
			}
			check("", rl)
			c.State(rl.String())
			c.Step(2)
			rl2, err := parser.NewStringMsgParser().ParseSIPRequestLine(strings.TrimSuffix(rl.String(), "\r\n"))
			if c.Check(err == nil && rl2 != nil, line, "%q is encoded as %q, which is rejected: %v", line, rl.String(), err) {
				check("encoded and parsed again: ", rl2)
			}
			m, err := parser.NewStringMsgParser().ParseSIPMessage(line + "\n" + rest)
			if !c.Check(err == nil && !isNil(m), line, "a message starting with %q is rejected: %v", line, err) {
				return
			}
			r, ok := m.(*message.SIPRequest)
			if !c.Check(ok, line, "a message starting with %q gives a %T", line, m) {
				return
			}
			check("in a message: ", r.GetRequestLine())
			k.eq("method of the message", r.GetMethod(), method)
			k.eq("version of the message", r.GetSIPVersion(), "SIP/2.0")
			if r.GetRequestURI() != nil {
				k.eq("URI of the message", r.GetRequestURI().String(), out)
			} else {
				k.ok("the message has no URI", false)
			}
			k.eq("first line of the message", r.GetFirstLine(), method+" "+out+" SIP/2.0\r\n")
			k.ok("the message's text does not start with its request line", strings.HasPrefix(r.String(), method+" "+out+" SIP/2.0\r\n"))
			c.Trace()
			if c.CaseNo()%4999 == 0 {
				c.Sample("%q", line)
			}
		})
	}
	methods := []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "SUBSCRIBE", "NOTIFY", "INFO", "PRACK", "UPDATE", "REFER", "MESSAGE", "PUBLISH", "invite", "Invite", "SIPS", "TEL", "!interesting-Method0123456789_*+`.%indeed'~"}
	tok := words([]string{"A", "z", "0", "-", ".", "!", "%", "*", "_", "+", "`", "'", "~"}, c.Pick(2, 4))
	uris := [][2]string{{"sip:h", ""}, {"SIP:a:p@[::1]:5060;lr;x=%20?s=1&t=2", "sip:a:p@[::1]:5060;lr;x=%20?s=1&t=2"}, {"sips:a;b=c@h", ""}, {"tel:+1-212;isub=1", ""}, {"http://h/p?q=a&r=b", ""}, {"sip:INVITE@SIP", ""}}
	sps := []string{" ", "  ", "\t", " \t "}
	tails := []string{"", " ", "\t "}
	c.Bound("methods", "%d", len(methods)+len(tok))
	for i, m := range append(methods, tok...) {
		if strings.EqualFold(m, "sip") {
			continue
		}
		for j, u := range uris {
			if u[1] == "" {
				u[1] = u[0]
			}
			if i >= len(methods) && j != i%len(uris) {
				continue
			}
			for a, s1 := range sps {
				for b, s2 := range sps {
					if i >= len(methods) && (a != i%4 || b != (i/4)%4) {
						continue
					}
					request(m, s1, u[0], s2, tails[(a+b+i)%3], u[1])
				}
			}
		}
	}

	status := func(sp1, code, sp2, reason, tail string) {
		if !c.Mine() {
			return
		}
		line := "SIP/2.0" + sp1 + code + sp2 + reason + tail
		c.Run(line, func() {
			k := kk{c, line}
			n, _ := strconv.Atoi(code)
			out := "SIP/2.0 " + code + " " + reason + "\r\n"
			check := func(what string, sl *header.StatusLine) {
				k.eq(what+"version", sl.GetSipVersion(), "SIP/2.0")
				k.eq(what+"major version", sl.GetVersionMajor(), "2")
				k.eq(what+"minor version", sl.GetVersionMinor(), "0")
				k.eq(what+"code", sl.GetStatusCode(), n)
				k.eq(what+"reason", sl.GetReasonPhrase(), reason)
				k.eq(what+"text", sl.String(), out)
			}
			c.Step(2)
			sl, err := parser.NewStringMsgParser().ParseSIPStatusLine(line)
			if !c.Check(err == nil && sl != nil, line, "%q is rejected: %v", line, err) {
				return
			}
			check("", sl)
			c.State(sl.String())
			sl2, err := parser.NewStringMsgParser().ParseSIPStatusLine(strings.TrimSuffix(sl.String(), "\r\n"))
			if c.Check(err == nil && sl2 != nil, line, "%q is encoded as %q, which is rejected: %v", line, sl.String(), err) {
				check("encoded and parsed again: ", sl2)
			}
			c.Step(1)
			m, err := parser.NewStringMsgParser().ParseSIPMessage(line + "\n" + rest)
			if !c.Check(err == nil && !isNil(m), line, "a message starting with %q is rejected: %v", line, err) {
				return
			}
			r, ok := m.(*message.SIPResponse)
			if !c.Check(ok, line, "a message starting with %q gives a %T", line, m) {
				return
			}
			check("in a message: ", r.GetStatusLine())
			k.eq("code of the message", r.GetStatusCode(), n)
			k.eq("reason of the message", r.GetReasonPhrase(), reason)
			k.eq("version of the message", r.GetSIPVersion(), "SIP/2.0")
			k.eq("final", r.IsFinalResponse(), n >= 200)
			k.eq("first line of the message", r.GetFirstLine(), out)
			k.ok("the message's text does not start with its status line", strings.HasPrefix(r.String(), out))
			c.Trace()
			if c.CaseNo()%4999 == 0 {
				c.Sample("%q", line)
			}
		})
	}
	rw := words([]string{"a", "0", "\xc3\xa9", "\"", "<", ";", "%41", "= ,", "/", ":\t(", "\\", "SIP/2.0"}, c.Pick(2, 3))
	c.Bound("reason phrases", "%d", len(rw)+2)
	for i, r := range append([]string{"", "OK", "Not Acceptable Here"}, rw...) {
		for j, s := range sps {
			if i > 20 && j != i%4 {
				continue
			}
			status(s, strconv.Itoa(100+(i*37+j)%600), sps[(i+j)%4], r, tails[(i+j)%3])
		}
	}
	for n := 100; n < 700; n++ {
		status(" ", strconv.Itoa(n), " ", "", "")
		status(" ", strconv.Itoa(n), " ", "Reason", "")
	}
	c.Bound("status codes", "100 to 699")

	reject := func(line string) {
		for _, how := range []string{"request line", "status line", "message"} {
			if !c.Mine() {
				continue
			}
			key := how + " " + line
			how := how
			c.Run(key, func() {
				c.Step(1)
				var v interface{}
				var err error
				switch how {
				case "request line":
					v, err = parser.NewStringMsgParser().ParseSIPRequestLine(line)
				case "status line":
					v, err = parser.NewStringMsgParser().ParseSIPStatusLine(line)
				default:
					v, err = parser.NewStringMsgParser().ParseSIPMessage(line + "\n" + rest)
				}
				c.Check(err != nil && isNil(v), key, "%s %q is accepted as %q", how, line, render(v, nil))
				c.Outcome("rejected")
				c.Trace()
			})
		}
	}
	for _, v := range []string{"SIP/1.0", "SIP/2.1", "SIP/3.0", "SIP/2", "SIP/20", "SIP/2.00", "HTTP/1.1", "sip/2.0", "SIP", "SIP/", "2.0", "SIP 2.0", "SIP\\2.0", ""} {
		reject("INVITE sip:a@h " + v)
		reject(v + " 200 OK")
	}
	for _, l := range []string{"INVITE", "INVITE ", "INVITE SIP/2.0", "INVITE sip:a@h", "sip:a@h SIP/2.0", " SIP/2.0", "INVITE sip: SIP/2.0", "INVITE sip:@h SIP/2.0", "INVITE <sip:a@h> SIP/2.0", "INVITE sip:a@h; lr SIP/2.0", "INVITE sip:a b@h SIP/2.0",
		"INVITE sip:a@h SIP/2.0 x", "INVITE sip:a@h SIP/2.0SIP/2.0", "INVITE sip:a@h SIP/2.0;x", "INVITE sip:a@h,sip:b@h SIP/2.0", "INV(ITE sip:a@h SIP/2.0", "INVITE, sip:a@h SIP/2.0", "INVITE sip:a@h SIP/2.0 SIP/2.0", "\"INVITE\" sip:a@h SIP/2.0", "INVITE tel: SIP/2.0", "INVITE tel:+ SIP/2.0",
		"SIP/2.0", "SIP/2.0 ", "SIP/2.0 OK", "SIP/2.0 x200 OK", "SIP/2.0 -1 OK", "SIP/2.0 OK 200", "SIP/2.0 99999999999999999999 OK", "SIP/2.0 20 OK", "SIP/2.0 0 OK", "SIP/2.0 99 OK", "SIP/2.0 700 OK", "SIP/2.0 1000 OK", "SIP/2.0 4294967301 OK", "SIP/2.0 200OK", "SIP/2.0 2x0 OK", "SIP/2.0 +200 OK"} {
		reject(l)
	}
}
