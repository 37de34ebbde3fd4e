package props

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C20", Rule: "requests with every subset of kinds of headers, in rotated orders, x status codes and reason phrases: the response made from each, against the rule of what is copied; every status code and its phrase", Run: c20})
	reg(&P{ID: "C21", Rule: "requests with every subset of kinds of headers, in rotated orders: the CANCEL, ACK and BYE made from each, against the rules of what is copied, then every edit of the new request and the text of the original", Run: c21})
}

// dhead is a header of a request that others are made from.
type dhead struct {
	name   string
	bodies []string
}

func (h dhead) lines() string {
	s := ""
	for _, b := range h.bodies {
		s += h.name + ": " + b + "\r\n"
	}
	return s
}

func (h dhead) text() string {
	e := hent{name: h.name, bodies: h.bodies}
	return e.text()
}

var derivable = []dhead{
	{"Via", []string{"SIP/2.0/UDP a;branch=z9hG4bK1;x=\"q\"", "SIP/2.0/TCP b:1;branch=2", "SIP/2.0/UDP c"}},
	{"From", []string{"\"F\" <sip:f@h>;tag=ft"}},
	{"To", []string{"<sip:t@h:5070>;tag=tt;x=1"}},
	{"Call-ID", []string{"id@h"}},
	{"CSeq", []string{"7 INVITE"}},
	{"Max-Forwards", []string{"70"}},
	{"Record-Route", []string{"<sip:r1@h;lr>", "<sip:r2@h>"}},
	{"Content-Type", []string{"text/plain"}},
	{"Timestamp", []string{"5"}},
	{"Route", []string{"<sip:p1@h>", "<sip:p2@h;lr>"}},
	{"Authorization", []string{"Digest realm=\"a\"", "Digest realm=\"b\""}},
	{"Require", []string{"100rel", "x"}},
	{"Contact", []string{"<sip:c@h>;q=0.5"}},
	{"Proxy-Authorization", []string{"Digest realm=\"p\""}},
	{"Proxy-Require", []string{"foo", "bar"}},
	{"Subject", []string{"s, t"}},
	{"X-E", []string{"e"}},
}

// requests calls f with requests that have every subset of the headers.
func requests(c *mc.C, f func(hs []dhead, text string)) {
	n := uint(c.Pick(11, len(derivable)))
	c.Bound("requests", "all subsets of %d kinds of headers (with %d others by turns), each in an order of its own", n, len(derivable)-int(n))
	for set := 0; set < 1<<n; set++ {
		if !c.Mine() {
			continue
		}
		var hs []dhead
		method := []string{"INVITE", "CANCEL", "INVITE", "ACK", "BYE", "FOO", "INFO"}[set/3%7]
		for i := range derivable {
			j := (i*5 + set) % len(derivable)
			in := set>>uint(j)&1 != 0
			if uint(j) >= n {
				in = (set*31+j*7)%3 == 0
			}
			if in {
				h := derivable[j]
				if h.name == "CSeq" {
					h.bodies = []string{"7 " + method}
				}
				hs = append(hs, h)
			}
		}
		lines := ""
		body := ""
		for i, h := range hs {
			lines += h.lines()
			if i == 1 && set%3 == 1 {
				body = "abc"
				lines += "Content-Length: 3\r\n"
			}
		}
		f(hs, method+" sip:u@h;p=1 SIP/2.0\r\n"+lines+"\r\n"+body)
	}
	// every header with values from all over its grammar, among the others
	values := 0
	with := func(name, body string) {
		values++
		if !c.Mine() {
			return
		}
		var hs []dhead
		there := false
		for _, h := range derivable {
			if h.name == name {
				h = dhead{name, append([]string{body}, h.bodies[1:]...)}
				there = true
			}
			hs = append(hs, h)
		}
		if !there {
			hs = append(hs, dhead{name, []string{body}})
		}
		lines := ""
		for _, h := range hs {
			lines += h.lines()
		}
		f(hs, "INVITE sip:u@h;p=1 SIP/2.0\r\n"+lines+"\r\n")
	}
	for _, s := range hspecs {
		if s.name == "CSeq" || s.name == "Content-Length" {
			continue
		}
		some := 6
		if h := find20(s.name); h != nil {
			some = 60
		}
		for _, f := range spread(c.Pick(some, 20*some), s.forms(c)) {
			if fits(s, f) && !(s.name == "Contact" && f.out == "*") {
				with(s.name, f.out)
			}
		}
	}
	for _, n := range []string{"0", "1", "255", "65536", "16777216", "2147483647"} {
		with("CSeq", n+" INVITE")
	}
	for _, n := range []string{"0", "1", "69", "255"} {
		with("Max-Forwards", n)
	}
	c.Bound("values", "%d values of all headers, each in a request with all kinds of headers", values)
}

func find20(name string) *dhead {
	for _, h := range derivable {
		if h.name == name {
			return &h
		}
	}
	return nil
}

var branchParam = regexp.MustCompile(`;branch=([^;]*)`)

// branchOf is the branch of the first Via, which may be none.
func branchOf(h dhead) string {
	if m := branchParam.FindStringSubmatch(h.bodies[0]); m != nil {
		return m[1]
	}
	return ""
}

func kept(hs []dhead, f func(h dhead) *dhead) string {
	s := ""
	for _, h := range hs {
		if r := f(h); r != nil {
			s += r.text()
		}
	}
	return s
}

func c20(c *mc.C) {
	copied := map[string]bool{"Via": true, "From": true, "To": true, "Call-ID": true, "CSeq": true, "Max-Forwards": true, "Record-Route": true, "Timestamp": true}
	i := 0
	codes := []int{100, 180, 183, 200, 302, 401, 404, 481, 486, 487, 500, 503, 600, 606, 299, 699}
	requests(c, func(hs []dhead, text string) {
		i++
		code := codes[i%len(codes)]
		phrase := []string{"", "All, \"Fine\"", "\xc3\xa9", "Two  words", "ok", "200", "x:y"}[i%7]
		key := fmt.Sprintf("%d %q: %s", code, phrase, text)
		c.Run(key, func() {
			k := kk{c, key}
			x, err := parseMsg(text)
			if err != nil {
				c.Fail(key, "%v", err)
				return
			}
			req := x.(*message.SIPRequest)
			before := req.String()
			c.Step(1)
			var r *message.SIPResponse
			if phrase == "" && i%2 == 0 {
				r = req.CreateResponse(code)
			} else {
				r = req.CreateResponse2(code, phrase)
			}
			want := phrase
			if want == "" {
				want = phrases[code]
			}
			k.eq("status code", r.GetStatusCode(), code)
			k.eq("reason phrase", r.GetReasonPhrase(), want)
			k.eq("final", r.IsFinalResponse(), code >= 200)
			line := fmt.Sprintf("SIP/2.0 %d %s\r\n", code, want)
			k.eq("first line", r.GetFirstLine(), line)
			k.eq("response", r.String(), line+kept(hs, func(h dhead) *dhead {
				if copied[h.name] {
					return &h
				}
				return nil
			})+"Content-Length: 0\r\n\r\n")
			k.eq("request, after its response was made", req.String(), before)
			k.eq("content", r.GetContent(), "")
			if len(hs) > 0 {
				m2, err := parseMsg(r.String())
				if c.Check(err == nil, key, "the response is rejected: %v", err) {
					k.eq("response, parsed and encoded", m2.String(), r.String())
				}
			}
			full := req.GetCallId() != nil && req.GetFrom() != nil && req.GetTo() != nil
			if full && req.GetTopmostVia() != nil {
				k.eq("transaction", r.GetTransactionId(), req.GetTransactionId())
				k.eq("dialog of the client", r.GetDialogId(false), req.GetDialogId(false))
				k.eq("dialog of the server", r.GetDialogId(true), req.GetDialogId(true))
			}
			// all a response to a complete request needs is there
			if req.CheckHeaders() == nil {
				k.ok("the response lacks headers that the request had", r.CheckHeaders() == nil)
			}
			c.State(r.String())
			c.Trace()
			if c.CaseNo()%997 == 0 {
				c.Sample("%s -> %q", key, r.String())
			}
		})
	})
	req := message.NewSIPRequest()
	for code := 100; code < 700; code++ {
		if !c.Mine() {
			continue
		}
		code := code
		key := fmt.Sprint(code)
		c.Run(key, func() {
			k := kk{c, key}
			c.Step(1)
			r := req.CreateResponse(code)
			k.eq("code", r.GetStatusCode(), code)
			k.eq("phrase", r.GetReasonPhrase(), phrases[code])
			k.eq("phrase of the code", r.GetReasonPhraseFromInt(code), phrases[code])
			k.eq("first line", r.GetFirstLine(), fmt.Sprintf("SIP/2.0 %d %s\r\n", code, phrases[code]))
			k.eq("final", r.IsFinalResponse(), code >= 200)
			k.eq("final code", r.IsFinalResponseFromInt(code), code >= 200)
			c.Trace()
		})
	}
}

// phrases are the standard reason phrases.
var phrases = map[int]string{
	100: "Trying", 180: "Ringing", 181: "Call is being forwarded", 182: "Queued", 183: "Session progress",
	200: "OK", 202: "Accepted",
	300: "Multiple choices", 301: "Moved permanently", 302: "Moved Temporarily", 305: "Use proxy", 380: "Alternative service",
	400: "Bad request", 401: "Unauthorized", 402: "Payment required", 403: "Forbidden", 404: "Not found", 405: "Method not allowed",
	406: "Not acceptable", 407: "Proxy Authentication required", 408: "Request timeout", 410: "Gone",
	413: "Request entity too large", 414: "Request-URI too large", 415: "Unsupported media type", 416: "Unsupported URI Scheme",
	420: "Bad extension", 421: "Extension Required", 423: "Interval too brief", 480: "Temporarily Unavailable",
	481: "Call leg/Transaction does not exist", 482: "Loop detected", 483: "Too many hops", 484: "Address incomplete",
	485: "Ambiguous", 486: "Busy here", 487: "Request Terminated", 488: "Not Acceptable here", 489: "Bad Event", 491: "Request Pending", 493: "Undecipherable",
	500: "Server Internal Error", 501: "Not implemented", 502: "Bad gateway", 503: "Service unavailable", 504: "Gateway timeout",
	505: "SIP version not supported", 513: "Message Too Large",
	600: "Busy everywhere", 603: "Decline", 604: "Does not exist anywhere", 606: "Session Not acceptable",
}

func noTag(b string) string {
	i := strings.Index(b, ";tag=")
	if i < 0 {
		return b
	}
	j := strings.Index(b[i+1:], ";")
	if j < 0 {
		return b[:i]
	}
	return b[:i] + b[i+1+j:]
}

// edits changes every part of a new request and looks at the original.
func edits(c *mc.C, k kk, r *message.SIPRequest, orig fmt.Stringer, before, name string) {
	// whatever becomes of the new request, the original stays
	edit := func(what string, f func()) {
		c.Step(1)
		f()
		k.eq("original, after "+what+" of "+name, orig.String(), before)
	}
	edit("tags", func() { r.SetFromTag("e1"); r.SetToTag("e2") })
	edit("method", func() { r.SetMethod("EDITED") })
	edit("via", func() {
		if v := r.GetTopmostVia(); v != nil {
			v.SetBranch("edited")
			v.SetPort(9)
			v.SetParameter("z", "1")
			v.RemoveParameter("x")
		}
	})
	edit("uri", func() {
		if u, ok := r.GetRequestURI().(*address.SipURIImpl); ok {
			u.SetUser("edited")
			u.SetPort(9)
			u.SetParameter("p", "2")
		}
	})
	edit("from and to", func() {
		for _, n := range []string{"From", "To"} {
			switch h := r.GetHeader(n).(type) {
			case *header.From:
				h.GetAddress().(*address.AddressImpl).SetDisplayName("edited")
				h.RemoveParameters()
			case *header.To:
				h.GetAddress().(*address.AddressImpl).SetDisplayName("edited")
				h.RemoveParameters()
			}
		}
	})
	edit("number", func() {
		if cs := r.GetCSeq(); !isNil(cs) {
			cs.SetSequenceNumber(99)
		}
		if mf := r.GetMaxForwards(); !isNil(mf) {
			mf.SetMaxForwards(1)
		}
		r.SetCallIdFromString("edited")
	})
	edit("lists", func() {
		for _, n := range []string{"Via", "Route", "Record-Route", "Contact", "Require", "Authorization", "Proxy-Authorization", "Proxy-Require"} {
			r.RemoveHeader2(n, true)
		}
	})
	edit("content", func() { r.SetMessageContentFromString("a", "b", "edited") })
}

func c21(c *mc.C) {
	ackTo, err := parseLine("To: <sip:ack@h>;tag=new\n")
	if err != nil {
		panic(err)
	}
	ackTo2, err := parseLine("To: \"N\" <sip:ack2@h>;x=1\n")
	if err != nil {
		panic(err)
	}
	type deriv struct {
		name string
		do   func(r *message.SIPRequest) *message.SIPRequest
		line string
		rule func(h dhead) *dhead
	}
	with := func(h dhead, bodies ...string) *dhead { return &dhead{h.name, bodies} }
	ack := func(to string) func(h dhead) *dhead {
		return func(h dhead) *dhead {
			switch h.name {
			case "Route", "Proxy-Authorization", "Content-Type":
				return nil
			case "CSeq":
				return with(h, strings.Fields(h.bodies[0])[0]+" ACK")
			case "Via":
				return with(h, h.bodies[0])
			case "To":
				if to != "" {
					return with(h, to)
				}
			}
			return &h
		}
	}
	inDialog := func(method string, sw bool) func(h dhead) *dhead {
		return func(h dhead) *dhead {
			switch h.name {
			case "CSeq":
				return with(h, strings.Fields(h.bodies[0])[0]+" "+method)
			case "Via":
				return with(h, branchParam.ReplaceAllString(h.bodies[0], ""))
			case "From", "To":
				n := h.name
				if sw {
					n = map[string]string{"From": "To", "To": "From"}[n]
				}
				return &dhead{n, []string{noTag(h.bodies[0])}}
			case "Call-ID", "Max-Forwards":
				return &h
			}
			return nil
		}
	}
	derivs := []deriv{
		{"CANCEL", func(r *message.SIPRequest) *message.SIPRequest { return r.CreateCancelRequest() }, "CANCEL", func(h dhead) *dhead {
			switch h.name {
			case "Require", "Proxy-Require", "Content-Type":
				return nil
			case "CSeq":
				return with(h, strings.Fields(h.bodies[0])[0]+" CANCEL")
			}
			return &h
		}},
		{"ACK", func(r *message.SIPRequest) *message.SIPRequest { return r.CreateAckRequest(nil) }, "ACK", ack("")},
		{"ACK to a response", func(r *message.SIPRequest) *message.SIPRequest {
			return r.CreateAckRequest(ackTo.Clone().(*header.To))
		}, "ACK", ack("<sip:ack@h>;tag=new")},
		{"ACK to a response without a tag", func(r *message.SIPRequest) *message.SIPRequest {
			return r.CreateAckRequest(ackTo2.Clone().(*header.To))
		}, "ACK", ack("\"N\" <sip:ack2@h>;x=1")},
		{"BYE", func(r *message.SIPRequest) *message.SIPRequest { return r.CreateBYERequest(false) }, "BYE", inDialog("BYE", false)},
		{"BYE the other way", func(r *message.SIPRequest) *message.SIPRequest { return r.CreateBYERequest(true) }, "BYE", inDialog("BYE", true)},
		{"ACK in dialog", func(r *message.SIPRequest) *message.SIPRequest { return r.CreateACKRequest() }, "ACK", inDialog("ACK", false)},
		{"INFO", func(r *message.SIPRequest) *message.SIPRequest {
			l := r.GetRequestLine().Clone().(*header.RequestLine)
			l.SetMethod("INFO")
			return r.CreateSIPRequest(l, true)
		}, "INFO", inDialog("INFO", true)},
	}
	nth := 0
	requests(c, func(hs []dhead, text string) {
		// some of them also with the Via headers taken off one by one
		var off []dhead
		for _, h := range hs {
			if h.name != "Via" {
				off = append(off, h)
			}
		}
		nth++
		for i := 0; i < 2*len(derivs); i++ {
			d, hs, text := derivs[i/2], hs, text
			emptied := i%2 == 1
			if emptied {
				if nth%4 != 1 || len(off) == len(hs) || d.name == "CANCEL" {
					continue
				}
				hs = off
				text = "no Via any more: " + text
			}
			key := d.name + ": " + text
			c.Run(key, func() {
				k := kk{c, key}
				x, err := parseMsg(strings.TrimPrefix(text, "no Via any more: "))
				if err != nil {
					c.Fail(key, "%v", err)
					return
				}
				req := x.(*message.SIPRequest)
				if emptied {
					for l := req.GetViaHeaders(); l.Len() > 0; {
						l.Remove(l.Front())
					}
				}
				before := req.String()
				c.Step(1)
				r := d.do(req)
				want := d.line + " sip:u@h;p=1 SIP/2.0\r\n" + kept(hs, d.rule) + "Content-Length: 0\r\n\r\n"
				k.eq(d.name, r.String(), want)
				k.eq("method", r.GetMethod(), d.line)
				if cs := r.GetCSeq(); !isNil(cs) {
					k.eq("cseq method", cs.GetMethod(), d.line)
				}
				k.eq("request, after "+d.name+" was made", req.String(), before)
				m2, err := parseMsg(r.String())
				if c.Check(err == nil, key, "%q is rejected: %v", r.String(), err) {
					k.eq(d.name+", parsed and encoded", m2.String(), r.String())
				}
				c.State(want)
				if v := req.GetTopmostVia(); d.name == "CANCEL" && v != nil && strings.HasPrefix(v.GetBranch(), "z9hG4bK") {
					k.eq("transaction", r.GetTransactionId(), req.GetTransactionId())
				}
				edits(c, k, r, req, before, d.name)
				c.Trace()
				if c.CaseNo()%997 == 0 {
					c.Sample("%s -> %q", key, r.String())
				}
			})
		}
	})

	// requests from responses
	more := []dhead{{"Server", []string{"S/1"}}, {"Warning", []string{"399 h \"w\""}}, {"WWW-Authenticate", []string{"Digest realm=\"w\""}}, {"Unsupported", []string{"u"}}, {"Retry-After", []string{"5"}}, {"Error-Info", []string{"<http://e>"}}, {"Proxy-Authenticate", []string{"Digest realm=\"y\""}}}
	dropped := map[string]bool{"Via": true, "CSeq": true, "Content-Type": true, "Record-Route": true}
	for _, h := range more {
		dropped[h.name] = true
	}
	n := 0
	requests(c, func(hs []dhead, text string) {
		n++
		hs = append(append([]dhead{}, hs...), more[n%len(more)], more[n*3%len(more)])
		if n%len(more) == n*3%len(more) {
			hs = hs[:len(hs)-1]
		}
		lines := ""
		vb := ""
		for _, h := range hs {
			lines += h.lines()
			if h.name == "Via" {
				vb = branchOf(h)
			}
		}
		method := []string{"ACK", "CANCEL", "BYE", "FOO"}[n%4]
		body := ""
		if n%5 == 0 {
			body = "xyz"
			lines += "Content-Length: 3\r\n"
		}
		key := method + " from SIP/2.0 200 OK\r\n" + lines
		c.Run(key, func() {
			k := kk{c, key}
			x, err := parseMsg("SIP/2.0 200 OK\r\n" + lines + "\r\n" + body)
			if err != nil {
				c.Fail(key, "%v", err)
				return
			}
			res := x.(*message.SIPResponse)
			before := res.String()
			u, err := parser.NewStringMsgParser().ParseUrl("sip:new@u")
			if err != nil {
				c.Fail(key, "%v", err)
				return
			}
			c.Step(1)
			r := res.CreateRequest(u, one("Via", "SIP/2.0/UDP n;branch=z9hG4bKn").(*header.Via), one("CSeq", "8 "+method).(*header.CSeq))
			if vb == "" || n%4 > 1 {
				vb = "z9hG4bKn"
			}
			want := method + " sip:new@u SIP/2.0\r\nVia: SIP/2.0/UDP n;branch=" + vb + "\r\nCSeq: 8 " + method + "\r\n" + kept(hs, func(h dhead) *dhead {
				if dropped[h.name] {
					return nil
				}
				return &h
			}) + "Content-Length: 0\r\n\r\n"
			k.eq("request", r.String(), want)
			k.eq("method", r.GetMethod(), method)
			k.eq("response, after a request was made", res.String(), before)
			edits(c, k, r, res, before, method)
			c.State(want)
			c.Trace()
		})
	})
}
