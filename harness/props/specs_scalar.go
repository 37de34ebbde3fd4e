package props

import (
	"container/list"
	"fmt"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

// zones are places in which the name GMT has different meanings.
var zones = func() (r []*time.Location) {
	for _, n := range []string{"UTC", "Europe/London", "Africa/Abidjan", "America/New_York", "Asia/Tokyo"} {
		if z, err := time.LoadLocation(n); err == nil {
			r = append(r, z)
		}
	}
	return append(r, time.FixedZone("GMT", 3600))
}()

func init() {
	reg(&P{ID: "C09", Rule: "every numeric, date and version header x every value of the boundary set x name spellings; parsed, read, encoded, parsed again; malformed values", Run: func(c *mc.C) {
		groupRun("C09")(c)
		badNumbers(c)
	}})
	reg(&P{ID: "C11", Rule: "every free-text, token and unknown header x every value of the text set x name spellings", Run: groupRun("C11")})

	nums := func(max int64) []string {
		r := []string{"0", "1", "2", "9", "10", "60", "70", "100", "127", "128", "255", "256", "3600", "65535", "65536", "2147483647"}
		var o []string
		for _, s := range r {
			if n, _ := strconv.ParseInt(s, 10, 64); n <= max {
				o = append(o, s)
			}
		}
		return o
	}
	num := func(max int64, get func(h header.Header) int) func(c *mc.C) []form {
		return func(c *mc.C) []form {
			var r []form
			ns := nums(max)
			n := c.Pick(300, 20000)
			for i := 3; i < n && int64(i) <= max; i++ {
				ns = append(ns, strconv.Itoa(i))
			}
			for _, s := range ns {
				n, _ := strconv.Atoi(s)
				ck := func(k kk, h header.Header) { k.eq("number", get(h), n) }
				r = append(r, f1(s, ck), f2("00"+s, s, ck), f2(s+" \t", s, ck))
			}
			return r
		}
	}
	const i32 = 1<<31 - 1
	hs("C09", "Content-Length", "l", false, num(i32, func(h header.Header) int { return h.(*header.ContentLength).GetContentLength() }))
	hs("C09", "Max-Forwards", "", false, num(255, func(h header.Header) int { return h.(*header.MaxForwards).GetMaxForwards() }))
	hs("C09", "Expires", "", false, num(i32, func(h header.Header) int { return h.(*header.Expires).GetExpires() }))
	hs("C09", "Min-Expires", "", false, num(i32, func(h header.Header) int { return h.(*header.MinExpires).GetExpires() }))
	pos := func(fs []form) []form { // without the zeros
		var r []form
		for _, f := range fs {
			if f.out != "0" {
				r = append(r, f)
			}
		}
		return r
	}
	hs("C09", "RSeq", "", false, func(c *mc.C) []form {
		return pos(num(i32, func(h header.Header) int { return h.(*header.RSeq).GetSequenceNumber() })(c))
	})
	methods := []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "INFO", "PRACK", "UPDATE", "SUBSCRIBE", "NOTIFY", "MESSAGE", "REFER", "FOO", "A-1.!%*_+`'~"}
	sps := []string{" ", "  ", "\t", " \t "}
	hs("C09", "CSeq", "", false, func(c *mc.C) []form {
		var r []form
		for _, n := range nums(i32) {
			for _, m := range methods {
				for _, sp := range sps {
					for _, end := range []string{"", " ", "\t"} {
						n, m := n, m
						r = append(r, f2(n+sp+m+end, n+" "+m, func(k kk, h header.Header) {
							cs := h.(*header.CSeq)
							k.eq("number", strconv.Itoa(cs.GetSequenceNumber()), n)
							k.eq("method", cs.GetMethod(), m)
						}))
					}
				}
			}
		}
		return r
	})
	hs("C09", "RAck", "", false, func(c *mc.C) []form {
		var r []form
		for _, n := range nums(i32)[1:] {
			for _, n2 := range nums(i32)[1:] {
				for _, m := range append([]string{"invite", "x-1.a"}, methods...) {
					for _, sp := range sps[:c.Pick(2, 4)] {
						n, n2, m := n, n2, m
						r = append(r, f2(n+sp+n2+sp+m, n+" "+n2+" "+m, func(k kk, h header.Header) {
							ra := h.(*header.RAck)
							k.eq("response number", strconv.Itoa(ra.GetRSeqNumber()), n)
							k.eq("CSeq number", strconv.Itoa(ra.GetCSeqNumber()), n2)
							k.eq("method", ra.GetMethod(), m)
						}))
					}
				}
			}
		}
		return r
	})
	hs("C09", "MIME-Version", "", false, func(c *mc.C) []form {
		var r []form
		for i := 0; i < 20; i++ {
			for j := 0; j < 20; j++ {
				i, j := i, j
				r = append(r, f1(fmt.Sprintf("%d.%d", i, j), func(k kk, h header.Header) {
					v := h.(*header.MimeVersion)
					k.eq("major", v.GetMajorVersion(), i)
					k.eq("minor", v.GetMinorVersion(), j)
				}))
			}
		}
		return r
	})
	hs("C09", "Date", "", false, func(c *mc.C) []form {
		var r []form
		for d := time.Date(1999, 12, 25, 0, 0, 0, 0, time.UTC); d.Year() < 2001+c.Pick(0, 8); d = d.Add(13*time.Hour + 7*time.Minute + 11*time.Second) {
			d := d
			s := d.Format("Mon, 02 Jan 2006 15:04:05 ") + "GMT"
			r = append(r, f1(s, func(k kk, h header.Header) {
				t := h.(*header.Date).GetDate()
				if t == nil {
					k.ok("no date", false)
					return
				}
				k.eq("date", t.Unix(), d.Unix())
				// and wherever the reader is
				here := time.Local
				defer func() { time.Local = here }()
				for _, z := range zones {
					time.Local = z
					x, err := parseLine("Date: " + s)
					if err != nil || isNil(x) || x.(*header.Date).GetDate() == nil {
						k.ok(fmt.Sprintf("rejected in %s: %v", z, err), false)
						continue
					}
					k.eq("date read in "+z.String(), x.(*header.Date).GetDate().Unix(), d.Unix())
					k.eq("text in "+z.String(), x.EncodeBody(), s)
				}
			}))
		}
		return r
	})
	hs("C09", "Timestamp", "", false, func(c *mc.C) []form {
		var r []form
		// values a 32-bit float holds exactly, so that the text is preserved
		vals := []string{"0", "0.001953125", "0.0009765625", "1", "5", "54", "0.5", "1.25", "3.75", "100.125", "65536", "0.0625", "1024.5", "0.00001", "0.0000001", "10000000000000000000000"}
		for _, a := range vals {
			for _, b := range append([]string{""}, vals...) {
				for _, sp := range sps {
					a, b := a, b
					in, out := a, a
					if b != "" {
						in, out = a+sp+b, a+" "+b
					}
					r = append(r, f2(in, out, func(k kk, h header.Header) {
						t := h.(*header.TimeStamp)
						fa, _ := strconv.ParseFloat(a, 32)
						k.eq("time", t.GetTimeStamp(), float32(fa))
						k.eq("has delay", t.HasDelay(), b != "")
						if b != "" {
							fb, _ := strconv.ParseFloat(b, 32)
							k.eq("delay", t.GetDelay(), float32(fb))
						}
					}))
				}
			}
		}
		return r
	})
	hs("C09", "Retry-After", "", false, func(c *mc.C) []form {
		var r []form
		for _, n := range nums(i32) {
			n := n
			for _, cm := range []string{"", "I'm in a meeting", "a;b=c,d", `esc \) \\`, "\xc3\xa9"} {
				cm := cm
				base := form{n, n, []chk{func(k kk, h header.Header) {
					ra := h.(*header.RetryAfter)
					k.eq("seconds", strconv.Itoa(ra.GetRetryAfter()), n)
					k.eq("has comment", ra.HasComment(), cm != "")
					k.eq("comment", ra.GetComment(), cm)
				}}}
				if cm != "" {
					base.in += " \t(" + cm + ")"
					base.out += " (" + cm + ")"
				}
				ps := []param{{in: "duration=36", out: "duration=36", name: "duration", val: "36", chks: []chk{func(k kk, h header.Header) {
					k.eq("duration", h.(*header.RetryAfter).GetDuration(), 36)
				}}}, {in: "x=1", out: "x=1", name: "x", val: "1"}, {in: "w = t.1", out: "w=t.1", name: "w", val: "t.1"}, {in: "Q=\"a;b\"", out: "Q=\"a;b\"", name: "q", val: "a;b"}}
				ps[0].in = []string{"duration=36", "DURATION=36", "Duration\t= 36", "duration = 0036 "}[len(r)%4]
				r = append(r, seq([]form{base}, params(c, 3, ";", ps))...)
			}
		}
		return r
	})

	// Free text.
	texts := func(c *mc.C) []string {
		r := []string{"a", "Need more boxes", "a, b; c=d", `say "hi"`, "\xc3\xa9\xff", "a\tb  c", "<sip:a@b>;x", "(comment)", "1", "a:b", "*", "\\"}
		r = append(r, words([]string{"a", "0", ",", ";", "=", "\"", "\\", "(", ")", "<", ">", " ", "\t", ":", "%", "@", "/", "\xc3\xa9", "*", "SIP/2.0"}, c.Pick(2, 4))...)
		if c.Thorough() {
			for b := 33; b < 256; b++ {
				r = append(r, string([]byte{byte(b)}), string([]byte{'a', byte(b)}), string([]byte{byte(b), ' ', byte(b)}))
			}
		}
		return r
	}
	text := func(get func(h header.Header) string) func(c *mc.C) []form {
		return func(c *mc.C) []form {
			var r []form
			for _, s := range texts(c) {
				if strings.TrimSpace(s) != s || s == "" {
					continue // not representable: outer white space is not part of the value
				}
				s := s
				ck := func(k kk, h header.Header) { k.eq("text", get(h), s) }
				r = append(r, f1(s, ck), f2(s+" \t ", s, ck))
			}
			return r
		}
	}
	hs("C11", "Subject", "s", false, text(func(h header.Header) string { return h.(*header.Subject).GetSubject() }))
	hs("C11", "Organization", "", false, text(func(h header.Header) string { return h.(*header.Organization).GetOrganization() }))
	hs("C11", "X-Extension", "", false, text(func(h header.Header) string { return h.(*header.Extension).GetValue() }))
	hs("C11", "P-Asserted-Identity", "", false, text(func(h header.Header) string { return h.(*header.Extension).GetValue() }))
	callids := []string{"f81d4fae@10.0.0.1", "a", "a84b4c76e66710", "1@2", "x!%*_+`'~@h", "(<>:\\\"/[]?{}@w", "a.b-c@d.e"}
	hs("C11", "Call-ID", "i", false, func(c *mc.C) []form {
		return cat(each(callids, func(s string) chk {
			return func(k kk, h header.Header) {
				k.eq("call id", h.(*header.CallID).GetCallId(), s)
				if i := strings.Index(s, "@"); i >= 0 {
					k.eq("local id", h.(*header.CallID).GetCallIdentifer().GetLocalId(), s[:i])
					k.eq("host", h.(*header.CallID).GetCallIdentifer().GetHost(), s[i+1:])
				} else {
					k.eq("local id", h.(*header.CallID).GetCallIdentifer().GetLocalId(), s)
					k.eq("host", h.(*header.CallID).GetCallIdentifer().GetHost(), "")
				}
			}
		}), alt("a@b", "a@b ", "a@b\t"))
	})
	hs("C11", "Priority", "", false, func(c *mc.C) []form {
		return cat(each([]string{"emergency", "urgent", "normal", "non-urgent", "x.1"}, func(s string) chk {
			return func(k kk, h header.Header) { k.eq("priority", h.(*header.Priority).GetPriority(), s) }
		}), alt("normal", "normal ", "normal\t"))
	})
	product := func(get func(h header.Header) *list.List) func(c *mc.C) []form {
		return func(c *mc.C) []form {
			ck := func(s string) chk {
				return func(k kk, h header.Header) {
					l := get(h)
					if l == nil {
						k.ok("no products", false)
						return
					}
					var parts []string
					for e := l.Front(); e != nil; e = e.Next() {
						parts = append(parts, e.Value.(string))
					}
					if want := products(s); want != nil {
						k.eq("parts", fmt.Sprintf("%q", parts), fmt.Sprintf("%q", want))
					}
					k.eq("products", strings.Join(parts, "/"), s)
				}
			}
			r := each([]string{"HomeServer/v2", "Softphone", "Softphone Beta1.5", "a/b/c", "X-Lite release 1011s stamp 41150", "a (comment)", "a/1 (x/y)", "(c)", "\xc3\xa9/1"}, ck)
			for _, w := range words([]string{"a", "1.0", "/", " ", "(", ")", "\\", "(c)", "(x/y)", "\xe9", "\""}, c.Pick(4, 5)) {
				if strings.TrimSpace(w) == w {
					r = append(r, f1(w, ck(w)))
				}
			}
			return r
		}
	}
	hs("C11", "Server", "", false, product(func(h header.Header) *list.List { return h.(*header.Server).GetProduct() }))
	hs("C11", "User-Agent", "", false, product(func(h header.Header) *list.List { return h.(*header.UserAgent).GetProduct() }))
	_ = strings.ToLower
}

// badNumbers checks that what is not a number is rejected where one is needed.
func badNumbers(c *mc.C) {
	bad := []string{"", "-1", "+1", "x", "1x", "x1", "1.5", "1 2", "1,2", "1;2", "0x10", "99999999999999999999", "\"1\"", "1-", "-", "1e3", "\xc2\xb2", "1\x00"}
	names := map[string][]string{
		"Content-Length": {"%"}, "Max-Forwards": {"%"}, "Expires": {"%"}, "Min-Expires": {"%"}, "RSeq": {"%"},
		"CSeq": {"% INVITE"}, "RAck": {"% 1 INVITE", "1 % INVITE"}, "MIME-Version": {"%.0", "1.%"}, "Retry-After": {"%", "5;duration=%", "% (c)"},
	}
	for _, s := range hspecs {
		for _, form := range names[s.name] {
			for _, b := range bad {
				for _, f := range []string{"%", "%\t"} {
					v := strings.Replace(form, "%", strings.Replace(f, "%", b, 1), 1)
					ok := false
					switch {
					case s.name == "Retry-After" && b == "1;2": // a parameter called 2
						ok = true
					case s.name == "RAck" && form == "1 % INVITE" && b == "": // rejected as well
					}
					if ok || !c.Mine() {
						continue
					}
					line := s.name + ": " + v
					c.Run(line, func() {
						c.Step(2)
						h, err := parseLine(line + "\n")
						c.Check(err != nil, line, "%q is accepted as %q", line, render(h, nil))
						_, err = parseMsg("SIP/2.0 200 OK\r\n" + line + "\r\n\r\n")
						c.Check(err != nil, line, "%q is accepted in a message", line)
						c.Outcome("rejected")
						c.Trace()
					})
				}
			}
		}
	}
	c.Bound("malformed numbers", "%d", len(bad))
}

// products are the parts of the text of a Server or User-Agent header between
// slashes outside comments, or nil if its comments are not well formed.
func products(s string) (r []string) {
	depth, part := 0, ""
	for i := 0; i < len(s); i++ {
		switch b := s[i]; {
		case b == '\\' && (depth == 0 || i+1 == len(s)):
			return nil
		case b == '\\':
			part += s[i : i+1]
			i++
		case b == '(':
			depth++
		case b == ')':
			if depth--; depth < 0 {
				return nil
			}
		case b == '/' && depth == 0:
			r, part = append(r, part), ""
			continue
		}
		part += s[i : i+1]
	}
	if depth > 0 {
		return nil
	}
	return append(r, part)
}
