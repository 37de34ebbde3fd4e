package props

import (
	"bytes"
	"container/list"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C04", Rule: "leading empty lines x line endings x start lines x header lines x declared lengths x all contents over an alphabet of the bytes that matter to framing, to a length, by both entry points and by a used parser; inputs whose content is too short", Run: c04})
	reg(&P{ID: "C05", Rule: "start lines x sequences of header lines of different kinds, to a length x contents: parsed, read back, encoded in each way, parsed again, against the canonical text", Run: c05})
	reg(&P{ID: "C16", Rule: "every header of the library and unknown ones x values x spellings of the name (case, compact form) x white space and folding around the colon, in and after the value, x line endings, between other headers of a message", Run: c16})
	reg(&P{ID: "C17", Rule: "every header that may repeat x sequences of values to a length x every way to spread them over lines and commas x other headers in between", Run: c17})
	reg(&P{ID: "C28", Rule: "sequences of good and bad header lines and start lines to a length x listeners that ignore or abort on each error", Run: c28})
}

type listElement = list.Element

// msgI is what requests and responses have in common.
type msgI interface {
	message.Message
	EncodeAsBytes() []byte
	HasHeader(n string) bool
	GetHeaderList(n string) header.Lister
	GetMessageContent() string
	HasContent() bool
}

func asMsg(m message.Message) msgI {
	switch m := m.(type) {
	case *message.SIPRequest:
		return m
	case *message.SIPResponse:
		return m
	}
	return nil
}

func parseMsg(text string) (msgI, error) {
	m, err := parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(text))
	if err != nil {
		return nil, err
	}
	if isNil(m) {
		return nil, errors.New("no message")
	}
	return asMsg(m), nil
}

func spec(name string) *hspec {
	for _, s := range hspecs {
		if s.name == name {
			return s
		}
	}
	panic(name)
}

// fits tells whether a form can be a line of any message.
func fits(s *hspec, f form) bool {
	return s.name != "Content-Length" && f.in != ""
}

// spread picks n of the forms, evenly, always with the first.
func spread(n int, fs []form) (r []form) {
	for i := 0; i < n && i < len(fs); i++ {
		r = append(r, fs[i*len(fs)/n%len(fs)])
	}
	return
}

// foldAt breaks the line after its n-th white space character.
func foldAt(s string, n int, eol string) (string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\t' {
			if n == 0 {
				return s[:i+1] + eol + "\t" + s[i+1:], true
			}
			n--
		}
	}
	return s, false
}

func mixed(n string) string {
	b := []byte(strings.ToLower(n))
	for i := 1; i < len(b); i += 2 {
		b[i] = strings.ToUpper(string(b[i : i+1]))[0]
	}
	return string(b)
}

func c16(c *mc.C) {
	n := 0
	total := 0
	for _, s := range hspecs {
		fs := s.forms(c)
		var use []form
		for _, f := range spread(c.Pick(12, 60), fs) {
			if fits(s, f) {
				use = append(use, f)
			}
		}
		if s.name == "Content-Length" {
			use = []form{f1("3"), f1("0"), f1("2")}
		}
		total += len(use)
		names := []string{s.name, strings.ToLower(s.name), strings.ToUpper(s.name), mixed(s.name)}
		for _, a := range s.alts {
			names = append(names, a, strings.ToUpper(a))
		}
		n += len(names)
		for _, f := range use {
			for _, name := range names {
				if s.ext && name != s.name && name != strings.ToLower(s.name) {
					continue
				}
				for _, colon := range []string{":", ": ", " :", "\t:\t ", " \t: \t", ":\n ", ": \r\n\t", " : \n  "} {
					for _, tail := range []string{"", " ", "\t ", " \n ", "\r\n\t"} {
						for fold := -1; fold < 3; fold++ {
							eol := "\n"
							if (len(tail)+fold)%2 == 0 {
								eol = "\r\n"
							}
							v := f.in
							if fold >= 0 {
								var ok bool
								if v, ok = foldAt(f.in, fold, eol); !ok {
									break
								}
							}
							if !c.Mine() {
								continue
							}
							line := name + colon + v + tail
							spelled(c, s, f, name, line, eol)
						}
					}
				}
			}
		}
	}
	c.Bound("headers", "%d with %d spellings of their names and %d values in all", len(hspecs), n, total)
	// names are recognised whole: one character more or less is another header
	for _, s := range hspecs {
		for i := 0; i <= len(s.name); i++ {
			for _, name := range []string{s.name[:i] + "x" + s.name[i:], s.name[:i] + s.name[min(i+1, len(s.name)):], s.name[:i] + "-" + s.name[i:]} {
				known := name == ""
				for _, o := range hspecs {
					known = known || !o.ext && strings.EqualFold(o.name, name)
					for _, a := range o.alts {
						known = known || strings.EqualFold(a, name)
					}
				}
				if known || !c.Mine() {
					continue
				}
				key := "other name " + name
				c.Run(key, func() {
					c.Step(1)
					h, err := parseLine(name + ": any thing, <at> all;\n")
					if c.Check(err == nil, key, "%q is rejected: %v", name, err) {
						for _, e := range elements(h) {
							x, ok := e.(*header.Extension)
							if c.Check(ok, key, "%q is taken for a %T", name, e) {
								c.Eq(key, "name", x.GetName(), name)
								c.Eq(key, "value", x.GetValue(), "any thing, <at> all;")
							}
						}
					}
					c.Trace()
				})
			}
		}
	}
}

// spelled checks that a header line, however it is spelled, is the same
// header in a message.
func spelled(c *mc.C, s *hspec, f form, name, line, eol string) {
	body := ""
	cl := "0"
	if s.name == "Content-Length" {
		cl = f.out
		body = "abc"[:atoi(cl)]
	}
	out := s.name
	if s.ext {
		out = name
	}
	c.Run(line, func() {
		k := kk{c, line}
		c.Step(1)
		m, err := parseMsg("SIP/2.0 200 OK" + eol + "X-Before: 1" + eol + line + eol + "X-After: 2" + eol + eol + body)
		if !c.Check(err == nil, line, "%q is rejected: %v", line, err) {
			return
		}
		want := "SIP/2.0 200 OK\r\nX-Before: 1\r\n" + out + ": " + f.out + "\r\nX-After: 2\r\nContent-Length: 0\r\n\r\n"
		if s.name == "Content-Length" {
			want = "SIP/2.0 200 OK\r\nX-Before: 1\r\nX-After: 2\r\nContent-Length: " + f.out + "\r\n\r\n" + body
		}
		k.eq("encoding", m.String(), want)
		c.State(want)
		c.Step(1)
		alone, err := parser.NewStringMsgParser().ParseSIPHeader(line)
		if c.Check(err == nil && !isNil(alone), line, "%q alone is rejected: %v", line, err) {
			// a fold in a quoted text may come out as one blank or two
			k.eq("alone", strings.ReplaceAll(alone.String(), "  ", " "), strings.ReplaceAll(out+": "+f.out+"\r\n", "  ", " "))
			if alone.String() == out+": "+f.out+"\r\n" {
				for _, f := range f.chks {
					f(k, elements(alone)[0])
				}
			}
		}
		for _, n := range []string{s.name, strings.ToLower(s.name), strings.ToUpper(s.name), mixed(s.name)} {
			k.eq("has "+n, m.HasHeader(n), true)
			h := m.GetHeader(n)
			if isNil(h) {
				k.ok("no "+n, false)
				continue
			}
			k.eq("name", h.GetName(), out)
			k.eq(n, h.String(), out+": "+f.out+"\r\n")
			for _, f := range f.chks {
				f(k, h)
			}
			if l := m.GetHeaders(n); l == nil || l.Len() != 1 {
				k.ok(fmt.Sprintf("headers %s: %v", n, l), false)
			}
		}
		c.Trace()
		if c.CaseNo()%9973 == 0 {
			c.Sample("%q", line)
		}
	})
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func c17(c *mc.C) {
	lists := 0
	for _, s := range hspecs {
		s := s
		auth := strings.HasSuffix(s.name, "-Authenticate") || strings.HasSuffix(s.name, "Authorization")
		if !s.list && !auth && !s.ext {
			continue
		}
		lists++
		var fs []form
		for _, f := range spread(c.Pick(6, 12), s.forms(c)) {
			if f.in != "" {
				fs = append(fs, f)
			}
		}
		depth := c.Pick(3, 4)
		if c.Thorough() && len(fs) > 8 {
			depth = 3
		}
		var rec func(seq []form)
		rec = func(seq []form) {
			if len(seq) > 0 {
				for cut := 0; cut < 1<<uint(len(seq)-1); cut++ {
					if !s.list && cut != 1<<uint(len(seq)-1)-1 {
						continue // one value a line only
					}
					for ws, comma := range []string{",", ", ", " ,\t"} {
						if ws > 0 && cut == 1<<uint(len(seq)-1)-1 {
							break
						}
						if !c.Mine() {
							continue
						}
						repeated(c, s, auth, seq, cut, comma)
					}
				}
			}
			if len(seq) < depth {
				for _, f := range fs {
					rec(append(append([]form{}, seq...), f))
				}
			}
		}
		rec(nil)
		if s.list {
			for _, bad := range []string{",", "V,", ",V", "V,,V", "V, ,V", "V;,V", "V V", "V;"} {
				if !c.Mine() {
					continue
				}
				if s.name == "Allow" && bad == "V;" || s.name == "X" {
					continue
				}
				v := strings.ReplaceAll(bad, "V", fs[0].in)
				key := s.name + ": " + v
				c.Run(key, func() {
					c.Step(1)
					m, err := parseMsg("SIP/2.0 200 OK\n" + key + "\n\n")
					if err == nil {
						h := m.GetHeaders(s.name)
						n := 0
						if h != nil {
							n = h.Len()
						}
						c.Outcome("accepted")
						c.Check(n == strings.Count(bad, "V"), key, "%q is accepted as %d headers: %q", key, n, m.String())
					} else {
						c.Outcome("rejected")
					}
					c.Trace()
				})
			}
		}
	}
	emptyLines(c)
	c.Bound("headers that may repeat", "%d", lists)
	c.Bound("values", "sequences of up to %d, spread over lines and commas in every way", c.Pick(3, 4))
}

// emptyLines explores lines without values, which some headers may have, among
// lines with values.
func emptyLines(c *mc.C) {
	for _, h := range []struct{ n, a, b string }{{"Supported", "x", "y"}, {"Accept", "a/b", "c/d;q=0.5"}, {"Accept-Encoding", "gzip", "*;q=0.5"}, {"Accept-Language", "en", "de;q=0.5"}, {"Allow", "INVITE", "BYE"}} {
		lines := []struct{ in, vals string }{{"", ""}, {h.a, h.a + "|"}, {h.a + ", " + h.b, h.a + "|" + h.b + "|"}, {h.b, h.b + "|"}, {" \t", ""}}
		try := func(seq []int) {
			if !c.Mine() {
				return
			}
			text, vals := "SIP/2.0 200 OK\r\nX-Before: 1\r\n", ""
			for _, i := range seq {
				text += h.n + ":" + lines[i].in + "\r\n"
				vals += lines[i].vals
			}
			text += "X-After: 2\r\n\r\n"
			c.Run(text, func() {
				k := kk{c, text}
				c.Step(1)
				m, err := parseMsg(text)
				if !c.Check(err == nil, text, "%q is rejected: %v", text, err) {
					return
				}
				check := func(what string, m msgI) {
					k.eq(what+"has the header", m.HasHeader(h.n), true)
					got := ""
					for e := m.GetHeaders(h.n).Front(); e != nil; e = e.Next() {
						if b := e.Value.(header.Header).EncodeBody(); b != "" {
							got += b + "|"
						}
					}
					k.eq(what+"values", got, vals)
				}
				check("", m)
				enc := m.String()
				body := strings.ReplaceAll(strings.TrimSuffix(vals, "|"), "|", ",")
				want := "SIP/2.0 200 OK\r\nX-Before: 1\r\n" + h.n + ": " + body + "\r\nX-After: 2\r\nContent-Length: 0\r\n\r\n"
				k.eq("encoding", strings.Replace(enc, h.n+":\r\n", h.n+": \r\n", 1), want)
				c.State(enc)
				c.Step(1)
				m2, err := parseMsg(enc)
				if c.Check(err == nil, text, "encoded as %q, which is rejected: %v", enc, err) {
					check("encoded and parsed again: ", m2)
					k.eq("encoding of the encoding", m2.String(), enc)
				}
				if e, ok := m.(editable); ok {
					e.RemoveHeader(strings.ToLower(h.n))
					k.eq("without the header", m.String(), "SIP/2.0 200 OK\r\nX-Before: 1\r\nX-After: 2\r\nContent-Length: 0\r\n\r\n")
				}
				c.Trace()
			})
		}
		sequences(len(lines), c.Pick(4, 6), func(seq []int) {
			if len(seq) > 0 {
				try(seq)
			}
		})
	}
	c.Bound("lines without values", "all sequences of up to %d lines with none, one and two values", c.Pick(4, 6))
}

func repeated(c *mc.C, s *hspec, auth bool, seq []form, cut int, comma string) {
	text := ""
	names := []string{s.name, strings.ToLower(s.name), strings.ToUpper(s.name)}
	if s.ext {
		names = names[:1]
	} else if len(s.alts) > 0 {
		names = append(names, s.alts[0])
	}
	lines := 0
	for i, f := range seq {
		if i == 0 || cut>>uint(i-1)&1 != 0 {
			if i > 0 {
				text += "\r\n"
				if lines%2 == 1 {
					text += fmt.Sprintf("X-%d: b\r\n", lines)
				}
			}
			text += names[(lines+len(seq))%len(names)] + ": " + f.in
			lines++
		} else {
			text += comma + f.in
		}
	}
	key := text
	c.Run(key, func() {
		k := kk{c, key}
		c.Step(1)
		m, err := parseMsg("SIP/2.0 200 OK\r\nX-Before: 1\r\n" + text + "\r\n\r\n")
		if !c.Check(err == nil, key, "%q is rejected: %v", text, err) {
			return
		}
		check := func(what string, m msgI) {
			l := m.GetHeaders(s.name)
			if l == nil || l.Len() != len(seq) {
				k.ok(fmt.Sprintf("%s%d values, not %d: %s", what, l.Len(), len(seq), m.String()), false)
				return
			}
			i := 0
			for e := l.Front(); e != nil; e = e.Next() {
				h, ok := e.Value.(header.Header)
				if !ok {
					k.ok(fmt.Sprintf("%svalue %d is a %T", what, i, e.Value), false)
					return
				}
				k.eq(what+"value "+strconv.Itoa(i), h.String(), s.name+": "+seq[i].out+"\r\n")
				for _, f := range seq[i].chks {
					f(k, h)
				}
				i++
			}
			if h := m.GetHeader(s.name); !isNil(h) {
				k.eq(what+"first value", h.String(), s.name+": "+seq[0].out+"\r\n")
			} else {
				k.ok(what+"no first value", false)
			}
			all := ""
			for i, f := range seq {
				switch {
				case i == 0:
					all = s.name + ": " + f.out
				case s.list:
					all += "," + f.out
				default:
					all += "\r\n" + s.name + ": " + f.out
				}
			}
			k.ok(fmt.Sprintf("%sencoded as %q, without %q", what, m.String(), all), strings.Contains(m.String(), "\r\n"+all+"\r\n"))
		}
		check("", m)
		c.State(m.String())
		c.Step(1)
		m2, err := parseMsg(m.String())
		if c.Check(err == nil, key, "encoded as %q, which is rejected: %v", m.String(), err) {
			check("encoded and parsed again: ", m2)
			k.eq("encoding of the encoding", m2.String(), m.String())
		}
		c.Trace()
		if c.CaseNo()%9973 == 0 {
			c.Sample("%q", text)
		}
	})
}

func c04(c *mc.C) {
	alphabet := []string{"a", "\r", "\n", "\x00", "\xff", " ", ":", "\r\n\r\n", "\n\n", "\xc3\xa9", "Via: x\r\n"}
	bodies := append([]string{""}, words(alphabet, c.Pick(3, 5))...)
	bodies = append(bodies, strings.Repeat("x\r\n", 400), "v=0\r\no=a 1 1 IN IP4 h\r\ns=-\r\n")
	c.Bound("contents", "%d: all of up to %d symbols of %d, and long ones", len(bodies), c.Pick(3, 5), len(alphabet))
	leads := []string{"", "\r\n", "\n", "\r\n\r\n", "\n\r\n\n"}
	eols := []string{"\r\n", "\n"}
	for i, b := range bodies {
		for d := -1; d <= 3; d++ { // how the declared length differs from the content's
			n := len(b) - d
			if n < 0 {
				continue
			}
			for _, lead := range leads {
				for _, eol := range eols {
					for _, end := range eols {
						if d > 0 && lead != leads[(i+d)%len(leads)] || i > 200 && lead != leads[i%len(leads)] {
							continue
						}
						if n == 0 && d == 0 && i > 0 {
							continue
						}
						if !c.Mine() {
							continue
						}
						start := []string{"INVITE sip:a@h SIP/2.0", "SIP/2.0 180 Ringing"}[i%2]
						cl := []string{"Content-Length: ", "l:", "CONTENT-LENGTH :  "}[i%3]
						hs := []string{cl + strconv.Itoa(n), "Via: SIP/2.0/UDP h;branch=z9hG4bK1", "Subject: a" + eol + "  b"}
						if i%5 == 1 {
							hs[0], hs[2] = hs[2], hs[0]
						}
						text := lead + start + eol + strings.Join(hs, eol) + eol + end + b
						framed(c, text, start, b, n, d < 0)
					}
				}
			}
		}
	}
	// without a declared length, there is no content
	for i, end := range []string{"", "\r\n", "\n", "\r\n\r\n", "\n\n", "\r\n\n", "\n\r\n", "\r\n\r\nabc", "\n\nabc", "\n \n", "\r\n \r\n\t\r\n", "\n\t \n"} {
		for _, eol := range eols {
			for _, start := range []string{"INVITE sip:a@h SIP/2.0", "SIP/2.0 180 Ringing"} {
				if !c.Mine() {
					continue
				}
				i := i
				framed(c, start+eol+"Via: SIP/2.0/UDP h;branch=z9hG4bK1"+eol+"Subject: a"+eol+"  b"+end, start, "", 0, false)
				_ = i
			}
		}
	}
	for _, in := range []string{"", "\n", "\r\n", "\r\n\r\n", "\n\n\n", "\r\r\n"} {
		if !c.Mine() {
			continue
		}
		key := "nothing " + in
		c.Run(key, func() {
			c.Step(2)
			m, err := parser.NewStringMsgParser().ParseSIPMessage(in)
			c.Check(isNil(m) && err == nil, key, "%q gives %v, %v", in, m, err)
			m, err = parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(in))
			c.Check(isNil(m) && err == nil, key, "%q gives %v, %v", in, m, err)
			c.Trace()
		})
	}
	// only empty lines may stand before a message
	for _, lead := range []string{" ", "\t", "\x00", "\r\n ", "\n\t", "\r\n\x00", "\xef\xbb\xbf"} {
		for _, start := range []string{"INVITE sip:a@h SIP/2.0", "SIP/2.0 180 Ringing"} {
			if !c.Mine() {
				continue
			}
			in := lead + start + "\r\nVia: SIP/2.0/UDP h\r\n\r\n"
			c.Run(in, func() {
				c.Step(2)
				m, err := parser.NewStringMsgParser().ParseSIPMessage(in)
				c.Check(isNil(m) && err != nil, in, "%q is accepted", in)
				m, err = parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(in))
				c.Check(isNil(m) && err != nil, in, "%q is accepted", in)
				c.Outcome("rejected")
				c.Trace()
			})
		}
	}
	// a parser that was used before, for anything
	texts := []string{
		"INVITE sip:a@h SIP/2.0\r\nl: 3\r\nCSeq: 1 INVITE\r\n\r\nabc",
		"SIP/2.0 200 OK\nSubject: x\nl: 1\n\n\n",
		"\r\n\r\nBYE sip:a SIP/2.0\r\nVia: SIP/2.0/UDP h\r\nVia: SIP/2.0/UDP i\r\n\r\n",
		"\r\n", "", "bad", "INVITE sip:a@h SIP/2.0\r\nVia: !\r\n\r\n", "INVITE sip:a@h SIP/2.0\r\nl: 9\r\n\r\nabc", "BYE sip:a SIP/2.0\nCSeq: 1 ACK\n\n", "ACK sip:a SIP/2.0\r\n\r\n", "SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP h\r\n\r\n",
	}
	depth := c.Pick(3, 4)
	c.Bound("uses of one parser", "all sequences of up to %d of %d inputs", depth, len(texts))
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) > 0 && c.Mine() {
			key := fmt.Sprintf("used parser %v", seq)
			c.Run(key, func() {
				p := parser.NewStringMsgParser()
				for _, i := range seq {
					c.Step(1)
					want, werr := parser.NewStringMsgParser().ParseSIPMessage(texts[i])
					got, err := p.ParseSIPMessage(texts[i])
					c.Eq(key, "after use", render(got, err), render(want, werr))
				}
				c.Trace()
			})
		}
		if len(seq) < depth {
			for i := range texts {
				rec(append(append([]int{}, seq...), i))
			}
		}
	}
	rec(nil)
}

func framed(c *mc.C, text, start, b string, n int, short bool) {
	key := text
	c.Run(key, func() {
		k := kk{c, key}
		raw := []byte(text)
		for way := 0; way < 2; way++ {
			c.Step(1)
			var m message.Message
			var err error
			p := parser.NewStringMsgParser()
			if way == 0 {
				m, err = p.ParseSIPMessage(text)
			} else {
				m, err = p.ParseSIPMessageFromByte(raw)
			}
			if short {
				c.Check(err != nil && isNil(m), key, "%q is accepted, though its content is shorter than it says", text)
				c.Outcome("rejected")
				continue
			}
			if !c.Check(err == nil && !isNil(m), key, "%q is rejected: %v", text, err) {
				continue
			}
			c.Outcome("accepted")
			want := b[:n]
			x := asMsg(m)
			for i := range raw { // the message does not live in the caller's buffer
				if way == 1 {
					raw[i] = '#'
				}
			}
			k.eq("content", x.GetContent(), want)
			k.eq("message content", x.GetMessageContent(), want)
			k.eq("has content", x.HasContent(), n > 0)
			if cl := x.GetContentLength(); isNil(cl) {
				k.ok("no content length", false)
			} else {
				k.eq("content length", cl.GetContentLength(), n)
			}
			if h, ok := x.GetHeader("Subject").(*header.Subject); ok {
				k.eq("subject", h.GetSubject(), "a b")
			} else {
				k.ok("no subject", false)
			}
			if h, ok := x.GetHeader("Via").(*header.Via); ok {
				k.eq("branch", h.GetBranch(), "z9hG4bK1")
			} else {
				k.ok("no via", false)
			}
			k.eq("number of kinds of headers", x.GetHeaderNames().Len(), 3)
			k.ok("start line: "+x.String(), strings.HasPrefix(x.String(), start+"\r\n"))
			enc := x.EncodeAsBytes()
			k.ok(fmt.Sprintf("encoded as %q, which does not end with the content", enc), bytes.HasSuffix(enc, []byte("\r\n\r\n"+want)))
			c.Step(1)
			m2, err := parseMsg(string(enc))
			if c.Check(err == nil, key, "encoded as %q, which is rejected: %v", enc, err) {
				k.eq("content of the encoding", m2.GetContent(), want)
			}
			c.State(string(enc))
		}
		c.Trace()
		if c.CaseNo()%9973 == 0 {
			c.Sample("%q", text)
		}
	})
}

func c05(c *mc.C) {
	starts := []string{"INVITE sip:a@h SIP/2.0", "SIP/2.0 200 OK", "FOO tel:+1 SIP/2.0", "SIP/2.0 480 "}
	bodies := []string{"", "v=0\r\n", "\x00\xff\n\n"}
	type line struct {
		s *hspec
		f form
	}
	var lines []line
	for _, s := range hspecs {
		if s.name == "CSeq" || s.name == "Content-Length" {
			continue
		}
		for _, f := range spread(c.Pick(1, 4), s.forms(c)) {
			if fits(s, f) {
				lines = append(lines, line{s, f})
			}
		}
	}
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	c.Bound("header lines", "all sequences of up to %d of %d, of different kinds, and all of them together", depth, len(lines))
	one := func(seq []line, start, body string) {
		text := start + "\r\n"
		want := start + "\r\n"
		var encs []string
		clAt := len(seq) % 3
		for i, l := range seq {
			if i == clAt && body != "" {
				text += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
			}
			text += l.s.name + ": " + l.f.in + "\r\n"
			want += l.s.name + ": " + l.f.out + "\r\n"
			encs = append(encs, l.s.name+": "+l.f.out+"\r\n")
		}
		if clAt >= len(seq) && body != "" {
			text += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
		}
		text += "\r\n" + body
		want += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
		key := text
		c.Run(key, func() {
			k := kk{c, key}
			c.Step(1)
			m, err := parseMsg(text)
			if !c.Check(err == nil, key, "%q is rejected: %v", text, err) {
				return
			}
			k.eq("encoding", m.String(), want)
			k.eq("encoding as bytes", string(m.EncodeAsBytes()), want)
			k.eq("content", m.GetContent(), body)
			var ss []string
			for e := asStrings(m).Front(); e != nil; e = e.Next() {
				s, _ := e.Value.(string)
				ss = append(ss, s)
			}
			// the start line and every header, each once
			if len(ss) != len(encs)+2 {
				k.ok(fmt.Sprintf("encoded strings: %q", ss), false)
			} else {
				k.eq("first encoded string", ss[0], start+"\r\n")
				rest := strings.Join(ss[1:], "")
				k.eq("encoded strings", strings.Replace(rest, fmt.Sprintf("Content-Length: %d\r\n", len(body)), "", 1), strings.Join(encs, ""))
			}
			for _, l := range seq {
				h := m.GetHeader(l.s.name)
				if isNil(h) {
					k.ok("no "+l.s.name, false)
					continue
				}
				k.eq(l.s.name, h.String(), l.s.name+": "+l.f.out+"\r\n")
				for _, f := range l.f.chks {
					f(k, h)
				}
			}
			c.State(want)
			c.Step(1)
			m2, err := parseMsg(m.String())
			if c.Check(err == nil, key, "encoded as %q, which is rejected: %v", m.String(), err) {
				k.eq("encoding of the encoding", m2.String(), want)
			}
			c.Trace()
			if c.CaseNo()%9973 == 0 {
				c.Sample("%q", text)
			}
		})
	}
	n := 0
	var rec func(seq []line)
	rec = func(seq []line) {
		n++
		for i, s := range starts {
			for j, b := range bodies {
				if len(seq) > 1 && (i != n%4 || j != n/4%3) {
					continue
				}
				if c.Mine() {
					one(seq, s, b)
				}
			}
		}
		if len(seq) < depth {
			for _, l := range lines {
				dup := false
				for _, o := range seq {
					dup = dup || o.s == l.s
				}
				if !dup {
					rec(append(append([]line{}, seq...), l))
				}
			}
		}
	}
	rec(nil)
	// every header at once, in rotated order
	for r := 0; r < len(lines); r++ {
		var seq []line
		seen := map[*hspec]bool{}
		for i := range lines {
			l := lines[(i*7+r)%len(lines)]
			if !seen[l.s] {
				seen[l.s] = true
				seq = append(seq, l)
			}
		}
		if c.Mine() {
			one(seq, starts[r%4], bodies[r%3])
		}
	}
}

func asStrings(m msgI) interface {
	Front() *listElement
} {
	switch m := m.(type) {
	case *message.SIPRequest:
		return m.GetMessageAsEncodedStrings()
	case *message.SIPResponse:
		return m.GetMessageAsEncodedStrings()
	}
	return nil
}

// watcher is a ParseExceptionListener that notes what it is told of and
// aborts on the texts it is told to.
type watcher struct {
	seen  []string
	abort map[string]bool
}

func (w *watcher) HandleException(err error, m message.Message, headerText, messageText string) error {
	if err == nil {
		headerText = "no error: " + headerText
	}
	if isNil(m) {
		headerText = "no message: " + headerText
	}
	w.seen = append(w.seen, strings.TrimSuffix(headerText, "\n"))
	headerText = strings.TrimSuffix(headerText, "\n")
	if w.abort[headerText] {
		return errors.New("abort " + headerText)
	}
	return nil
}

func c28(c *mc.C) {
	type ln struct {
		text string
		bad  bool
		out  string
	}
	all := []ln{
		{"Subject: s", false, "Subject: s\r\n"},
		{"Max-Forwards: 7", false, "Max-Forwards: 7\r\n"},
		{"Via: SIP/2.0/UDP h", false, "Via: SIP/2.0/UDP h\r\n"},
		{"X-E: (", false, "X-E: (\r\n"},
		{"Via: !", true, ""},
		{"From: <sip:", true, ""},
		{"nocolon", true, ""},
		{"Max-Forwards: x  ", true, ""},
		{"Empty:", false, "Empty: \r\n"},
		{"Content-Length: -1", true, ""},
		{"CSeq: 1 OPTIONS", false, "CSeq: 1 OPTIONS\r\n"},
	}
	starts := []ln{{"OPTIONS sip:h SIP/2.0", false, "OPTIONS sip:h SIP/2.0\r\n"}, {"SIP/2.0 200 OK", false, "SIP/2.0 200 OK\r\n"}, {"OPTIONS", true, ""}, {"SIP/2.0 x", true, ""}}
	depth := c.Pick(4, 5)
	c.Bound("lines", "all sequences of up to %d of %d different ones, after %d start lines", depth, len(all), len(starts))
	var rec func(seq []int)
	rec = func(seq []int) {
		for _, st := range starts {
			for ab := -1; ab <= len(seq); ab++ { // the line whose error aborts, if any
				l := st
				if ab > 0 {
					l = all[seq[ab-1]]
				}
				if ab >= 0 && !l.bad {
					continue
				}
				if !c.Mine() {
					continue
				}
				text := st.text + "\r\n"
				var want []string
				out := st.out
				if st.bad {
					want = append(want, st.text)
				}
				stop := ab == 0
				for i, n := range seq {
					text += all[n].text + "\r\n"
					if stop {
						continue
					}
					if all[n].bad {
						want = append(want, all[n].text)
					}
					out += all[n].out
					stop = ab == i+1
				}
				st := st
				key := fmt.Sprintf("abort %d: %s", ab, text)
				c.Run(key, func() {
					k := kk{c, key}
					w := &watcher{abort: map[string]bool{}}
					if ab >= 0 {
						w.abort[l.text] = true
					}
					p := parser.NewStringMsgParser()
					p.SetParseExceptionListener(w)
					c.Step(1)
					m, err := p.ParseSIPMessage(text + "\r\n")
					k.eq("errors the listener was told of", strings.Join(w.seen, "|"), strings.Join(want, "|"))
					if ab >= 0 {
						c.Check(err != nil && err.Error() == "abort "+l.text && isNil(m), key, "the listener's error is not reported: %v", err)
						c.Outcome("aborted")
					} else if c.Check(err == nil && !isNil(m), key, "rejected though the listener ignored the errors: %v", err) {
						k.eq("what is left", m.String(), out+"Content-Length: 0\r\n\r\n")
						c.State(m.String())
						c.Outcome("accepted")
					}
					// without a listener, the first error aborts
					c.Step(1)
					m, err = parser.NewStringMsgParser().ParseSIPMessage(text + "\r\n")
					any := st.bad
					for _, n := range seq {
						any = any || all[n].bad
					}
					c.Check((err != nil) == any && isNil(m) == any, key, "without a listener: %v, %v", render(m, nil), err)
					c.Trace()
				})
			}
		}
		if len(seq) < depth {
			for i := range all {
				dup := false
				for _, n := range seq {
					dup = dup || n == i
				}
				if !dup {
					rec(append(append([]int{}, seq...), i))
				}
			}
		}
	}
	rec(nil)
}
