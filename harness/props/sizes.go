package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/rtp"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

// Families of inputs and histories that grow: one case for every size of a
// grid that has all small sizes and everything around the powers of two and
// the round numbers, where limits and buffers tend to be.

// grown is a family that belongs to a property.
type grown struct {
	prop, name string
	sizes      []int
	do         func(k kk, n int)
}

// lengths are numbers of characters.
func lengths(c *mc.C) []int { return grid(c.Pick(140, 1100), 10001, true) }

// counts are numbers of things.
func counts(c *mc.C) []int { return grid(c.Pick(40, 130), c.Pick(1000, 3000), false) }

// bulks are numbers of bytes of what may be large.
func bulks(c *mc.C) []int {
	return append(grid(c.Pick(140, 1600), 10001, true), 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100001, 131072)
}

func grid(all, most int, fine bool) (r []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n > 0 && n <= most && !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	for n := 1; n <= all; n++ {
		add(n)
	}
	for p := 16; p <= most; p *= 2 {
		add(p - 1)
		add(p)
		add(p + 1)
	}
	for _, n := range []int{50, 99, 100, 101, 200, 255, 300, 500, 999, 1000, 1001, 1400, 1499, 1500, 1501, 2000, 3000, 5000, 9999, 10000, 10001} {
		if fine || n <= 300 || n == 1000 || n == 3000 {
			add(n)
		}
	}
	return
}

// Sizes explores the families of the running property.
func Sizes(c *mc.C) {
	old := mc.Fuel
	defer func() { mc.Fuel = old }()
	for _, g := range growing(c) {
		if g.prop != c.Prop {
			continue
		}
		g := g
		last := 0
		for _, n := range g.sizes {
			if n > last {
				last = n
			}
			if !c.Mine() {
				continue
			}
			n := n
			key := fmt.Sprintf("%s, size %d", g.name, n)
			mc.Fuel = 20000000 + int64(n)*100000
			c.Run(key, func() {
				c.Step(1)
				g.do(kk{c, key}, n)
				c.State(key)
				c.Trace()
			})
		}
		c.Bound("growing: "+g.name, "%d sizes up to %d", len(g.sizes), last)
	}
}

const alnum = "a0Bc1DeF2gHi3JkL4mNo5PqR6sTu7VwX8yZ9"

// cyc is a text of n letters and digits, with characters of mid in between,
// in which no two places look alike for long.
func cyc(n int, mid string) string { return cycOf(n, alnum, mid) }

func cycOf(n int, chars, mid string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[(i+i/len(chars)*7)%len(chars)]
		if mid != "" && i%5 == 3 && i < n-1 {
			b[i] = mid[(i/5)%len(mid)]
		}
	}
	return string(b)
}

// near gives texts of n characters that are alike but not the same: ends and
// beginnings differ, or two letters that common sums do not tell apart.
func near(n int, chars, mid string) []string {
	v := cycOf(n, chars, mid)
	swap := func(i int) string {
		b := []byte(v)
		for _, x := range []byte(chars) {
			if x != b[i] && (i > 0 || x != '0') {
				b[i] = x
				break
			}
		}
		return string(b)
	}
	r := []string{v, swap(n - 1), swap(0), swap(n / 2)}
	if n > 2 && strings.Contains(chars, "B") && strings.Contains(chars, "a") {
		r = append(r, v[:n-2]+"Aa", v[:n-2]+"BB", v[:n-2]+"ab", v[:n-2]+"ba")
	}
	return append(r, v)
}

// chars gives the letters and digits of a place and its other characters.
func (p *place) chars() (letters, others string, ok bool) {
	for b := 33; b < 127; b++ {
		in, known := p.class(byte(b))
		if !in || !known || p.esc && b == '%' || b == '"' || b == '\\' {
			continue
		}
		if isAlpha(byte(b)) || isDigit(byte(b)) {
			letters += string([]byte{byte(b)})
		} else {
			others += string([]byte{byte(b)})
		}
	}
	if letters == "0123456789" {
		return "1234567890", others, others != "" // not a number, but a text of digits
	}
	if strings.Contains(letters, "B") && strings.Contains(letters, "a") {
		letters = alnum
	} else if letters != "" && letters[0] == '0' {
		letters = letters[10:] + letters[:10]
	}
	return letters, others, letters != "" && p.name != "IPv6 address"
}

// owner is the property a place belongs to.
func (p *place) owner() string {
	switch p.name {
	case "user", "password", "URI parameter name", "URI parameter value", "URI header name", "URI header value":
		return "C13"
	case "global number", "local number", "tel parameter name", "tel parameter value", "scheme", "text of any URI":
		return "C15"
	case "host", "host alone", "host before its port":
		return "C29"
	case "method of a request line", "reason phrase":
		return "C12"
	case "header name":
		return "C11"
	}
	n := p.name[:strings.Index(p.name, ":")]
	for _, s := range hspecs {
		if s.name == n {
			return s.group
		}
	}
	return "C11"
}

func growing(c *mc.C) (gs []grown) {
	add := func(prop, name string, sizes []int, do func(k kk, n int)) {
		if prop == c.Prop {
			gs = append(gs, grown{prop, name, sizes, do})
		}
	}
	ls, ns, bs := lengths(c), counts(c), bulks(c)

	// long parts
	for _, p := range places() {
		p := p
		letters, others, ok := p.chars()
		if !ok {
			continue
		}
		read := func(k kk, n int) {
			vs := near(n, letters, others)
			vs = append(vs, strings.Repeat(letters[:1], n), strings.Repeat(letters[len(letters)-1:], n))
			if p.esc && n > 2 {
				vs = append(vs, strings.Repeat("%4a%2F", n/6)+"%41")
			}
			for i, v := range vs {
				got, ok := p.read(p.in(v))
				if !ok || got != v {
					k.ok(fmt.Sprintf("%s: text %d of %d characters is read as %q", p.name, i, n, got), false)
				}
			}
			k.ok("", true)
		}
		add("C49", p.name, ls, read)
		own := p.owner()
		add(own, p.name, ls, func(k kk, n int) {
			read(k, n)
			if !strings.Contains(p.name, ": ") {
				return
			}
			for _, v := range near(n, letters, others) {
				h, err := parseLine(p.in(v) + "\n")
				if !k.ok(fmt.Sprintf("%s: rejected: %v", p.name, err), err == nil) {
					continue
				}
				enc := h.String()
				if !strings.Contains(strings.ToLower(enc), strings.ToLower(v)) {
					k.ok(fmt.Sprintf("%s: %d characters are encoded as %q", p.name, n, enc), false)
				}
				h2, err := parseLine(strings.TrimSuffix(enc, "\r\n") + "\n")
				if k.ok(fmt.Sprintf("%s: encoded as %q, which is rejected: %v", p.name, enc, err), err == nil) && h2.String() != enc {
					k.ok(fmt.Sprintf("%s: encoded as %q and then as %q", p.name, enc, h2.String()), false)
				}
			}
		})
	}
	wordFamilies(c, add)
	growLexer(c, add)
	growURIs(c, add, ns)
	growHeaders(c, add, ls, ns)
	growMessages(c, add, ls, ns, bs)
	growDerived(c, add, ls, ns)
	growRTP(c, add, ls, ns, bs)
	return
}

type adder func(prop, name string, sizes []int, do func(k kk, n int))

// growLexer: long texts before the scanner and the steps of the URI parser.
func growLexer(c *mc.C, add adder) {
	if c.Prop != "C30" && c.Prop != "C03" {
		return
	}
	ls := lengths(c)
	texts := []struct {
		name string
		f    func(n int) string
	}{
		{"a token", func(n int) string { return cyc(n, tokenChars) + " ;x=\"q\"\nrest" }},
		{"a quoted text", func(n int) string { return "\"" + strings.Repeat(`\"`, n/7) + cyc(n, " ();,") + "\"; rest\n" }},
		{"an unfinished quoted text", func(n int) string { return "\"" + cyc(n, " ();,") }},
		{"a comment", func(n int) string { return "(" + cyc(n, " \";,") + strings.Repeat(`\)`, n/7) + ") rest\n" }},
		{"bytes", func(n int) string { return cyc(n, "=\xe9 \t<\x00") + ";,\nrest" }},
		{"blanks", func(n int) string { return strings.Repeat(" \t", n/2) + " a\n" }},
		{"letters and blanks", func(n int) string { return "a" + cyc(n, " \t") + "\";" }},
		{"lines", func(n int) string { return strings.Repeat("a;\n", n/2) + "\n\n" + cyc(n, "=") + "\nrest" }},
		{"user and host", func(n int) string { return cyc(n, "&=+$,;?/%") + "@h" }},
		{"URI characters", func(n int) string { return cyc(n, marksAnd) + "%2b\"" }},
		{"escapes", func(n int) string { return strings.Repeat("%4a%fF", n/6) + "%4a;" }},
		{"separators", func(n int) string { return strings.Repeat(";", n) + "a" }},
	}
	for _, t := range texts {
		t := t
		if c.Prop == "C30" {
			ps := prims()
			add("C30", t.name, ls, func(k kk, n int) {
				s := t.f(n)
				for _, p := range ps {
					for _, pos := range []int{0, len(s) / 2} {
						if d := while(s[pos:], isDigit); d.n > 15 && p.name == "Number" {
							continue
						}
						l := newLexer(s)
						l.ConsumeK(pos)
						p.stepLong(k, l, s, pos)
					}
				}
				lines := core.NewStringTokenizer(s).GetLines()
				want := strings.SplitAfter(s, "\n")
				if want[len(want)-1] == "" {
					want = want[:len(want)-1]
				}
				k.eq("number of lines", len(lines), len(want))
				for i := range lines {
					if i < len(want) && lines[i] != want[i] {
						k.eq("line "+strconv.Itoa(i), lines[i], want[i])
					}
				}
			})
		} else {
			ps := usteps()
			add("C03", t.name, ls, func(k kk, n int) {
				s := t.f(n)
				for _, p := range ps {
					for _, pos := range []int{0, len(s) / 2} {
						u := parser.NewURLParser(s)
						u.GetLexer().ConsumeK(pos)
						r := p.ref(s[pos:])
						v, err := p.do(u)
						what := fmt.Sprintf("%s at %d of %d", p.name, pos, len(s))
						if r.bad {
							k.ok(what+": no error", err != nil)
						} else {
							k.ok(fmt.Sprintf("%s: %v", what, err), err == nil)
							if v != r.val {
								k.ok(fmt.Sprintf("%s: %d characters, not %d: %q", what, len(v), len(r.val), v), false)
							}
						}
						if r.n >= 0 {
							k.eq("position after "+what, u.GetLexer().GetPtr(), pos+r.n)
						}
					}
				}
			})
		}
	}
	if c.Prop == "C30" {
		ps := prims()
		var ns []int
		for n := 1; n <= 18; n++ {
			ns = append(ns, n)
		}
		add("C30", "digits", ns, func(k kk, n int) {
			for _, s := range []string{cycOf(n, "1234567890", "") + ".", strings.Repeat("9", n), strings.Repeat("0", n-1) + "7;", "2147483647"[:min(n, 10)], "9223372036854775807"[:n] + " "} {
				for _, p := range ps {
					p.stepLong(k, newLexer(s), s, 0)
				}
			}
		})
	}
}

const marksAnd = "-_.!~*'();/?:@&=+$,"

func (p prim) stepLong(k kk, l *core.CoreLexer, s string, pos int) {
	r := p.ref(s[pos:])
	v, err := p.do(l)
	what := fmt.Sprintf("%s at %d of %d", p.name, pos, len(s))
	if r.bad {
		k.ok(what+": no error", err != nil)
	} else {
		k.ok(fmt.Sprintf("%s: %v", what, err), err == nil)
		if v != r.val {
			k.ok(fmt.Sprintf("%s: %d characters, not %d: %q", what, len(v), len(r.val), v), false)
		}
	}
	if r.n >= 0 {
		k.eq("position after "+what, l.GetPtr(), pos+r.n)
	}
}

// growURIs: many parameters, headers and labels.
func growURIs(c *mc.C, add adder, ns []int) {
	model := func(n int) *sipURI {
		m := &sipURI{scheme: "sip", user: "u", hasUser: true, host: "h", port: 5060}
		for i := 0; i < n; i++ {
			m.params = append(m.params, nv{fmt.Sprintf("p%d", i), cyc(1+i%40, "-."), true})
			m.hdrs = append(m.hdrs, nv{fmt.Sprintf("q%d", i), cyc(1+i%30, "-."), true})
		}
		return m
	}
	add("C13", "parameters and headers of a URI", ns, func(k kk, n int) {
		m := model(n)
		u, err := parser.NewStringMsgParser().ParseSIPUrl(m.text())
		if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil && u != nil) {
			return
		}
		m.check(k, u)
		u2, err := parser.NewStringMsgParser().ParseSIPUrl(u.String())
		if k.ok(fmt.Sprintf("encoded as %q, which is rejected: %v", u.String(), err), err == nil && u2 != nil) {
			m.check(k, u2)
		}
	})
	add("C14", "parameters and headers set on a URI", ns, func(k kk, n int) {
		m := model(n)
		u, err := parser.NewStringMsgParser().ParseSIPUrl(m.head())
		if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil && u != nil) {
			return
		}
		for i := range m.params {
			u.SetParameter(m.params[i].n, m.params[i].v)
			u.SetQHeader(core.NewNameValue(m.hdrs[i].n, m.hdrs[i].v))
		}
		m.check(k, u)
		for i := 0; i < n; i += 1 + i%3 {
			p := m.params[len(m.params)/2]
			u.RemoveParameter(strings.ToUpper(p.n))
			m.params = drop(m.params, p.n)
		}
		m.check(k, u)
		cl := u.Clone().(*address.SipURIImpl)
		cl.ClearUriParms()
		m.check(k, u)
		m.params = nil
		m.check(k, cl)
	})
	add("C15", "parameters of a tel URL", ns, func(k kk, n int) {
		m := &telURL{global: true, num: "12"}
		for i := 0; i < n; i++ {
			m.params = append(m.params, nv{fmt.Sprintf("p%d", i), cyc(1+i%40, "-."), true})
		}
		u, err := parser.NewURLParser("tel:" + m.text()).Parse()
		t, ok := u.(*address.TelURLImpl)
		if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil && ok && t != nil) {
			return
		}
		m.check(k, t)
		for _, p := range m.params {
			if got := t.GetParameter(p.n); got != p.v {
				k.eq("parameter "+p.n, got, p.v)
			}
		}
	})
	add("C29", "labels of a host name", ns, func(k kk, n int) {
		for _, v := range []string{strings.TrimSuffix(strings.Repeat("a.", n), "."), "x" + strings.Repeat("-b", n) + ".c", strings.Repeat("0a.", n) + "z"} {
			hp, err := parser.NewStringMsgParser().ParseHostPort(v + ":65535")
			if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil && hp != nil) {
				continue
			}
			h := hp.GetHost()
			k.ok(fmt.Sprintf("read as %q", hp.String()), hp.String() == v+":65535" && hp.GetPort() == 65535)
			k.ok(fmt.Sprintf("name %q", h.GetHostName()), h.GetHostName() == v && h.String() == v && h.IsHostName() && !h.IsIPAddress())
			for _, v2 := range []string{v + "a", v[:len(v)-1] + "y"} {
				h2 := core.NewHost(v2)
				k.ok(fmt.Sprintf("another name: %q", h2.GetHostName()), h2.GetHostName() == v2 && h.GetHostName() == v)
			}
		}
	})
}

// growHeaders: many parameters and many values.
func growHeaders(c *mc.C, add adder, ls, ns []int) {
	for _, ph := range paramHeaders {
		ph := ph
		line := func(n int) (string, pairs) {
			var m pairs
			for i := 0; i < n; i++ {
				p := pair{fmt.Sprintf("p%d", i), cyc(1+i%40, "-."), i%3 == 2}
				if p.quoted { // a token is not quoted everywhere
					p.v = cyc(1+i%40, " ;,") + " x"
				}
				m = append(m, p)
			}
			return ph.name + ": " + ph.val + ph.first + m.join(ph.sep), m
		}
		see := func(k kk, what string, h header.Header, m pairs) {
			hp, ok := h.(paramHeader)
			if !k.ok(fmt.Sprintf("%s%T has no parameters", what, h), ok) {
				return
			}
			for _, p := range m {
				if got := unq(hp.GetParameter(p.n)); got != p.v.(string) || !hp.HasParameter(strings.ToUpper(p.n)) {
					k.eq(what+"parameter "+p.n, got, p.v)
				}
			}
			k.eq(what+"names", strings.ToLower(names(hp.GetParameterNames())), m.names())
		}
		own := spec(ph.name).group
		add(own, "parameters of "+ph.name, ns, func(k kk, n int) {
			text, m := line(n)
			h, err := parseLine(text + "\n")
			if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				return
			}
			see(k, "", elements(h)[0], m)
			k.ok(fmt.Sprintf("encoded as %q", h.String()), h.String() == text+"\r\n")
		})
		add("C25", "parameters set on "+ph.name, ns, func(k kk, n int) {
			text, m := line(n)
			start, _ := line(1)
			h, err := parseLine(start + "\n")
			if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				return
			}
			hp, ok := elements(h)[0].(paramHeader)
			if !k.ok("no parameters", ok) {
				return
			}
			for _, p := range m {
				if p.quoted {
					hp.SetQuotedParameter(p.n, p.v.(string))
				} else {
					hp.SetParameter(p.n, p.v.(string))
				}
			}
			see(k, "", hp, m)
			k.ok(fmt.Sprintf("encoded as %q", hp.String()), hp.String() == text+"\r\n")
			for i := 0; i < n; i += 2 {
				hp.RemoveParameter(m[len(m)/2].n)
				m = m.without(m[len(m)/2].n)
			}
			see(k, "after removing half: ", hp, m)
			for i := range m {
				hp.SetParameter(m[i].n, "again")
				m[i].v = "again"
			}
			see(k, "set again: ", hp, m)
		})
	}
	add("C25", "a list of pairs", ns, func(k kk, n int) {
		l := core.NewNameValueList("l")
		var m pairs
		for i := 0; i < n; i++ {
			p := pair{fmt.Sprintf("n%d", i), cyc(1+i%50, " ;"), i%2 == 0}
			l.AddNameValue(p.nv())
			m = append(m, p)
		}
		m.check(k, "", l, ";")
		for _, p := range m {
			if nv := l.GetNameValue(strings.ToUpper(p.n)); nv == nil || nv.String() != p.String() {
				k.ok(fmt.Sprintf("pair %s is %v", p.n, nv), false)
			}
		}
		cl := l.Clone().(*core.NameValueList)
		m.check(k, "clone: ", cl, ";")
		for i := 0; i < n/2; i++ {
			k.eq("deleted", l.Delete(m[i*2].n), true)
		}
		m.check(k, "clone, after the list has changed: ", cl, ";")
		var left pairs
		for i, p := range m {
			if i%2 == 1 || i/2 >= n/2 {
				left = append(left, p)
			}
		}
		left.check(k, "after deleting: ", l, ";")
		l.Concatenate(cl, true)
		append(append(pairs{}, m...), left...).check(k, "concatenated: ", l, ";")
	})
	// many values
	for _, s := range hspecs {
		s := s
		auth := strings.HasSuffix(s.name, "-Authenticate") || strings.HasSuffix(s.name, "Authorization")
		if !s.list && !auth && !s.ext || s.name == "Record-Route" && c.Prop != "C17" && c.Prop != "C51" {
			continue
		}
		if c.Prop != "C17" && c.Prop != "C51" {
			continue
		}
		var fs []form
		for _, f := range spread(7, s.forms(c)) {
			if f.in != "" && len(f.in) < 300 {
				fs = append(fs, f)
			}
		}
		seqOf := func(n int) (r []form) {
			for i := 0; i < n; i++ {
				r = append(r, fs[(i+i/7)%len(fs)])
			}
			return
		}
		add("C17", "values of "+s.name, ns, func(k kk, n int) {
			for _, cut := range []int{0, -1, 0x5555555555555555} {
				if !s.list && cut != -1 {
					continue
				}
				repeated(c, s, auth, seqOf(n), cut, ", ")
			}
		})
		if !s.list {
			continue
		}
		add("C51", "values in a list of "+s.name, ns, func(k kk, n int) {
			fs := seqOf(n)
			parse := func(f form) header.Header {
				h, err := parseLine(s.name + ": " + f.in + "\n")
				if err != nil {
					panic(err)
				}
				return h
			}
			l, ok := parse(fs[0]).(header.SIPHeaderLister)
			if !k.ok("not a list", ok) {
				return
			}
			var outs []string
			outs = append(outs, fs[0].out)
			for i, f := range fs[1:] {
				h := elements(parse(f))[0]
				if i%3 == 1 {
					l.PushFront(h)
					outs = append([]string{f.out}, outs...)
				} else {
					l.PushBack(h)
					outs = append(outs, f.out)
				}
			}
			see := func(what string, l header.SIPHeaderLister, outs []string) {
				k.eq(what+"length", l.Len(), len(outs))
				i := 0
				for e := l.Front(); e != nil; e = e.Next() {
					if h, ok := e.Value.(header.Header); !ok || i < len(outs) && h.EncodeBody() != outs[i] {
						k.ok(fmt.Sprintf("%svalue %d is %v", what, i, e.Value), false)
						break
					}
					i++
				}
				if want := s.name + ": " + strings.Join(outs, ",") + "\r\n"; l.String() != want {
					k.ok(fmt.Sprintf("%sencoded as %q", what, l.String()), false)
				}
				k.eq(what+"first", l.Front().Value.(header.Header).EncodeBody(), outs[0])
				k.eq(what+"last", l.Back().Value.(header.Header).EncodeBody(), outs[len(outs)-1])
			}
			see("", l, outs)
			cl := l.Clone().(header.SIPHeaderLister)
			see("clone: ", cl, outs)
			l.Concatenate(cl, false)
			see("concatenated with its clone: ", l, append(append([]string{}, outs...), outs...))
			see("clone: ", cl, outs)
			l.Remove(l.Front())
			l.Remove(l.Back())
			if n > 1 {
				see("without the ends: ", l, append(append([]string{}, outs...), outs...)[1:2*n-1])
			}
		})
	}
	growSetters(c, add, ls)
	// numbers
	for _, x := range []struct {
		prop, name, in, get string
		max                 int
	}{
		{"C06", "Contact", "<sip:a@h>;expires=%s;x=1", "GetExpires", 1<<31 - 1},
		{"C07", "Via", "SIP/2.0/UDP h;ttl=%s;x=1", "GetTTL", 255},
		{"C07", "Via", "SIP/2.0/UDP h:%s;branch=1", "GetPort", 65535},
		{"C09", "Retry-After", "5;duration=%s;x=1", "GetDuration", 1<<31 - 1},
		{"C09", "Retry-After", "%s;x=1", "GetRetryAfter", 1<<31 - 1},
		{"C09", "Content-Length", "%s", "GetContentLength", 1<<31 - 1},
		{"C09", "Max-Forwards", "%s", "GetMaxForwards", 255},
		{"C09", "Expires", "%s", "GetExpires", 1<<31 - 1},
		{"C09", "Min-Expires", "%s", "GetExpires", 1<<31 - 1},
		{"C09", "RSeq", "%s", "GetSequenceNumber", 1<<31 - 1},
		{"C09", "CSeq", "%s FOO", "GetSequenceNumber", 1<<31 - 1},
		{"C09", "RAck", "%s 2 FOO", "GetRSeqNumber", 1<<31 - 1},
		{"C09", "RAck", "1 %s FOO", "GetCSeqNumber", 1<<31 - 1},
		{"C09", "MIME-Version", "1.%s", "GetMinorVersion", 1<<31 - 1},
		{"C10", "Reason", "SIP;cause=%s;x=1", "GetCause", 1<<31 - 1},
		{"C10", "Subscription-State", "active;expires=%s;x=1", "GetExpires", 1<<31 - 1},
		{"C10", "Subscription-State", "active;retry-after=%s;x=1", "GetRetryAfter", 1<<31 - 1},
		{"C06", "Contact", "<sip:a@h>;q=%s;x=1", "GetQValue", 0},
		{"C10", "Accept", "a/b;q=%s;x=1", "GetQValue", 0},
		{"C10", "Accept-Encoding", "gzip;q=%s", "GetQValue", 0},
		{"C10", "Accept-Language", "en;q=%s", "GetQValue", 0},
	} {
		x := x
		if x.prop != c.Prop {
			continue
		}
		var vs []string
		if x.max == 0 {
			for i := 0; i <= 1000; i++ {
				v := fmt.Sprintf("%d.%03d", i/1000, i%1000)
				vs = append(vs, v)
				for strings.HasSuffix(v, "0") {
					v = v[:len(v)-1]
					vs = append(vs, v)
				}
				if strings.HasSuffix(v, ".") {
					vs = append(vs[:len(vs)-1], v[:1])
				}
			}
		} else {
			seen := map[int]bool{}
			add := func(n int) {
				if n >= 0 && n <= x.max && !seen[n] {
					seen[n] = true
					vs = append(vs, strconv.Itoa(n))
				}
			}
			for n := 0; n <= c.Pick(1100, 70000); n++ {
				add(n)
			}
			for n := 1; n <= x.max; n *= 2 {
				add(n - 1)
				add(n)
				add(n + 1)
			}
			for n := 10; n <= x.max; n *= 10 {
				add(n - 1)
				add(n)
				add(n + 1)
				add(n / 9 * 8)
			}
			for n := 1000003; n <= x.max; n += x.max / c.Pick(500, 20000) {
				add(n)
			}
			add(x.max)
			add(x.max - 1)
		}
		var parts []int
		for i := 1; i <= 64; i++ {
			parts = append(parts, i)
		}
		add(x.prop, fmt.Sprintf("%s: numbers in %q, a 64th of %d", x.name, x.in, len(vs)), parts, func(k kk, n int) {
			for i := n - 1; i < len(vs); i += 64 {
				in := fmt.Sprintf(x.in, vs[i])
				h, err := parseLine(x.name + ": " + in + "\n")
				if err != nil {
					k.ok(fmt.Sprintf("%s is rejected: %v", in, err), false)
					continue
				}
				got := method(elements(h)[0], x.get)[0]
				if x.max > 0 {
					if fmt.Sprint(got.Interface()) != vs[i] {
						k.ok(fmt.Sprintf("%s is %v", in, got.Interface()), false)
					}
				} else if f, _ := strconv.ParseFloat(vs[i], 32); got.Float() != f {
					k.ok(fmt.Sprintf("%s is %v", in, got.Interface()), false)
				}
				if x.name == "Accept-Encoding" || x.name == "Accept-Language" { // the number in its shortest form
					f, _ := strconv.ParseFloat(vs[i], 32)
					in = fmt.Sprintf(x.in, strconv.FormatFloat(f, 'f', -1, 32))
				}
				if h.String() != x.name+": "+in+"\r\n" {
					k.ok(fmt.Sprintf("%s is encoded as %q", in, h.String()), false)
				}
			}
			k.ok("", true)
		})
	}
	// dates
	date := func(k kk, d time.Time) {
		t := d.Format("Mon, 02 Jan 2006 15:04:05 ") + "GMT"
		h, err := parseLine("Date: " + t + "\n")
		if err != nil || h.(*header.Date).GetDate() == nil {
			k.ok(fmt.Sprintf("%s is rejected: %v", t, err), false)
			return
		}
		if got := h.(*header.Date).GetDate().Unix(); got != d.Unix() || h.String() != "Date: "+t+"\r\n" {
			k.ok(fmt.Sprintf("%s is %d, encoded as %q", t, got, h.String()), false)
		}
	}
	var months, minutes []int
	for i := 1; i <= c.Pick(12*40, 12*200); i++ {
		months = append(months, i)
	}
	for i := 1; i <= 24*60; i++ {
		minutes = append(minutes, i)
	}
	add("C09", "days of a month, months since December 1979", months, func(k kk, n int) {
		for d := time.Date(1979, 12+time.Month(n), 1, n%24, n%60, n%59, 0, time.UTC); d.Month() == (11+time.Month(n))%12+1; d = d.AddDate(0, 0, 1) {
			date(k, d)
			for _, s := range []int{0, 59, 60, 3599, 3600, 43199, 43200, 86340, 86399} {
				date(k, time.Date(d.Year(), d.Month(), d.Day(), 0, 0, s, 0, time.UTC))
			}
		}
		k.ok("", true)
	})
	add("C09", "seconds of a minute of a day", minutes, func(k kk, n int) {
		for s := 0; s < 60; s++ {
			date(k, time.Date(2004, 2, 29, (n-1)/60, (n-1)%60, s, 0, time.UTC))
		}
		k.ok("", true)
	})
}

// growSetters: a setter that takes a short text takes a long one likewise.
func growSetters(c *mc.C, add adder, ls []int) {
	if c.Prop != "C27" {
		return
	}
	const short = "a0Bc1"
	for _, k := range ctors {
		k := k
		t := reflect.TypeOf(k.f())
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			get := strings.Replace(m.Name, "Set", "Get", 1)
			if m.Name == "SetMessageContent" { // whose length is in the text
				continue
			}
			g, ok := t.MethodByName(get)
			if !strings.HasPrefix(m.Name, "Set") || m.Type.NumIn() != 2 || m.Type.In(1).Kind() != reflect.String ||
				!ok || g.Type.NumIn() != 1 || g.Type.NumOut() < 1 || g.Type.Out(0).Kind() != reflect.String {
				continue
			}
			set := func(v string) (got, text string, refused bool) {
				x := k.f()
				for _, r := range method(x, m.Name, v) {
					if err, ok := r.Interface().(error); ok && err != nil {
						refused = true
					}
				}
				if s, ok := x.(fmt.Stringer); ok {
					text = s.String()
				}
				return method(x, get)[0].String(), text, refused
			}
			add("C27", k.name+" "+m.Name, ls, func(kk kk, n int) {
				got, text, refused := set(short)
				for _, v := range near(n, alnum, "") {
					g, t, r := set(v)
					kk.ok(fmt.Sprintf("%s.%s: %d characters are refused, 5 are not, or the other way round", k.name, m.Name, n), r == refused)
					want, wt := strings.ReplaceAll(got, short, v), strings.ReplaceAll(text, short, v)
					if g != want {
						w := strings.ReplaceAll(got, strings.ToLower(short), strings.ToLower(v))
						w = strings.ReplaceAll(w, strings.ToUpper(short), strings.ToUpper(v))
						kk.ok(fmt.Sprintf("%s.%s: %d characters are read back as %q", k.name, get, n, g), g == w)
					}
					if t != wt && !strings.EqualFold(t, strings.ReplaceAll(strings.ToLower(text), strings.ToLower(short), v)) {
						kk.ok(fmt.Sprintf("%s.%s: with %d characters the text is %q", k.name, m.Name, n, t), false)
					}
				}
			})
		}
	}
}

// growMessages: long lines, many lines, large contents, many messages.
func growMessages(c *mc.C, add adder, ls, ns, bs []int) {
	blob := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*37 + i>>8)
		}
		return string(b)
	}
	const via = "Via: SIP/2.0/UDP h;branch=z9hG4bK1"
	start := []string{"INVITE sip:a@h SIP/2.0", "SIP/2.0 180 Ringing"}
	add("C04", "content", bs, func(k kk, n int) {
		for i, b := range []string{blob(n), cyc(n, "\r\n"), strings.Repeat("\r\n", n/2) + "x"} {
			for _, cut := range []int{0, 1, len(b) / 2} {
				s := start[(i+cut)%2]
				framed(c, s+"\r\n"+via+"\r\nContent-Length: "+strconv.Itoa(len(b)-cut)+"\r\nSubject: a b\r\n\r\n"+b, s, b, len(b)-cut, false)
			}
			s := start[i%2]
			framed(c, s+"\r\n"+via+"\r\nl: "+strconv.Itoa(len(b)+1)+"\r\nSubject: a b\r\n\r\n"+b, s, b, len(b)+1, true)
		}
	})
	add("C04", "empty lines before a message", ns, func(k kk, n int) {
		for i, e := range []string{"\r\n", "\n"} {
			framed(c, strings.Repeat(e, n)+start[i]+"\r\n"+via+"\r\nContent-Length: 3\r\nSubject: a b\r\n\r\nabcd", start[i], "abcd", 3, false)
		}
	})
	add("C04", "lines one header is folded over", ns, func(k kk, n int) {
		for i, e := range []string{"\r\n", "\n"} {
			v := "a" + strings.Repeat(e+"\t", n) + e + "  b" + strings.Repeat(e+" ", n)
			framed(c, start[i]+e+via+e+"Content-Length: 3"+e+"Subject: "+v+e+e+"abcd", start[i], "abcd", 3, false)
		}
	})
	add("C04", "length of a line", ls, func(k kk, n int) {
		v := cyc(n, " ;,:")
		for i, e := range []string{"\r\n", "\n"} {
			m, err := parseMsg(start[i] + e + "X-Long: " + v + e + "l: 2" + e + "Subject: s" + e + e + "abc")
			if k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				k.ok(fmt.Sprintf("a line of %d: %q", n, m.String()), m.String() == start[i]+"\r\nX-Long: "+v+"\r\nSubject: s\r\nContent-Length: 2\r\n\r\nab")
			}
			// and the first
			s := start[i] + cyc(n, " ")
			if i == 0 {
				s = "INVITE sip:" + cyc(n, "-.") + "@h SIP/2.0"
			}
			m, err = parseMsg(s + e + "Subject: s" + e + e)
			if k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				k.ok(fmt.Sprintf("a first line of %d: %q", n, m.String()), m.String() == s+"\r\nSubject: s\r\nContent-Length: 0\r\n\r\n")
			}
		}
	})
	many := func(n int) (text, want string) {
		var a, b strings.Builder
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("X-%d: %s\r\n", i, cyc(1+i%70, " "))
			a.WriteString(l)
			b.WriteString(l)
		}
		return a.String(), b.String()
	}
	lines := func(k kk, n int) {
		for i, s := range start {
			text, want := many(n)
			body := blob(n % 300)
			in := s + "\r\n" + text + via + "\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
			out := s + "\r\n" + want + via + "\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
			if i == 1 {
				in = strings.ReplaceAll(in[:len(in)-len(body)], "\r\n", "\n") + body
			}
			m, err := parseMsg(in)
			if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				continue
			}
			if m.String() != out || string(m.EncodeAsBytes()) != out {
				k.ok(fmt.Sprintf("%d headers are encoded as %q", n, m.String()), false)
			}
			for j := 0; j < n; j++ {
				name := fmt.Sprintf("X-%d", j)
				if h := m.GetHeader(name); isNil(h) || !m.HasHeader(strings.ToLower(name)) || h.EncodeBody() != strings.TrimSpace(cyc(1+j%70, " ")) {
					k.ok("no header "+name, false)
				}
			}
			if k.c.Prop == "C05" {
				ss := asStrings(m)
				got := ""
				for e := ss.Front(); e != nil; e = e.Next() {
					x, _ := e.Value.(string)
					got += x
				}
				k.ok("encoded strings: "+got, strings.Replace(got, fmt.Sprintf("Content-Length: %d\r\n", len(body)), "", 1) == s+"\r\n"+want+via+"\r\n")
			}
			m2, err := parseMsg(m.String())
			if k.ok(fmt.Sprintf("encoding rejected: %v", err), err == nil) {
				k.ok("encoded otherwise", m2.String() == out)
			}
		}
	}
	add("C04", "headers", ns, lines)
	add("C05", "headers", ns, lines)
	add("C05", "content", bs, func(k kk, n int) {
		for _, s := range start {
			b := blob(n)
			out := s + "\r\nSubject: s\r\nContent-Length: " + strconv.Itoa(n) + "\r\n\r\n" + b
			m, err := parseMsg(s + "\r\nSubject: s\r\nl:" + strconv.Itoa(n) + "\r\n\r\n" + b)
			if k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				k.ok(fmt.Sprintf("%d bytes of content: %d bytes are encoded", n, len(m.String())), m.String() == out && string(m.EncodeAsBytes()) == out)
			}
		}
	})
	add("C16", "blanks and folds", ns, func(k kk, n int) {
		for _, x := range []struct{ name, val string }{{"Subject", "a b"}, {"Via", "SIP/2.0/UDP h;branch=x"}, {"To", "<sip:a@b>;tag=1"}, {"X-Any", "a b"}, {"CSeq", "1 FOO"}, {"Max-Forwards", "70"}} {
			for _, e := range []string{"\r\n", "\n"} {
				for _, line := range []string{
					x.name + strings.Repeat(" ", n) + ":" + x.val, x.name + ":" + strings.Repeat(" \t", n) + x.val, x.name + ": " + x.val + strings.Repeat(" ", n),
					x.name + ":" + strings.Repeat(e+" ", n) + x.val, x.name + ": " + x.val + strings.Repeat(e+" ", n),
				} {
					m, err := parseMsg("SIP/2.0 200 OK" + e + "X-B: 1" + e + line + e + "X-A: 2" + e + e)
					if k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
						k.eq("text", m.String(), "SIP/2.0 200 OK\r\nX-B: 1\r\n"+x.name+": "+x.val+"\r\nX-A: 2\r\nContent-Length: 0\r\n\r\n")
					}
				}
			}
		}
	})
	add("C16", "folds between words", ns, func(k kk, n int) {
		for _, e := range []string{"\r\n", "\n"} {
			in, out := "w", "w"
			for i := 0; i < n; i++ {
				in += e + []string{" ", "\t"}[i%2] + " w" + strconv.Itoa(i)
				out += " w" + strconv.Itoa(i)
			}
			m, err := parseMsg("SIP/2.0 200 OK" + e + "Subject: " + in + e + "X-A: 2" + e + e)
			if k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				k.ok(fmt.Sprintf("%q", m.String()), m.String() == "SIP/2.0 200 OK\r\nSubject: "+out+"\r\nX-A: 2\r\nContent-Length: 0\r\n\r\n")
			}
		}
	})
	add("C12", "blanks in a start line", ns, func(k kk, n int) {
		sp := strings.Repeat(" ", n)
		r, err := parser.NewStringMsgParser().ParseSIPRequestLine("INVITE" + sp + "sip:a@h;x=1" + sp + "SIP/2.0")
		if k.ok(fmt.Sprintf("rejected: %v", err), err == nil && r != nil) {
			k.eq("request line", r.String(), "INVITE sip:a@h;x=1 SIP/2.0\r\n")
		}
		s, err := parser.NewStringMsgParser().ParseSIPStatusLine("SIP/2.0" + sp + "200" + " " + cyc(n, " "))
		if k.ok(fmt.Sprintf("rejected: %v", err), err == nil && s != nil) {
			k.eq("status line", s.String(), "SIP/2.0 200 "+cyc(n, " ")+"\r\n")
		}
	})
	add("C12", "long URIs in a start line", ls, func(k kk, n int) {
		for _, u := range []string{"sip:" + cyc(n, "-.") + "@h", "sip:h;x=" + cyc(n, "-."), "tel:" + cycOf(n, "1234567890", "-."), "http://" + cyc(n, "/?=&")} {
			r, err := parser.NewStringMsgParser().ParseSIPRequestLine("INVITE " + u + " SIP/2.0")
			if k.ok(fmt.Sprintf("rejected: %v", err), err == nil && r != nil) {
				k.ok(fmt.Sprintf("%q", r.String()), r.String() == "INVITE "+u+" SIP/2.0\r\n")
			}
		}
	})
	add("C28", "good lines around a bad one", ns, func(k kk, n int) {
		for _, at := range []int{0, n / 2, n} {
			for _, abort := range []bool{false, true} {
				text, want := start[0]+"\r\n", start[0]+"\r\n"
				for i := 0; i <= n; i++ {
					if i == at {
						text += "Max-Forwards: bad\r\n"
						continue
					}
					l := fmt.Sprintf("X-%d: v\r\n", i)
					text += l
					want += l
				}
				w := &watcher{abort: map[string]bool{}}
				if abort {
					w.abort["Max-Forwards: bad"] = true
				}
				p := parser.NewStringMsgParser()
				p.SetParseExceptionListener(w)
				m, err := p.ParseSIPMessage(text + "\r\n")
				k.eq("reported", strings.Join(w.seen, "|"), "Max-Forwards: bad")
				if abort {
					k.ok("not aborted", err != nil && isNil(m))
				} else if k.ok(fmt.Sprintf("rejected: %v", err), err == nil && !isNil(m)) {
					k.ok("text", asMsg(m).String() == want+"Content-Length: 0\r\n\r\n")
				}
			}
		}
		// and that many bad ones
		text, seen := start[1]+"\r\n", []string{}
		for i := 0; i < n; i++ {
			b := "Expires: bad" + strconv.Itoa(i)
			text += b + "\r\n"
			seen = append(seen, b)
		}
		w := &watcher{}
		p := parser.NewStringMsgParser()
		p.SetParseExceptionListener(w)
		m, err := p.ParseSIPMessage(text + "Subject: s\r\n\r\n")
		k.ok(fmt.Sprintf("reported: %q", w.seen), strings.Join(w.seen, "|") == strings.Join(seen, "|"))
		if k.ok(fmt.Sprintf("rejected: %v", err), err == nil && !isNil(m)) {
			k.eq("text", asMsg(m).String(), start[1]+"\r\nSubject: s\r\nContent-Length: 0\r\n\r\n")
		}
	})
	add("C18", "headers edited", ns, func(k kk, n int) {
		text, _ := many(n)
		x, err := parseMsg(start[0] + "\r\n" + text + "\r\n")
		if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
			return
		}
		m := x.(editable)
		vals := map[int]string{}
		order := []int{}
		for i := 0; i < n; i++ {
			vals[i] = strings.TrimSpace(cyc(1+i%70, " "))
			order = append(order, i)
		}
		see := func(what string) {
			var b strings.Builder
			b.WriteString(start[0] + "\r\n")
			for _, i := range order {
				fmt.Fprintf(&b, "X-%d: %s\r\n", i, vals[i])
			}
			b.WriteString("Content-Length: 0\r\n\r\n")
			if m.String() != b.String() {
				k.ok(fmt.Sprintf("%s: %q", what, m.String()), false)
			}
		}
		for i := 0; i < n; i += 3 {
			m.SetHeader(one(fmt.Sprintf("X-%d", i), "new"))
			vals[i] = "new"
			o := []int{}
			for _, j := range order {
				if j != i {
					o = append(o, j)
				}
			}
			order = append(o, i)
		}
		// a header that is set takes the place it had, or the last
		if want := m.String(); true {
			o := []int{}
			for _, l := range strings.Split(want, "\r\n") {
				var i int
				if _, err := fmt.Sscanf(l, "X-%d:", &i); err == nil {
					o = append(o, i)
				}
			}
			if len(o) == len(order) {
				seen := map[int]bool{}
				for _, i := range o {
					seen[i] = true
				}
				if len(seen) == len(order) {
					order = o
				}
			}
		}
		see("set")
		for i := 1; i < n; i += 2 {
			m.RemoveHeader(fmt.Sprintf("x-%d", i))
			o := []int{}
			for _, j := range order {
				if j != i {
					o = append(o, j)
				}
			}
			order = o
			k.ok("still there", !m.HasHeader(fmt.Sprintf("X-%d", i)))
		}
		see("removed")
		for i := n; i < 2*n; i++ {
			m.AddHeader(one(fmt.Sprintf("X-%d", i), "added"))
			vals[i] = "added"
			order = append(order, i)
		}
		see("added")
	})
	add("C18", "values of a list of headers", ns, func(k kk, n int) {
		for _, name := range []string{"Via", "Contact", "Route", "Record-Route", "Error-Info", "Allow", "Supported", "Warning"} {
			val := map[string]string{"Via": "SIP/2.0/UDP h%d;branch=z9hG4bK%[1]d", "Allow": "M%d", "Supported": "o%d", "Warning": "399 h \"%d\"", "Error-Info": "<http://h/%d>"}[name]
			if val == "" {
				val = "<sip:u%d@h>"
			}
			var bs []string
			for i := 0; i < n; i++ {
				bs = append(bs, fmt.Sprintf(val, i))
			}
			oneMore := fmt.Sprintf(val, n)
			ways := []func(m editable, mod *hmodel){
				func(m editable, mod *hmodel) { m.SetHeader(listOf(name, bs...)); mod.set(name, bs...) },
				func(m editable, mod *hmodel) { m.AttachHeader(listOf(name, bs...)); mod.add(false, false, name, bs...) },
				func(m editable, mod *hmodel) {
					for _, b := range bs {
						m.AddHeader(one(name, b))
						mod.add(false, name == "Via", name, b)
					}
				},
				func(m editable, mod *hmodel) {
					for _, b := range bs {
						m.AttachHeader3(one(name, b), false, true)
						mod.add(false, true, name, b)
					}
				},
			}
			if name == "Via" {
				ways = append(ways, func(m editable, mod *hmodel) {
					m.SetVia(listOf(name, bs...).(*header.ViaList))
					mod.set(name, bs...)
				})
			}
			for _, way := range ways {
				for _, there := range []bool{false, true} {
					m := editable(message.NewSIPRequest())
					mod := hmodel{{name: "Content-Length", bodies: []string{"0"}}}
					if there {
						m.AddHeader(one(name, oneMore))
						mod.add(false, false, name, oneMore)
					}
					way(m, &mod)
					observe(k, m, mod, []string{name})
					for i := 0; i <= n/2 && mod.at(name) >= 0; i++ {
						m.RemoveHeader2(name, i%2 == 0)
						mod.removeOne(name, i%2 == 0)
					}
					observe(k, m, mod, []string{name})
				}
			}
		}
	})
	add("C19", "content that is set", bs, func(k kk, n int) {
		b := blob(n)
		sets := []func(m contentMsg){
			func(m contentMsg) { m.SetMessageContent(b) },
			func(m contentMsg) { m.SetMessageContentFromByte([]byte(b)) },
			func(m contentMsg) { m.SetMessageContentFromString("a", "b", b) },
			func(m contentMsg) { m.SetMessageContent3("a", "b", []byte(b)) },
			func(m contentMsg) { m.SetContent(b, one("Content-Type", "a/b").(header.ContentTypeHeader)) },
			func(m contentMsg) { m.SetContent([]byte(b), one("Content-Type", "a/b").(header.ContentTypeHeader)) },
		}
		for i, set := range sets {
			x, _ := parseMsg("OPTIONS sip:h SIP/2.0\r\nl: 4\r\nc: a/b\r\nSubject: s\r\n\r\nbody")
			m := x.(contentMsg)
			set(m)
			k.eq("length", m.GetContentLength().GetContentLength(), n)
			k.ok(fmt.Sprintf("set in way %d: %d bytes, not %d", i, len(m.GetMessageContent()), n), m.GetMessageContent() == b && m.GetContent() == b)
			tail := "Content-Length: " + strconv.Itoa(n) + "\r\n\r\n" + b
			got := string(m.EncodeAsBytes())
			k.ok(fmt.Sprintf("set in way %d: %.300q", i, got), got == "OPTIONS sip:h SIP/2.0\r\nContent-Type: a/b\r\nSubject: s\r\n"+tail ||
				i > 1 && got == "OPTIONS sip:h SIP/2.0\r\nSubject: s\r\nContent-Type: a/b\r\n"+tail)
		}
	})
	add("C45", "messages in a buffer", ns, func(k kk, n int) {
		var buf bytes.Buffer
		text := func(i int) string {
			b := blob(i % 400)
			return fmt.Sprintf("SIP/2.0 200 OK\r\nX-No: %d\r\nContent-Length: %d\r\n\r\n%s", i, len(b), b)
		}
		for i := 0; i < n; i++ {
			buf.WriteString(strings.Repeat("\r\n", i%4) + text(i))
		}
		p := parser.NewStringMsgParser()
		rest := buf.Bytes()
		for i := 0; i < n; i++ {
			m, err := p.ParseSIPMessageFromByte(rest)
			if !k.ok(fmt.Sprintf("message %d is rejected: %v", i, err), err == nil && !isNil(m)) {
				return
			}
			if asMsg(m).String() != text(i) {
				k.ok(fmt.Sprintf("message %d is %q", i, asMsg(m).String()), false)
			}
			rest = p.ReadBytesToEnd()
		}
		k.eq("left", string(rest), "")
	})
	add("C45", "content between messages", bs, func(k kk, n int) {
		b := blob(n)
		one := "SIP/2.0 200 OK\r\nSubject: s\r\nContent-Length: " + strconv.Itoa(n) + "\r\n\r\n" + b
		p := parser.NewStringMsgParser()
		rest := []byte(one + "\r\n" + one + "tail")
		for i := 0; i < 2; i++ {
			m, err := p.ParseSIPMessageFromByte(rest)
			if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil && !isNil(m)) {
				return
			}
			k.ok(fmt.Sprintf("message %d has %d bytes", i, len(asMsg(m).GetContent())), asMsg(m).String() == one)
			rest = p.ReadBytesToEnd()
		}
		k.ok(fmt.Sprintf("left: %d bytes", len(rest)), string(rest) == "tail")
	})
	add("C26", "values and parameters of a clone", ns, func(k kk, n int) {
		var vals, ps []string
		for i := 0; i < n; i++ {
			vals = append(vals, fmt.Sprintf("<sip:r%d@h;lr>", i))
			ps = append(ps, fmt.Sprintf("p%d=%d", i, i))
		}
		for _, line := range []string{"Route: " + strings.Join(vals, ","), "To: <sip:a@h;" + strings.Join(ps, ";") + ">;" + strings.Join(ps, ";"), "Via: SIP/2.0/UDP h;" + strings.Join(ps, ";"), "Contact: " + strings.Join(vals, ",")} {
			h, err := parseLine(line + "\n")
			if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				continue
			}
			before, inside := h.String(), digest(h)
			cl := method(h, "Clone")[0].Interface().(header.Header)
			k.ok(fmt.Sprintf("the clone is %q", cl.String()), cl.String() == before && digest(cl) == inside)
			for _, x := range elements(cl) {
				if a, ok := x.(interface{ GetAddress() address.Address }); ok {
					u := a.GetAddress().GetURI().(*address.SipURIImpl)
					for i := 0; i < n; i++ {
						u.SetParameter(fmt.Sprintf("p%d", i), "changed")
					}
				}
				for i := 0; i < n; i++ {
					x.(paramHeader).SetParameter(fmt.Sprintf("p%d", i), "changed")
				}
				if len(vals) > 1 && n > 40 && line[0] != 'T' && line[0] != 'V' {
					break
				}
			}
			k.ok(fmt.Sprintf("after its clone was changed: %q", h.String()), h.String() == before && digest(h) == inside)
		}
	})
	add("C48", "logged messages", ns, func(k kk, n int) {
		d, err := ioutil.TempDir("", "gosips-verif-log-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		w := &core.LogWriter{}
		want := ""
		for i := 0; i < n; i++ {
			w.LogMessageToFile(cyc(1+i%80, "\n"), filepath.Join(d, "a.log"))
			want += " ---------------------------------------------- " + cyc(1+i%80, "\n")
		}
		got, _ := ioutil.ReadFile(filepath.Join(d, "a.log"))
		k.ok(fmt.Sprintf("%d bytes, not %d", len(got), len(want)), string(got) == want)
	})
	add("C48", "a logged message", bs, func(k kk, n int) {
		d, err := ioutil.TempDir("", "gosips-verif-log-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		w := &core.LogWriter{}
		w.LogMessageToFile(blob(n), filepath.Join(d, "a.log"))
		w.LogMessageToFile("x", filepath.Join(d, "a.log"))
		got, _ := ioutil.ReadFile(filepath.Join(d, "a.log"))
		k.ok(fmt.Sprintf("%d bytes", len(got)), string(got) == " ---------------------------------------------- "+blob(n)+" ---------------------------------------------- x")
	})
}

// growDerived: messages made from messages with many Vias and routes, and
// long identifiers.
func growDerived(c *mc.C, add adder, ls, ns []int) {
	request := func(n int) (head string, hs map[string]string) {
		hs = map[string]string{}
		var vias, rrs, rs []string
		for i := 0; i < n; i++ {
			vias = append(vias, fmt.Sprintf("SIP/2.0/UDP h%d:%d;branch=z9hG4bK%d", i, 1+i, i))
			rrs = append(rrs, fmt.Sprintf("<sip:rr%d@h;lr>", i))
			rs = append(rs, fmt.Sprintf("<sip:r%d@h>;x=%d", i, i))
		}
		hs["Via"] = "Via: " + strings.Join(vias, "\r\nVia: ") + "\r\n"
		hs["Record-Route"] = "Record-Route: " + strings.Join(rrs, ",") + "\r\n"
		hs["Route"] = "Route: " + strings.Join(rs, ",") + "\r\n"
		hs["From"] = "From: <sip:f@h>;tag=" + cyc(n, "-.") + "\r\n"
		hs["To"] = "To: \"" + cyc(n, " ") + "\" <sip:t@h>\r\n"
		hs["Call-ID"] = "Call-ID: " + cyc(n, "-.") + "@h\r\n"
		return "INVITE sip:u@h SIP/2.0\r\n" + hs["Via"] + hs["From"] + hs["To"] + hs["Call-ID"] + "CSeq: 7 INVITE\r\n" + hs["Record-Route"] + hs["Route"] + "\r\n", hs
	}
	add("C20", "Via and Record-Route headers of a request", ns, func(k kk, n int) {
		text, hs := request(n)
		x, err := parseMsg(text)
		if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
			return
		}
		req := x.(*message.SIPRequest)
		before := req.String()
		via := strings.ReplaceAll(hs["Via"], "\r\nVia: ", ",")
		for i := 0; i < 3; i++ {
			r := req.CreateResponse(180 + i)
			want := via + hs["From"] + hs["To"] + hs["Call-ID"] + "CSeq: 7 INVITE\r\n" + hs["Record-Route"] + "Content-Length: 0\r\n\r\n"
			got := r.String()
			got = got[strings.Index(got, "\r\n")+2:]
			if got != want {
				alt := hs["Via"] + strings.TrimPrefix(want, via)
				k.ok(fmt.Sprintf("%q", got), got == alt)
			}
			k.eq("transaction", r.GetTransactionId(), req.GetTransactionId())
			k.eq("dialog", r.GetDialogId(true), req.GetDialogId(true))
			k.ok("the request has changed", req.String() == before)
		}
	})
	add("C21", "Via and Route headers of a request", ns, func(k kk, n int) {
		text, hs := request(n)
		x, err := parseMsg(text)
		if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
			return
		}
		req := x.(*message.SIPRequest)
		before := req.String()
		cancel := req.CreateCancelRequest()
		got := cancel.String()
		for _, h := range []string{"Via", "From", "To", "Call-ID", "Route", "Record-Route"} {
			one, all := "\r\n"+hs[h], "\r\n"+strings.ReplaceAll(hs[h], "\r\nVia: ", ",")
			k.ok(fmt.Sprintf("no %s in %q", h, got), strings.Contains(got, one) || strings.Contains(got, all))
		}
		k.eq("CSeq", cancel.GetHeader("CSeq").String(), "CSeq: 7 CANCEL\r\n")
		k.ok("the request has changed", req.String() == before)
	})
	add("C22", "characters of identifiers", ls, func(k kk, n int) {
		start := ""
		text := func(branch, cid, ft, tt, host, user string) idMsg {
			x, err := parseMsg(start + "\r\nVia: SIP/2.0/UDP " + host + branch + "\r\nFrom: <sip:" + user + "@h>;tag=" + ft + "\r\nTo: <sip:b" + user + "@h>;tag=" + tt + "\r\nCall-ID: " + cid + "\r\nCSeq: 1 BYE\r\n\r\n")
			if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
				panic(err)
			}
			return x.(idMsg)
		}
		vs := near(n, alnum[:1]+"0c1e2g3i4k5m6o7q8s9u", "")
		diff := func(what string, f func(v string) string) {
			seen := map[string]string{}
			for _, v := range vs {
				id := f(v)
				for w, o := range seen {
					if (o == id) != (w == v) {
						k.ok(fmt.Sprintf("%s: %q and %q have the ids %q and %q", what, w, v, o, id), false)
					}
				}
				seen[v] = id
				if up := f(strings.ToUpper(v)); up != id {
					k.ok(fmt.Sprintf("%s: %q in upper case has another id: %q, not %q", what, v, up, id), false)
				}
			}
			k.ok("", true)
		}
		for _, start = range []string{"BYE sip:x SIP/2.0", "SIP/2.0 200 OK"} {
			for _, server := range []bool{false, true} {
				server := server
				what := fmt.Sprintf("dialog of %s, server %v, ", start[:3], server)
				diff(what+"call id", func(v string) string { return text("", v, "f", "t", "p", "a").GetDialogId(server) })
				diff(what+"from tag", func(v string) string { return text("", "c", v, "t", "p", "a").GetDialogId(server) })
				diff(what+"to tag", func(v string) string { return text("", "c", "f", v, "p", "a").GetDialogId(server) })
				diff(what+"users", func(v string) string { return text("", "c", "f", "t", "p", v).GetDialogId(server) })
				diff(what+"given tag", func(v string) string { return text("", "c", "f", "t", "p", "a").GetDialogId2(server, v) })
				diff(what+"from tag with one given", func(v string) string { return text("", "c", v, "t", "p", "a").GetDialogId2(server, "t") })
				diff(what+"call id with a tag given", func(v string) string { return text("", v, "f", "t", "p", "a").GetDialogId2(server, "t") })
				diff(what+"users with a tag given", func(v string) string { return text("", "c", "f", "t", "p", v).GetDialogId2(server, "t") })
			}
			diff("transaction, branch", func(v string) string {
				return text(";branch=z9hG4bK"+v, "c", "f", "t", "p", "a").GetTransactionId()
			})
			diff("transaction, call id", func(v string) string { return text("", v, "f", "t", "p", "a").GetTransactionId() })
			diff("transaction, tag", func(v string) string { return text("", "c", v, "t", "p", "a").GetTransactionId() })
			more := func(via, cseq, port string) idMsg {
				x, err := parseMsg(strings.Replace(start, "BYE", strings.Fields(cseq)[1], 1) + "\r\nVia: " + via + "\r\nFrom: <sip:a@h" + port + ">;tag=f\r\nTo: <sip:b@h" + port + ">;tag=t\r\nCall-ID: c\r\nCSeq: " + cseq + "\r\n\r\n")
				if !k.ok(fmt.Sprintf("rejected: %v", err), err == nil) {
					panic(err)
				}
				return x.(idMsg)
			}
			numbers := map[int]bool{}
			for p := 1; p > 0 && p <= 1<<31; p *= 2 {
				for d := -1; d <= 1; d++ {
					if v := p + d + n*(n&1); v >= 0 && v < 1<<31 {
						numbers[v] = true
					}
				}
			}
			for p := 1; p <= 1000000000; p *= 10 {
				for d := 0; d < 10; d++ {
					if v := p*d + n; v < 1<<31 {
						numbers[v] = true
					}
				}
			}
			apart := func(what string, f func(v int) string) {
				seen := map[string]int{}
				for v := range numbers {
					id := f(v)
					if o, ok := seen[id]; ok {
						k.ok(fmt.Sprintf("%s: %d and %d have the same id %q", what, o, v, id), false)
					}
					seen[id] = v
				}
			}
			apart("transaction, number", func(v int) string {
				return more("SIP/2.0/UDP p", strconv.Itoa(v)+" BYE", "").GetTransactionId()
			})
			for _, t := range []string{"UDP", "TLS"} {
				apart("transaction, port", func(v int) string {
					return more(fmt.Sprintf("SIP/2.0/%s p:%d", t, v%65536)+";x="+strconv.Itoa(n), "1 BYE", "").GetTransactionId() + strconv.Itoa(v/65536)
				})
			}
			k.eq("transaction, with the default port", more("SIP/2.0/UDP p:5060;ttl=1", "1 BYE", "").GetTransactionId(), more("SIP/2.0/UDP p", "1 BYE", "").GetTransactionId())
			apart("dialog, port", func(v int) string {
				return more("SIP/2.0/UDP p", "1 BYE", ":"+strconv.Itoa(v%65536)).GetDialogId(false) + " " + strconv.Itoa(v/65536)
			})
			diff("transaction, method", func(v string) string {
				m := more("SIP/2.0/UDP p", "1 "+v, "")
				return m.GetTransactionId()
			})
			diff("transaction, host", func(v string) string { return text("", "c", "f", "t", v, "a").GetTransactionId() })
		}
	})
}

// growRTP: large packets, many addresses, long sequences, late times.
func growRTP(c *mc.C, add adder, ls, ns, bs []int) {
	add("C31", "payload", bs, func(k kk, n int) {
		rtpOne(c, &rtpPkt{pt: 3, payload: payloadOf(n)})
		rtpOne(c, &rtpPkt{pt: 96, marker: true, seq: 0xffff, ts: 0xffffffff, ssrc: 1, csrcs: dwords(n%16, 5), ext: true, extID: uint16(n), extData: dwords(n%9, 3), payload: payloadOf(n)})
	})
	add("C32", "bytes received", bs, func(k kk, n int) {
		for _, f := range []byte{0x80, 0x83, 0x90, 0xa0, 0xb2} {
			for _, pad := range []byte{0, 1, 4, 128, 255} {
				b := payloadOf(n)
				b[0] = f
				if n > 1 {
					b[1] = 96
				}
				if f&16 != 0 && n > 12+4*int(f&15)+4 {
					binary.BigEndian.PutUint16(b[12+4*int(f&15)+2:], uint16(n/8))
				}
				if f&32 != 0 && n > 30 {
					b[n-1] = pad
				}
				key := fmt.Sprintf("%x and %d bytes, padding %d", f, n, pad)
				recvBytes(c, key, b)
			}
		}
	})
	rtcp := bs
	add("C33", "bytes of a packet", rtcp, func(k kk, n int) {
		for _, f := range []byte{0x80, 0x81, 0x9f, 0xa0, 0xbf, 0x05} {
			for _, pad := range []byte{0, 4, 128, 252} {
				if f&32 == 0 && pad > 0 {
					continue
				}
				b := payloadOf(n)
				b[0] = f
				if at := 4 + 4*int(f&31); at < n {
					b[at] = byte(min(255, n-at-1))
				}
				if f&32 != 0 && n > 1 {
					b[n-1] = pad
				}
				rtcpBytes(c, fmt.Sprintf("%x and %d bytes, padding %d", f, n, pad), b)
			}
		}
	})
	var late []int
	for i := 0; i < 40; i++ {
		late = append(late, 1+i*53687091)
	}
	add("C34", "seconds added up, in units of 40 for 2**31", late, func(k kk, n int) {
		const most = 2085978495
		x := rtpTime(uint32(min(n, most)), 999999)
		for _, add := range []uint32{0, 1, 1000000, most / 2, most} {
			y := rtpTime(add, 500001)
			if uint64(min(n, most))+uint64(add)+2 >= 1<<32 {
				continue
			}
			z := x.Clone()
			z.Add(y)
			k.ok(fmt.Sprintf("%d.999999 + %d.500001 is not more than either", n, add), z.GT(x) && z.GT(y) && x.LT(z) && y.LT(z) && z.EGT(x) && !z.ELT(y))
			back := z.Clone()
			back.Sub(y)
			k.ok(fmt.Sprintf("%d.999999 + %d.500001 - that is %d", n, add, timeOf(back)), timeOf(back) == timeOf(x) && !back.LT(x) && !back.GT(x))
			back = z.Clone()
			back.Sub(x)
			k.ok(fmt.Sprintf("%d.999999 + %d.500001 - the first is %d", n, add, timeOf(back)), timeOf(back) == timeOf(y) && !back.LT(y) && !back.GT(y))
		}
	})
	add("C35", "addresses in a collision list", ns, func(k kk, n int) {
		l := rtp.NewCollisionList()
		at := func(i int) *rtp.RTPTime { return rtpTime(uint32(100+i), 0) }
		var as []naddr
		for i := 0; i < n; i++ {
			a := naddr{host: "h" + strconv.Itoa(i/2), port: uint16(i % 2)}
			if i%3 == 0 {
				a = naddr{ip: []byte{10, byte(i >> 16), byte(i >> 8), byte(i)}, port: 5}
			}
			as = append(as, a)
			made, err := l.UpdateAddress(a.make(), *at(i))
			if !made || err != nil {
				k.ok(fmt.Sprintf("address %d is not new: %v", i, err), false)
			}
		}
		has := func(what string, f func(i int) bool) {
			for i, a := range as {
				if got := l.HasAddress(a.make()); got != f(i) {
					k.ok(fmt.Sprintf("%s: address %d is there: %v", what, i, got), false)
				}
			}
		}
		has("all", func(int) bool { return true })
		for i := 0; i < n; i += 4 { // some are seen again
			made, err := l.UpdateAddress(as[i].make(), *at(n + 10))
			k.ok("new again", !made && err == nil)
		}
		has("all", func(int) bool { return true })
		l.Timeout(at(n/2), rtpTime(0, 0))
		has("after a time-out", func(i int) bool { return i%4 == 0 || i >= n/2 })
		for i := 0; i < n; i += 5 {
			gone := i%4 != 0 && i < n/2
			made, err := l.UpdateAddress(as[i].make(), *at(n + 10))
			k.ok("new again after a time-out", made == gone && err == nil)
		}
		l.Clear()
		has("after clearing", func(int) bool { return false })
	})
	add("C35", "characters of a host's name", ls, func(k kk, n int) {
		vs := near(n, alnum, "-.")
		for _, v := range vs {
			for _, w := range vs {
				x, y := rtp.NewHostAddress(v, 7), rtp.NewHostAddress(w, 7)
				k.ok("same address", x.IsSameAddress(y) == (v == w) && x.IsFromSameHost(y) == (v == w))
				l := rtp.NewCollisionList()
				l.UpdateAddress(x, *rtpTime(1, 0))
				k.ok("in the list", l.HasAddress(y) == (v == w))
			}
			k.ok("text", rtp.NewHostAddress(v, 7).String() == v+":7")
		}
	})
	// seeds from which a draw is an extreme one
	var nth []int
	for i := 1; i <= 60; i++ {
		nth = append(nth, i)
	}
	add("C36", "draw that gives an extreme number", nth, func(k kk, n int) {
		const mask = 1<<48 - 1
		inv := uint64(1)
		for i := 0; i < 6; i++ { // Newton: the inverse of the factor
			inv = inv * (2 - 0x5DEECE66D*inv)
		}
		for _, top := range []uint64{0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0xffff0000, 0xffff, 0xff000000} {
			for r := uint64(0); r < 65536; r++ {
				s := top<<16 | r
				for j := 0; j < n; j++ {
					s = (s - 0xb) * inv & mask
				}
				if s&0xffff != 0x330e {
					continue
				}
				seed := uint32(s >> 16)
				for d := 0; d < 4; d++ {
					g := rtp.NewRandomRand48FromSeed(seed)
					var m rand48
					m.seed(seed)
					for i := 1; i <= n+2; i++ {
						switch d {
						case 0:
							if got, want := g.GetRandom32(), uint32(m.next()>>16); got != want {
								k.eq(fmt.Sprintf("seed %d, draw %d", seed, i), got, want)
							}
						case 1:
							if got, want := g.GetRandom16(), uint16(m.next()>>32); got != want {
								k.eq(fmt.Sprintf("seed %d, draw %d of 16 bits", seed, i), got, want)
							}
						case 2:
							if got, want := g.GetRandom8(), uint8(m.next()>>40); got != want {
								k.eq(fmt.Sprintf("seed %d, draw %d of 8 bits", seed, i), got, want)
							}
						case 3:
							if got, want := g.GetRandomDouble(), float64(m.next())/float64(1<<48); got != want {
								k.eq(fmt.Sprintf("seed %d, double %d", seed, i), got, want)
							}
						}
					}
				}
				k.ok("", true)
			}
		}
	})
}
