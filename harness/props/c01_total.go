package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

// isNil sees through typed nil pointers in interfaces.
func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func:
		return v.IsNil()
	}
	return false
}

func render(x interface{}, err error) string {
	if err != nil {
		return "error"
	}
	if isNil(x) {
		return "nil"
	}
	if s, ok := x.(interface{ String() string }); ok {
		return s.String()
	}
	return fmt.Sprintf("%v", x)
}

// entry is one way bytes from outside reach the parsers.
type entry struct {
	name string
	f    func(s string) (interface{}, error)
}

var entries = map[string]entry{}

func addEntry(name string, f func(s string) (interface{}, error)) {
	entries[name] = entry{name, f}
}

func init() {
	addEntry("message", func(s string) (interface{}, error) {
		return parser.NewStringMsgParser().ParseSIPMessage(s)
	})
	addEntry("messagebytes", func(s string) (interface{}, error) {
		return parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(s))
	})
	addEntry("header", func(s string) (interface{}, error) {
		p, err := parser.CreateParser(s + "\n")
		if err != nil {
			return nil, err
		}
		return p.Parse()
	})
	addEntry("headernl", func(s string) (interface{}, error) { // not newline-terminated
		p, err := parser.CreateParser(s)
		if err != nil {
			return nil, err
		}
		return p.Parse()
	})
	addEntry("uri", func(s string) (interface{}, error) { return parser.NewURLParser(s).Parse() })
	addEntry("sipurl", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseSIPUrl(s) })
	addEntry("url", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseUrl(s) })
	addEntry("address", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseAddress(s) })
	addEntry("hostport", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseHostPort(s) })
	addEntry("host", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseHost(s) })
	addEntry("corehostport", func(s string) (interface{}, error) { return core.NewHostNameParser(s).GetHostPort() })
	addEntry("tel", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParSetelephoneNumber(s) })
	addEntry("reqline", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseSIPRequestLine(s) })
	addEntry("statusline", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseSIPStatusLine(s) })
	addEntry("sipheader", func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseSIPHeader(s) })

	reg(&P{ID: "C01", Rule: "every entry point x (all token strings up to the depth bound; every prefix, every one-byte deletion, substitution and insertion of every seed; every seed cut anywhere and continued with every token string up to the splice depth); an accepted value is then encoded and parsed again", Run: c01})
}

func c01(c *mc.C) {
	run := func(e entry, in string) {
		if !c.Mine() {
			return
		}
		key := e.name + " " + in
		var res string
		ok := c.Run(key, func() {
			c.Step(1)
			v, err := e.f(in)
			res = render(v, err)
		})
		c.Evals++
		c.Trace()
		if ok {
			c.State(e.name + "|" + res)
			if res == "error" {
				c.Outcome("rejected")
			} else {
				c.Outcome("accepted")
			}
			if c.Evals%9973 == 0 {
				c.Sample("%s(%q) -> %q", e.name, in, res)
			}
		} else {
			c.Outcome("died")
		}
	}
	corpus(c, run)
}

// corpus enumerates inputs for the entry points.
func corpus(c *mc.C, run func(e entry, in string)) {
	toks := []string{"a", "1", "\"", "<", ">", ";", "=", ",", ":", "/", "@", " ", "(", ")", "\\", "%", "%41", "*", ".", "[", "]", "?", "&", "+", "-", "sip:", "tel:", "SIP", "2.0", "\x00", "\xff", "\n", "\r", "\t", "q"}
	var strs func(depth int, prefix string, f func(string))
	strs = func(depth int, prefix string, f func(string)) {
		f(prefix)
		if depth == 0 {
			return
		}
		for _, t := range toks {
			strs(depth-1, prefix+t, f)
		}
	}
	// 1. all token strings
	d := c.Pick(2, 3)
	c.Bound("header value token depth", "%d over %d tokens", d, len(toks))
	seen := map[string]bool{}
	for _, s := range hdrSeeds {
		name := s[:strings.Index(s, ":")]
		if seen[name] {
			continue
		}
		seen[name] = true
		strs(d, name+":", func(in string) { run(entries["header"], in) })
		strs(d, name+": ", func(in string) { run(entries["header"], in) })
		strs(1, name, func(in string) { run(entries["header"], in); run(entries["headernl"], in) })
		strs(1, name+": ", func(in string) { run(entries["headernl"], in) })
	}
	d = c.Pick(3, 4)
	c.Bound("uri/address/host/line token depth", "%d", d)
	for _, n := range []string{"uri", "address", "hostport", "host", "corehostport", "tel", "reqline", "statusline", "header", "message"} {
		strs(d, "", func(in string) { run(entries[n], in) })
	}
	for _, n := range []string{"sipurl", "url", "sipheader", "headernl", "messagebytes"} {
		strs(2, "", func(in string) { run(entries[n], in) })
	}
	for _, pre := range []string{"sip:", "sip:a@", "sip:a:", "sip:a@b;", "sip:a@b?", "sip:a@b?x=", "tel:", "tel:+1", "tel:1;"} {
		strs(d-1, pre, func(in string) { run(entries["uri"], in); run(entries["sipurl"], in) })
	}
	// framing alphabet
	ftoks := []string{"\r", "\n", " ", "a", ":", "\x00", "SIP/2.0 200 OK", "INVITE sip:a SIP/2.0", "Content-Length: 1", "CSeq: 1 INVITE"}
	fd := c.Pick(5, 6)
	c.Bound("message framing token depth", "%d over %d tokens", fd, len(ftoks))
	save := toks
	toks = ftoks
	strs(fd, "", func(in string) { run(entries["message"], in) })
	for _, pre := range []string{"INVITE sip:a SIP/2.0", "SIP/2.0 200 OK\r\nl: 2", "ACK sip:a SIP/2.0\r\n\r\n"} {
		strs(fd-1, pre, func(in string) { run(entries["message"], in) })
	}
	toks = save
	// 2. mutations of seeds
	alpha := []byte("a1\"<>;=,:/@ ()\\%*.[]?&+-\x00\xff\n\r\tq")
	if c.Thorough() {
		alpha = alpha[:0]
		for i := 0; i < 256; i++ {
			alpha = append(alpha, byte(i))
		}
	}
	c.Bound("mutation bytes", "%d", len(alpha))
	c.Bound("splice token depth", "%d", c.Pick(1, 2))
	mutate := func(names []string, s string) {
		all := func(in string) {
			for _, n := range names {
				run(entries[n], in)
			}
		}
		all(s)
		for i := 0; i <= len(s); i++ {
			strs(c.Pick(1, 2), s[:i], all)
			for _, b := range alpha {
				all(s[:i] + string([]byte{b}) + s[i:])
				if i < len(s) {
					all(s[:i] + string([]byte{b}) + s[i+1:])
				}
			}
			for j := i + 1; j <= len(s) && j <= i+c.Pick(3, 12); j++ {
				all(s[:i] + s[j:]) // deletions
				if j <= i+3 {
					all(s[:j] + s[i:]) // duplications
				}
			}
		}
	}
	for _, s := range hdrSeeds {
		mutate([]string{"header"}, s)
		for i := 0; i <= len(s); i++ { // cut anywhere, without an end of line
			strs(1, s[:i], func(in string) { run(entries["headernl"], in) })
		}
	}
	for _, s := range uriSeeds {
		mutate([]string{"uri", "sipurl", "url"}, s)
	}
	for _, s := range addrSeeds {
		mutate([]string{"address"}, s)
	}
	for _, s := range reqLineSeeds {
		mutate([]string{"reqline"}, s)
	}
	for _, s := range statusLineSeeds {
		mutate([]string{"statusline"}, s)
	}
	for _, s := range []string{"a.b.c:5060", "[2001:db8::1]:1", "1.2.3.4"} {
		mutate([]string{"hostport", "host", "corehostport"}, s)
	}
	for _, s := range []string{"+1-212-555;isub=1;postd=2", "*21#(1)"} {
		mutate([]string{"tel"}, s)
	}
	for _, s := range msgSeeds {
		mutate([]string{"message"}, s)
	}
	for _, s := range []string{"Subject: a\n b", "\n\t Via: SIP/2.0/UDP h"} {
		mutate([]string{"sipheader"}, s)
	}
}
