package props

import (
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C53", Rule: "every edit of one character of every header line that the grammar derives with at most two choices other than the first (thorough: three)", Run: c53})
}

// c53Bytes holds a byte of each kind a scanner tells apart.
const c53Bytes = " \t\";,=<>@:/()[]{}?\\-+.*0x%~'!&#|^\x00\x7f\x80\xc3"

func c53(c *mc.C) {
	g := parseGrammar(sipGrammar)
	depth := c.Pick(2, 3)
	n := map[bool]int{}
	headerRules(g, func(name string) {
		start := strings.HasSuffix(name, "-Line")
		for d := 0; d <= depth; d++ {
			for _, v := range g.derive(&gram{kind: 'r', text: name}, d) {
				n[start]++
				if !c.Mine() {
					continue
				}
				line, b, check := v, 0, c53Start
				if !start {
					line, b, check = name+": "+v, len(name)+1, c53Header
				}
				typos(line, b, func(s string) {
					c.Run(s, func() { check(c, s) })
				})
			}
		}
	})
	c.Bound("header lines", "%d: all with up to %d choices, each with every edit of one character", n[false], depth)
	c.Bound("start lines", "%d: all with up to %d choices, each with every edit of one character", n[true], depth)
}

// typos calls f with every edit of one character of s from position b.
func typos(s string, b int, f func(s string)) {
	for i := b; i <= len(s); i++ {
		for j := 0; j < len(c53Bytes); j++ {
			f(s[:i] + c53Bytes[j:j+1] + s[i:])
			if i < len(s) {
				f(s[:i] + c53Bytes[j:j+1] + s[i+1:])
			}
		}
		if i < len(s) {
			f(s[:i] + s[i+1:])
		}
		if i+1 < len(s) {
			f(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
			f(s[:i] + s[i+2:])
		}
		f(s[:i])
	}
}

func c53Header(c *mc.C, s string) {
	c.Step(1)
	c.Trace()
	h, err := parser.NewStringMsgParser().ParseSIPHeader(s)
	if err != nil || isNil(h) {
		c.Outcome("refused")
		return
	}
	c.Outcome("accepted")
	enc := h.String()
	c.State(enc)
	if repeats(s) {
		return
	}
	c.Eq(s, "an edit of a line read and encoded", c53Same(enc), c53Same(s))
}

func c53Start(c *mc.C, s string) {
	c.Step(1)
	c.Trace()
	var enc string
	if strings.HasPrefix(s, "SIP") {
		l, err := parser.NewStringMsgParser().ParseSIPStatusLine(s)
		if err != nil || l == nil {
			c.Outcome("refused")
			return
		}
		enc = l.String()
	} else {
		l, err := parser.NewStringMsgParser().ParseSIPRequestLine(s)
		if err != nil || l == nil {
			c.Outcome("refused")
			return
		}
		enc = l.String()
	}
	c.Outcome("accepted")
	c.State(enc)
	if repeats(s) {
		return
	}
	c.Eq(s, "an edit of a start line read and encoded", c53Same("x:"+enc), c53Same("x:"+s))
}

// c53Same is c52Same without the differences that the library makes when it
// reads lines outside the grammar: see the statement of the property.
func c53Same(s string) string {
	s = c52Same(s)
	name, rest, _ := strings.Cut(strings.TrimRight(s, "\r\n"), ":")
	switch name {
	case "Alert-Info", "Call-Info", "Error-Info", "Contact", "From", "To", "Route", "Record-Route", "Refer-To", "Reply-To":
		s = c52Same(name + ":" + strings.ReplaceAll(rest, `"`, ""))
		name, rest, _ = strings.Cut(strings.TrimRight(s, "\r\n"), ":")
		rest = strings.NewReplacer(" ", "", "\t", "").Replace(rest)
	case "Accept-Encoding", "Accept-Language", "Timestamp":
		rest = c53Number.ReplaceAllStringFunc(rest, func(n string) string {
			f, err := strconv.ParseFloat(n, 64)
			if err != nil {
				return n
			}
			return strconv.FormatFloat(f, 'g', -1, 64)
		})
	case "CSeq", "RAck":
		rest = strings.TrimRight(c52Point.ReplaceAllString(strings.ReplaceAll(rest, " ", ""), "$1$2"), ".")
	case "Date":
		_, rest, _ = strings.Cut(rest, ",")
	case "MIME-Version":
		a, b, _ := strings.Cut(rest, ".")
		rest = a + "." + strings.TrimLeft(b, "0")
	case "Retry-After":
		rest = strings.ReplaceAll(rest, "()", "")
	case "Subscription-State":
		p := strings.Split(rest, ";")
		sort.Strings(p)
		rest = strings.Join(p, ";")
	}
	return name + ":" + strings.TrimRight(strings.ReplaceAll(rest, ":@", "@"), ", \t")
}

var c53Number = regexp.MustCompile(`\d*\.\d*`)

// repeats tells that two parameters of a line have the same name.
func repeats(s string) bool {
	seen := map[string]bool{}
	_, s, _ = strings.Cut(s, ":")
	for _, p := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(";,?& \t", r) }) {
		p, _, _ = strings.Cut(p, "=")
		if p = strings.ToLower(p); seen[p] {
			return true
		}
		seen[p] = true
	}
	return false
}
