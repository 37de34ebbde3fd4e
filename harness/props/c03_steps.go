package props

import (
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C03", Rule: "every step of the URI parser at every position of all texts to a length over an alphabet with a character of every class, all pairs of steps one after the other, and every byte, against a reference scanner", Run: c03})
}

const (
	uriMark     = "-_.!~*'()"
	uriReserved = ";/?:@&=+$,"
)

func isUnreserved(b byte) bool {
	return isAlpha(b) || isDigit(b) || strings.IndexByte(uriMark, b) >= 0
}

func in(set string) func(b byte) bool {
	return func(b byte) bool { return strings.IndexByte(set, b) >= 0 }
}

// escapedAt tells whether s starts with an escape.
func escapedAt(s string) bool { return len(s) > 2 && s[0] == '%' && isHex(s[1]) && isHex(s[2]) }

// uriChars takes characters of a set and escapes.
func uriChars(f func(b byte) bool, max int) func(s string) scan {
	return func(s string) scan {
		n := 0
		for i := 0; n < len(s) && i < max; i++ {
			if escapedAt(s[n:]) {
				n += 3
			} else if f(s[n]) {
				n++
			} else {
				break
			}
		}
		return scan{val: s[:n], n: n}
	}
}

type ustep struct {
	name string
	do   func(p *parser.URLParser) (string, error)
	ref  func(s string) scan
}

func usteps() []ustep {
	const all = 1 << 30
	must := func(f func(s string) scan) func(s string) scan {
		return func(s string) scan {
			r := f(s)
			r.bad = r.n == 0
			return r
		}
	}
	or := func(f func(b byte) bool, set string) func(b byte) bool {
		return func(b byte) bool { return f(b) || strings.IndexByte(set, b) >= 0 }
	}
	plain := func(f func(p *parser.URLParser) string) func(p *parser.URLParser) (string, error) {
		return func(p *parser.URLParser) (string, error) { return f(p), nil }
	}
	chars := func(f func(b byte) bool, max int) func(s string) scan {
		return func(s string) scan {
			n := 0
			for n < len(s) && n < max && f(s[n]) {
				n++
			}
			return scan{val: s[:n], n: n}
		}
	}
	paramChar := or(isUnreserved, "[]/:&+$")
	hvalueChar := or(isUnreserved, "+?:[]/$\"")
	pair := func(x *core.NameValue, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%q=%v", x.GetName(), x.GetValue()), nil
	}
	return []ustep{
		{"Unreserved", func(p *parser.URLParser) (string, error) { return p.Unreserved() }, must(chars(isUnreserved, 1))},
		{"Reserved", func(p *parser.URLParser) (string, error) { return p.Reserved() }, must(chars(in(uriReserved), 1))},
		{"Mark", func(p *parser.URLParser) (string, error) { return p.Mark() }, must(chars(in(uriMark), 1))},
		{"Escaped", func(p *parser.URLParser) (string, error) { return p.Escaped() }, must(uriChars(func(byte) bool { return false }, 1))},
		{"IsEscaped", plain(func(p *parser.URLParser) string { return fmt.Sprint(p.IsEscaped()) }), func(s string) scan { return scan{val: fmt.Sprint(escapedAt(s))} }},
		{"Uric", plain(func(p *parser.URLParser) string { return p.Uric() }), uriChars(or(isUnreserved, uriReserved), 1)},
		{"UricNoSlash", plain(func(p *parser.URLParser) string { return p.UricNoSlash() }), uriChars(or(isUnreserved, strings.Replace(uriReserved, "/", "", 1)), 1)},
		{"UricString", plain(func(p *parser.URLParser) string { return p.UricString() }), uriChars(or(isUnreserved, uriReserved), all)},
		{"ParamNameOrValue", func(p *parser.URLParser) (string, error) { return p.ParamNameOrValue() }, uriChars(paramChar, all)},
		{"UriParam", func(p *parser.URLParser) (string, error) { return pair(p.UriParam()) }, func(s string) scan {
			n := uriChars(paramChar, all)(s)
			if n.n == len(s) || s[n.n] != '=' {
				return scan{val: fmt.Sprintf("%q=%v", n.val, nil), n: n.n}
			}
			v := uriChars(paramChar, all)(s[n.n+1:])
			return scan{val: fmt.Sprintf("%q=%v", n.val, v.val), n: n.n + 1 + v.n}
		}},
		{"Hvalue", func(p *parser.URLParser) (string, error) { return p.Hvalue() }, uriChars(hvalueChar, all)},
		{"Qheader", func(p *parser.URLParser) (string, error) { return pair(p.Qheader()) }, func(s string) scan {
			n := uriChars(hvalueChar, all)(s)
			if n.n == len(s) || s[n.n] != '=' {
				return scan{bad: true, n: -1}
			}
			v := uriChars(hvalueChar, all)(s[n.n+1:])
			return scan{val: fmt.Sprintf("%q=%v", n.val, v.val), n: n.n + 1 + v.n}
		}},
		{"User", func(p *parser.URLParser) (string, error) { return p.User() }, uriChars(or(isUnreserved, "&=+$,;?/"), all)},
		{"Password", func(p *parser.URLParser) (string, error) { return p.Password() }, uriChars(or(isUnreserved, "&=+$,"), all)},
		{"UrlString", func(p *parser.URLParser) (string, error) { return p.UrlString() }, chars(func(b byte) bool { return strings.IndexByte(" \t\n<>", b) < 0 }, all)},
		{"Base_phone_number", func(p *parser.URLParser) (string, error) { return p.Base_phone_number() }, must(chars(or(isDigit, "-.()"), all))},
		{"Local_number", func(p *parser.URLParser) (string, error) { return p.Local_number() }, must(chars(or(isDigit, "-.()*#"), all))},
		{"PeekScheme", func(p *parser.URLParser) (string, error) { return p.PeekScheme() }, func(s string) scan {
			v, _ := firstToken(s)
			return scan{val: v}
		}},
	}
}

// c03: each step of the URI parser takes exactly what it stands for.
func c03(c *mc.C) {
	ps := usteps()
	step := ustepAt
	alphabet := []string{"a", "F", "0", "-", "%", "%2b", "/", "?", ":", "@", "&", "=", "+", ";", ",", "[", "(", "*", "#", "\"", " ", "<", "_", "\n", "\xe9"}
	depth := c.Pick(3, 4)
	c.Bound("texts", "all of up to %d over %d characters, times %d steps at every position", depth, len(alphabet), len(ps))
	texts(alphabet, depth, func(s string) {
		if !c.Mine() {
			return
		}
		c.Run(s, func() {
			k := kk{c, s}
			for pos := 0; pos <= len(s); pos++ {
				for _, p := range ps {
					c.Step(1)
					u := parser.NewURLParser(s)
					u.GetLexer().ConsumeK(pos)
					if e := step(k, u, p, s, pos); pos == 0 && e >= 0 && len(s) > 1 {
						for _, q := range ps {
							u := parser.NewURLParser(s)
							p.do(u)
							step(k, u, q, s, e)
						}
					}
				}
			}
			c.State(s)
			c.Trace()
		})
	})
	for i := 0; i < 256; i++ {
		if !c.Mine() {
			continue
		}
		b := byte(i)
		key := fmt.Sprintf("byte %#x", i)
		c.Run(key, func() {
			k := kk{c, key}
			u := parser.NewURLParser("")
			k.eq("mark", u.IsMark(b), in(uriMark)(b))
			k.eq("unreserved", u.IsUnreserved(b), isUnreserved(b))
			k.eq("reserved", u.IsReserved(b), in(uriReserved)(b))
			k.eq("reserved but for the slash", u.IsReservedNoSlash(b), b != '/' && in(uriReserved)(b))
			k.eq("in a user", u.IsUserUnreserved(b), in("&=+$,;?/")(b))
			for _, pre := range []string{"", "a", "%4", "%", "0"} {
				for _, post := range []string{"", "a", "0"} {
					s := pre + string([]byte{b}) + post
					for _, p := range ps {
						c.Step(1)
						step(k, parser.NewURLParser(s), p, s, 0)
					}
				}
			}
			c.State(key)
			c.Trace()
		})
	}
}

// ustepAt applies one step at position p of s, compares, and gives the new
// position, or -1 if it is not to be relied on.
func ustepAt(k kk, u *parser.URLParser, p ustep, s string, pos int) int {
	r := p.ref(s[pos:])
	v, err := p.do(u)
	if r.bad {
		k.ok(fmt.Sprintf("%s at %d of %q gives %q and no error", p.name, pos, s, v), err != nil)
	} else {
		k.eq(fmt.Sprintf("%s at %d of %q", p.name, pos, s), v, r.val)
		k.ok(fmt.Sprintf("%s at %d of %q: %v", p.name, pos, s, err), err == nil)
	}
	if r.n < 0 {
		return -1
	}
	k.eq(fmt.Sprintf("position after %s at %d of %q", p.name, pos, s), u.GetLexer().GetPtr(), pos+r.n)
	return pos + r.n
}
