package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/message"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C30", Rule: "every scanning primitive at every position of all texts to a length over an alphabet with a character of every class, all sequences of primitives to a depth, and every byte, against a reference scanner", Run: c30})
}

// scan is the reference: what a primitive returns at the start of s and how
// many characters it takes. bad means it reports an error.
type scan struct {
	val string
	n   int
	bad bool
}

const tokenChars = "-.!%*_+`'~"

func isAlpha(b byte) bool { return b|0x20 >= 'a' && b|0x20 <= 'z' }
func isDigit(b byte) bool { return b >= '0' && b <= '9' }
func isToken(b byte) bool { return isAlpha(b) || isDigit(b) || strings.IndexByte(tokenChars, b) >= 0 }

func while(s string, f func(b byte) bool) scan {
	n := 0
	for n < len(s) && f(s[n]) {
		n++
	}
	return scan{val: s[:n], n: n}
}

func delimited(s string, open, shut byte) scan {
	if s == "" {
		return scan{bad: true}
	}
	if s[0] != open {
		return scan{}
	}
	for i := 1; i < len(s); i++ {
		if s[i] == '\\' {
			i++
		} else if s[i] == shut {
			return scan{val: s[1:i], n: i + 1}
		}
	}
	return scan{bad: true, n: -1}
}

func single(s string, f func(b byte) bool) scan {
	if s == "" || !f(s[0]) {
		return scan{bad: true}
	}
	return scan{val: s[:1], n: 1}
}

const (
	kwINVITE = core.CORELEXER_START + 1
	kwBYE    = core.CORELEXER_START + 2
)

func keyword(tok string) int {
	switch strings.ToUpper(tok) {
	case "A0":
		return kwINVITE
	case "Z":
		return kwBYE
	}
	return core.CORELEXER_ID
}

func firstToken(s string) (val string, typ int) {
	if t := while(s, isToken).val; t != "" {
		return t, keyword(t)
	}
	if s == "" {
		return "", 0
	}
	return s[:1], int(s[0])
}

func newLexer(s string) *core.CoreLexer {
	l := core.NewCoreLexer("t", s)
	l.AddLexer("t")
	l.AddKeyword("A0", kwINVITE)
	l.AddKeyword("Z", kwBYE)
	l.SelectLexer("t")
	return l
}

type prim struct {
	name string
	do   func(l *core.CoreLexer) (string, error)
	ref  func(s string) scan
}

func prims() []prim {
	plain := func(f func(l *core.CoreLexer) string) func(l *core.CoreLexer) (string, error) {
		return func(l *core.CoreLexer) (string, error) { return f(l), nil }
	}
	match := func(tok int) func(l *core.CoreLexer) (string, error) {
		return func(l *core.CoreLexer) (string, error) {
			t, err := l.Match(tok)
			if err != nil {
				return "", err
			}
			if t != l.GetNextToken() {
				return "", fmt.Errorf("the matched token is not the current one")
			}
			if t.GetTokenType() != tok {
				return "", fmt.Errorf("token of type %d", t.GetTokenType())
			}
			return t.GetTokenValue(), nil
		}
	}
	notNL := func(stop byte) func(s string) scan {
		return func(s string) scan { return while(s, func(b byte) bool { return b != '\n' && b != stop }) }
	}
	line := func(s string) scan {
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			return scan{val: s[:i+1], n: i + 1}
		}
		return scan{val: s, n: len(s)}
	}
	token := func(s string) scan { return while(s, isToken) }
	still := func(f func(s string) scan) func(s string) scan {
		return func(s string) scan { r := f(s); r.n = 0; return r }
	}
	peek := func(k int, consume bool) prim {
		return prim{fmt.Sprintf("PeekNextTokenK %d, consume %v", k, consume), func(l *core.CoreLexer) (string, error) {
			ts, err := l.PeekNextTokenK(k)
			if err != nil {
				return "", err
			}
			s := ""
			for _, t := range ts {
				s += fmt.Sprintf("%q %d;", t.GetTokenValue(), t.GetTokenType())
			}
			if k == 1 {
				t, err := l.PeekNextToken()
				if err != nil || t.GetTokenValue() != ts[0].GetTokenValue() || t.GetTokenType() != ts[0].GetTokenType() {
					s += " PeekNextToken differs"
				}
			}
			if consume {
				l.Consume()
			}
			return s, nil
		}, func(s string) (r scan) {
			rest := s
			for i := 0; i < k; i++ {
				v, t := firstToken(rest)
				if v == "" {
					return scan{bad: true}
				}
				r.val += fmt.Sprintf("%q %d;", v, t)
				rest = rest[len(v):]
			}
			if consume {
				r.n = len(s) - len(rest)
			}
			return
		}}
	}
	ps := []prim{
		{"Ttoken", plain(func(l *core.CoreLexer) string { return l.Ttoken() }), token},
		{"GetNextId", plain(func(l *core.CoreLexer) string { return l.GetNextId() }), token},
		{"PeekNextId", plain(func(l *core.CoreLexer) string { return l.PeekNextId() }), still(token)},
		{"PeekNextId, Consume", plain(func(l *core.CoreLexer) string { s := l.PeekNextId(); l.Consume(); return s }), token},
		{"TtokenAllowSpace", plain(func(l *core.CoreLexer) string { return l.TtokenAllowSpace() }), func(s string) scan {
			return while(s, func(b byte) bool { return isToken(b) || b == ' ' || b == '\t' })
		}},
		{"QuotedString", func(l *core.CoreLexer) (string, error) { return l.QuotedString() }, func(s string) scan { return delimited(s, '"', '"') }},
		{"Comment", func(l *core.CoreLexer) (string, error) { return l.Comment() }, func(s string) scan { return delimited(s, '(', ')') }},
		{"ByteStringNoSemicolon", plain(func(l *core.CoreLexer) string { return l.ByteStringNoSemicolon() }), notNL(';')},
		{"ByteStringNoComma", plain(func(l *core.CoreLexer) string { return l.ByteStringNoComma() }), notNL(',')},
		{"Number", func(l *core.CoreLexer) (string, error) {
			n, err := l.Number()
			return strconv.Itoa(n), err
		}, func(s string) scan {
			r := while(s, isDigit)
			r.bad = r.n == 0
			if !r.bad {
				n, _ := strconv.Atoi(r.val)
				r.val = strconv.Itoa(n)
			}
			return r
		}},
		{"GetLine", plain(func(l *core.CoreLexer) string { return l.GetLine() }), line},
		{"NextToken", plain(func(l *core.CoreLexer) string { return l.NextToken() }), line},
		{"PeekLine", plain(func(l *core.CoreLexer) string { return l.PeekLine() }), still(line)},
		{"GetRest", plain(func(l *core.CoreLexer) string { return l.GetRest() }), func(s string) scan { return scan{val: s} }},
		{"HasMoreChars", plain(func(l *core.CoreLexer) string { return fmt.Sprint(l.HasMoreChars()) }), func(s string) scan { return scan{val: fmt.Sprint(s != "")} }},
		{"StartsId", plain(func(l *core.CoreLexer) string { return fmt.Sprint(l.StartsId()) }), func(s string) scan { return scan{val: fmt.Sprint(s != "" && isToken(s[0]))} }},
		{"SPorHT", plain(func(l *core.CoreLexer) string { l.SPorHT(); return "" }), func(s string) scan {
			r := while(s, func(b byte) bool { return b == ' ' || b == '\t' })
			r.val = ""
			return r
		}},
		{"GetNextChar", func(l *core.CoreLexer) (string, error) {
			b, err := l.GetNextChar()
			return string([]byte{b}), err
		}, func(s string) scan { return single(s, func(byte) bool { return true }) }},
		{"LookAhead", func(l *core.CoreLexer) (string, error) {
			b, err := l.LookAhead()
			return string([]byte{b}), err
		}, still(func(s string) scan { return single(s, func(byte) bool { return true }) })},
		{"LookAheadK 1", func(l *core.CoreLexer) (string, error) {
			b, err := l.LookAheadK(1)
			return string([]byte{b}), err
		}, func(s string) scan {
			if len(s) < 2 {
				return scan{bad: true}
			}
			return scan{val: s[1:2]}
		}},
		{"NCharAsString 2", plain(func(l *core.CoreLexer) string { return l.NCharAsString(2) }), func(s string) scan {
			if len(s) > 2 {
				s = s[:2]
			}
			return scan{val: s}
		}},
		{"Match ID", match(core.CORELEXER_ID), func(s string) scan {
			r := token(s)
			r.bad = r.n == 0
			return r
		}},
		{"Match DIGIT", match(core.CORELEXER_DIGIT), func(s string) scan { return single(s, isDigit) }},
		{"Match ALPHA", match(core.CORELEXER_ALPHA), func(s string) scan { return single(s, isAlpha) }},
		{"Match a keyword", match(kwINVITE), func(s string) scan {
			r := token(s)
			if keyword(r.val) != kwINVITE {
				return scan{bad: true, n: -1}
			}
			return r
		}},
		{"mark, read, rewind", plain(func(l *core.CoreLexer) string {
			p := l.MarkInputPosition()
			l.QuotedString()
			l.TtokenAllowSpace()
			l.GetNextChar()
			l.RewindInputPosition(p)
			return ""
		}), func(s string) scan { return scan{} }},
		peek(1, false), peek(1, true), peek(2, false), peek(2, true), peek(3, true),
	}
	for _, ch := range []byte("\";\n\xe9") {
		ch := ch
		ps = append(ps,
			prim{fmt.Sprintf("Match %q", ch), match(int(ch)), func(s string) scan { return single(s, func(b byte) bool { return b == ch }) }},
			prim{fmt.Sprintf("GetNextTokenByDelim %q", ch), func(l *core.CoreLexer) (string, error) { return l.GetNextTokenByDelim(ch) }, func(s string) scan {
				i := strings.IndexByte(s, ch)
				if i < 0 {
					return scan{bad: true, n: -1}
				}
				return scan{val: s[:i], n: i}
			}},
			prim{fmt.Sprintf("GetString %q", ch), func(l *core.CoreLexer) (string, error) { return l.GetString(ch) }, func(s string) scan {
				v := ""
				for i := 0; i < len(s); i++ {
					switch s[i] {
					case ch:
						return scan{val: v, n: i + 1}
					case '\\':
						i++
						if i < len(s) {
							v += s[i : i+1]
						}
					default:
						v += s[i : i+1]
					}
				}
				return scan{bad: true}
			}})
	}
	return ps
}

// step applies one primitive to the lexer at position p of s, compares, and
// gives the new position, or -1 if it is not to be relied on.
func (p prim) step(k kk, l *core.CoreLexer, s string, pos int) int {
	r := p.ref(s[pos:])
	v, err := p.do(l)
	if r.bad {
		k.ok(fmt.Sprintf("%s at %d of %q gives %q and no error", p.name, pos, s, v), err != nil)
	} else {
		k.eq(fmt.Sprintf("%s at %d of %q", p.name, pos, s), v, r.val)
		k.ok(fmt.Sprintf("%s at %d of %q: %v", p.name, pos, s, err), err == nil)
	}
	if r.n < 0 {
		return -1
	}
	k.eq(fmt.Sprintf("position after %s at %d of %q", p.name, pos, s), l.GetPtr(), pos+r.n)
	return pos + r.n
}

func c30(c *mc.C) {
	ps := prims()
	alphabet := []string{"a", "Z", "0", "-", "\"", "\\", "(", ")", ";", ",", " ", "\n", "=", "\xe9"}
	depth := c.Pick(4, 5)
	c.Bound("texts", "all of up to %d over %d characters, times %d primitives at every position", depth, len(alphabet), len(ps))
	texts(alphabet, depth, func(s string) {
		if !c.Mine() {
			return
		}
		c.Run(s, func() {
			k := kk{c, s}
			for pos := 0; pos <= len(s); pos++ {
				for _, p := range ps {
					c.Step(1)
					l := newLexer(s)
					l.ConsumeK(pos)
					k.eq("position", l.GetPtr(), pos)
					p.step(k, l, s, pos)
					k.eq("text", l.GetBuffer(), s)
				}
			}
			lines := core.NewStringTokenizer(s).GetLines()
			want := strings.SplitAfter(s, "\n")
			if want[len(want)-1] == "" {
				want = want[:len(want)-1]
			}
			k.eq("number of lines", len(lines), len(want))
			for i, w := range want {
				k.eq("line "+strconv.Itoa(i), lines[i], w)
			}
			field, _, has := strings.Cut(s, "=")
			if !has {
				field = ""
			}
			k.eq("field name", core.NewStringTokenizer("").GetSDPFieldName(s), field)
			k.eq("reduced", message.ReduceString(s), strings.NewReplacer(" ", "", "\t", "").Replace(strings.ToLower(s)))
			k.eq("quoted", message.GetQuotedString(s), `"`+s+`"`)
			k.eq("hexadecimal", message.ToHexString([]byte(s)), fmt.Sprintf("%x", s))
			c30nv(k, s)
			c.State(s)
			c.Trace()
			if c.CaseNo()%4999 == 0 {
				c.Sample("%q: %d primitives at %d positions", s, len(ps), len(s)+1)
			}
		})
	})
	c30every(c, ps)
	c30long(c, ps)
	c30bytes(c)
}

// c30every applies the primitives to texts with every byte.
func c30every(c *mc.C, ps []prim) {
	forms := []string{"_", "a_b", "_;a", "\"_\"", "(_)", "\"a_\"b", "\"\\_\";", "(\\_)", "\"\\_a\\_\\\"", "\\_a", " _ \n", "0_1"}
	try := func(v string) {
		if !c.Mine() {
			return
		}
		c.Run("every byte "+strconv.QuoteToASCII(v), func() {
			for _, f := range forms {
				s := strings.ReplaceAll(f, "_", v)
				k := kk{c, s}
				for pos := 0; pos <= len(s); pos++ {
					for _, p := range ps {
						c.Step(1)
						l := newLexer(s)
						l.ConsumeK(pos)
						p.step(k, l, s, pos)
					}
				}
				c.State(s)
			}
			c.Trace()
		})
	}
	for x := 0; x < 256; x++ {
		try(string([]byte{byte(x)}))
	}
	for x := 0; x < 256; x++ {
		for y := 0; y < 256; y++ {
			if c.Thorough() || x >= ' ' && x < 0x7f && y >= ' ' && y < 0x7f && !isAlpha(byte(x)) && !isAlpha(byte(y)) {
				try(string([]byte{byte(x), byte(y)}))
			}
		}
	}
	c.Bound("texts with every byte", "%d forms with each byte and with pairs of bytes, times %d primitives at every position", len(forms), len(ps))
}

// c30nv compares the name-value parser with the reference.
func c30nv(k kk, s string) {
	p := core.NewCoreParser(s)
	nv, err := p.NameValue('=')
	name := while(s, isToken)
	rest := s[name.n:]
	ws := func(s string) string { return strings.TrimLeft(s, " \t") }
	bad := name.n == 0
	val, quoted := "", false
	if r := ws(rest); !bad {
		rest = r
		if strings.HasPrefix(rest, "=") {
			rest = ws(rest[1:])
			switch {
			case rest == "" || strings.IndexByte(";,\n", rest[0]) >= 0:
			case rest[0] == '"':
				q := delimited(rest, '"', '"')
				bad = q.bad
				if !bad {
					val, quoted, rest = q.val, true, rest[q.n:]
				}
			default:
				t := while(rest, isToken)
				bad = t.n == 0
				val, rest = t.val, rest[t.n:]
			}
		}
	}
	if bad {
		k.ok(fmt.Sprintf("name and value in %q: no error", s), err != nil)
		return
	}
	if err != nil {
		k.ok(fmt.Sprintf("name and value in %q: %v", s, err), false)
		return
	}
	k.eq("name", nv.GetName(), name.val)
	k.eq("value", nv.GetValue(), val)
	k.eq("quoted value", nv.IsValueQuoted(), quoted)
	k.eq("rest", p.GetLexer().GetRest(), rest)
}

func texts(alphabet []string, depth int, f func(s string)) {
	var rec func(s string, d int)
	rec = func(s string, d int) {
		f(s)
		if d > 0 {
			for _, a := range alphabet {
				rec(s+a, d-1)
			}
		}
	}
	rec("", depth)
}

// c30long runs all sequences of primitives over longer texts.
func c30long(c *mc.C, ps []prim) {
	longs := []string{"A0 z;x=\"q\\\"r\"\n(c\\)d)12,\xe9", "\"\" 00;-~\\;\n\n\tZ", "Aa0=9\xe9\xff;;\"a;b\" \n"}
	depth := c.Pick(3, 4)
	c.Bound("sequences of primitives", "all of up to %d of %d on %d texts", depth, len(ps), len(longs))
	for _, s := range longs {
		s := s
		var rec func(seq []int)
		rec = func(seq []int) {
			if len(seq) == depth {
				if !c.Mine() {
					return
				}
				key := fmt.Sprintf("%q:", s)
				for _, i := range seq {
					key += " " + ps[i].name + ";"
				}
				c.Run(key, func() {
					k := kk{c, key}
					l, pos := newLexer(s), 0
					for _, i := range seq {
						c.Step(1)
						if pos = ps[i].step(k, l, s, pos); pos < 0 {
							break
						}
					}
					c.Trace()
				})
				return
			}
			for i := range ps {
				rec(append(append([]int{}, seq...), i))
			}
		}
		rec(nil)
	}
}

func c30bytes(c *mc.C) {
	for i := 0; i < 256; i++ {
		b := byte(i)
		if !c.Mine() {
			continue
		}
		key := fmt.Sprintf("byte %#x", b)
		c.Run(key, func() {
			k := kk{c, key}
			c.Step(10)
			l := newLexer(string([]byte{b}))
			k.eq("letter", l.IsAlpha(b), isAlpha(b))
			k.eq("digit", l.IsDigit(b), isDigit(b))
			k.eq("hexadecimal digit", l.IsHexDigit(b), strings.IndexByte("0123456789abcdefABCDEF", b) >= 0)
			k.eq("starts an identifier", l.StartsId(), isToken(b))
			k.eq("as string", l.CharAsString(b), string([]byte{b}))
			k.eq("token", newLexer(string([]byte{b})).Ttoken(), while(string([]byte{b}), isToken).val)
			t, err := newLexer(string([]byte{b, b})).Match(i)
			k.ok("does not match itself", err == nil && t.GetTokenValue() == string([]byte{b}) && t.GetTokenType() == i)
			_, err = newLexer(string([]byte{b})).Match(int(b ^ 1))
			k.ok("matches another", err != nil)
			k.eq("hexadecimal", message.ToHexString([]byte{b, 255 - b}), fmt.Sprintf("%02x%02x", b, 255-b))
			tok := core.NewToken(string([]byte{b}), i)
			cl := tok.Clone().(*core.Token)
			cl.SetTokenValue("x")
			cl.SetTokenType(-1)
			k.eq("value of a token", tok.GetTokenValue(), string([]byte{b}))
			k.eq("type of a token", tok.GetTokenType(), i)
			k.eq("value of its clone", cl.GetTokenValue(), "x")
			k.eq("type of its clone", cl.GetTokenType(), -1)
			c.Trace()
		})
	}
	for _, n := range []string{"0", "7", "007", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999"} {
		for _, rest := range []string{"", "x", " 1", ";"} {
			key := "number " + n + rest
			if !c.Mine() {
				continue
			}
			n, rest := n, rest
			c.Run(key, func() {
				k := kk{c, key}
				l := newLexer(n + rest)
				v, err := l.Number()
				want, werr := strconv.Atoi(n)
				k.eq("accepted", err == nil, werr == nil)
				if err == nil {
					k.eq("value", v, want)
					k.eq("rest", l.GetRest(), rest)
				}
				c.Trace()
			})
		}
	}
	// keywords of several lexers
	for _, order := range [][2]string{{"one", "two"}, {"two", "one"}} {
		key := "lexers " + order[0]
		if !c.Mine() {
			continue
		}
		c.Run(key, func() {
			k := kk{c, key}
			l := core.NewCoreLexer("one", "INVITE Foo bar")
			l.AddLexer("one")
			l.AddKeyword("INVITE", kwINVITE)
			l.AddLexer("two")
			l.AddKeyword("INVITE", kwBYE)
			l.AddKeyword("FOO", core.CORELEXER_START+9)
			want := map[string]int{"one": kwINVITE, "two": kwBYE}
			for _, name := range order {
				c.Step(1)
				l.SelectLexer(name)
				k.eq("lexer", l.GetLexerName(), name)
				t, err := l.PeekNextToken()
				k.ok("no token", err == nil)
				if err == nil {
					k.eq("type in "+name, t.GetTokenType(), want[name])
				}
				k.eq("keywords of "+name, l.CurrentLexer()["INVITE"], want[name])
			}
			k.eq("name of a keyword", l.LookupToken(core.CORELEXER_START+9), "FOO")
			k.eq("name of a keyword", l.LookupToken(kwINVITE), "INVITE")
			k.eq("name of a character", l.LookupToken(';'), "59")
			l.AddLexer("one")
			k.eq("keywords added before are kept", l.CurrentLexer()["INVITE"], kwINVITE)
			c.Trace()
		})
	}
}
