package props

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C52", Rule: "every derivation of the grammar of each header and of URIs that makes at most two choices other than the first", Run: c52})
}

// sipGrammar is the grammar of header values in RFC 3261, section 25, and of
// RFC 3262, 3265, 3326 and 3515, with characters for classes of characters.
// A rule is: name = alternatives; an element is "text", a rule, [optional],
// (group), or n*m followed by an element.
const sipGrammar = `
DIGIT = "7" / "0" / "9"
ALPHA = "a" / "Z"
HEX = "a" / "0" / "f"
alnum = "k" / "0" / "Z"
SWS = "" / " " / "\t "
LWS = " " / "\t" / "  "
HCOLON = ": " / ":" / " \t: "
COMMA = "," / " ,\t"
SEMI = ";" / " ; "
EQUAL = "=" / " = "
SLASH = "/" / " / "
COLON = ":" / " : "
LAQUOT = "<"
RAQUOT = ">" / "> "
tchar = alnum / "-" / "." / "!" / "%" / "*" / "_" / "+" / "` + "\\x60" + `" / "'" / "~"
token = "tok" / 1*2tchar
wchar = tchar / "(" / ")" / "<" / ">" / ":" / "\\" / "\"" / "/" / "[" / "]" / "?" / "{" / "}"
word = "w1" / 1*2wchar
qdtext = "q" / " " / ";" / "," / "<" / ">" / "@" / ":" / "=" / "'" / "(" / ")" / "?" / "\xc3\xa9" / "!" / "[" / "]"
qpair = "\\\"" / "\\\\" / "\\x" / "\\ "
quoted = "\"" 0*2(qdtext / qpair) "\""
ctext = "c" / " " / ";" / "," / "\"" / "<" / "@" / "\xc3\xa9"
comment = "(" 1*2(ctext / "\\)") ")"
text = "Some text" / "a" / "a, b; c=\"d\" <e>" / "\xc3\xa9" / "a\tb" / "(" / "\"" / ":" / "a:b"

host = "host" / hostname / IPv4 / IPv6
hostname = 0*2(label ".") toplabel ["."]
label = "a" / "0" / "a-b" / "9z" / "a--b"
toplabel = "com" / "x" / "z-9"
IPv4 = "1.2.3.4" / "255.255.255.255" / "0.0.0.0"
IPv6 = "[::1]" / "[2001:db8::9:1]" / "[::]" / "[1:2:3:4:5:6:7:8]" / "[::ffff:1.2.3.4]" / "[1::]"
port = "5060" / "0" / "1" / "65535"
hostport = host [":" port]

mark = "-" / "_" / "." / "!" / "~" / "*" / "'" / "(" / ")"
escaped = "%41" / "%2f" / "%00" / "%E9"
uchar = alnum / mark / escaped
user = "alice" / 1*2(uchar / "&" / "=" / "+" / "$" / "," / ";" / "?" / "/")
password = "secret" / 1*2(uchar / "&" / "=" / "+" / "$" / ",")
userinfo = user [":" password] "@"
SIPURI = ("sip:" / "sips:" / "SIP:") [userinfo] hostport uparams [uheaders]
uparams = [";" uparam] [";xy" ["=1"]]
uparam = "transport=udp" / "transport=tcp" / "transport=x" / "user=phone" / "user=ip" / "method=INVITE" / "ttl=15" / "maddr=h" / "maddr=1.2.3.4" / "maddr=[::1]" / "lr" / pname ["=" pname]
pname = "p" / 1*2(uchar / "[" / "]" / "/" / ":" / "&" / "+" / "$")
uheaders = "?" uheader 0*1("&" uheader)
uheader = "h=v" / 1*2hchar "=" 0*2hchar
hchar = uchar / "[" / "]" / "/" / "?" / ":" / "+" / "$"
SIPURIplain = ("sip:" / "sips:") [userplain] hostport
userplain = "alice" [":" "secret"] "@"
scheme = "http" / "a" / "a+b-c.d9"
ric = uchar / ";" / "/" / "?" / ":" / "@" / "&" / "=" / "+" / "$" / ","
absURI = SIPURI / otherURI
otherURI = "http://h/p" / scheme ":" (hier / opaque)
hier = ("//" auth ["/" path] / "/" path) ["?" 0*2ric]
auth = "h" / "u@h" / "h:1" / "u:p@h:1" / "[::1]:1" / "" / "1.2.3.4"
path = "" / "a/b" / "a;p=1" / 1*2(uchar / ":" / "@" / "&" / "=" / "+" / "$" / ",")
opaque = "o" (1*2ric)
tel = "tel:" ("+1-212-555" / "911;phone-context=+1" / "911;phone-context=h.com" / "+1;isub=5;x=y" / "*#1;phone-context=x")

generic = token [EQUAL genvalue]
genvalue = token / host / quoted
gparams = [SEMI generic] more
more = [SEMI "xx" [EQUAL genvalue]]
spec = SIPURI / otherURI / tel
specplain = SIPURIplain / "tel:+1" / "http://h/p"
display = quoted / token LWS / token " " token LWS
nameaddr = [display] LAQUOT spec RAQUOT
addr = nameaddr / specplain
addrparams = addr gparams
tagged = addr [SEMI ("tag" EQUAL token / generic)] more
qvalue = "0" / "1" / "0.5" / "0." / "0.123" / "1.0" / "1.000" / "1."

mtype = "text" / "application" / token
media = mtype SLASH mtype mparams
mparams = [SEMI ("mp" / "m" tchar) EQUAL (token / quoted)] [SEMI "xy=1"]
range = ("*/*" / mtype SLASH "*" / mtype SLASH mtype) mparams
aparams = [SEMI ("q" EQUAL qvalue / generic)] more
lang = ("en" / "en-US" / "a-bc-def" / "zz-abcdefgh")
info = LAQUOT absURI RAQUOT [SEMI ("purpose" EQUAL ("icon" / token) / generic)] more
uriparams = LAQUOT absURI RAQUOT gparams
callid = word ["@" word]

digest = ("username" EQUAL quoted / "realm" EQUAL quoted / "nonce" EQUAL quoted / "uri" EQUAL "\"" ("sip:a@b" / "*" / "/p") "\"" / "response" EQUAL "\"0123456789abcdef0123456789abcdef\"" / "algorithm" EQUAL ("MD5" / "MD5-sess" / token) / "cnonce" EQUAL quoted / "opaque" EQUAL quoted / "qop" EQUAL ("auth" / "auth-int" / token) / "nc" EQUAL "00000001" / aparam)
digest2 = "xx" EQUAL (token / quoted)
aparam = token EQUAL (token / quoted)
credentials = ("Digest" LWS digest [COMMA digest2]) / (token LWS aparam [COMMA digest2])
chal = ("realm" EQUAL quoted / "domain" EQUAL "\"" ("sip:a" / "/p" / "sip:a http://b/c") "\"" / "nonce" EQUAL quoted / "opaque" EQUAL quoted / "stale" EQUAL ("true" / "false" / token) / "algorithm" EQUAL ("MD5" / token) / "qop" EQUAL "\"" ("auth" / "auth,auth-int" / token) "\"" / aparam)
challenge = ("Digest" LWS chal [COMMA digest2]) / (token LWS aparam [COMMA digest2])
ainfo = ("nextnonce" EQUAL quoted / "qop" EQUAL ("auth" / "auth-int" / token) / "rspauth" EQUAL "\"0f\"" / "cnonce" EQUAL quoted / "nc" EQUAL "00000001")
product = token [SLASH token]
serverval = product / comment

viaparam = "ttl" EQUAL ("1" / "255" / "0" / "007") / "maddr" EQUAL host / "received" EQUAL ("1.2.3.4" / "2001:db8::1" / "[::1]") / "branch" EQUAL token / "rport" / generic
via = ("SIP" / "sip") SLASH "2.0" SLASH ("UDP" / "TCP" / "TLS" / "SCTP" / token) LWS host [COLON port] [SEMI viaparam] more

number = "70" / "0" / "1" / "0070" / "2147483647"
method = "INVITE" / "ACK" / "PUBLISH" / token
warn = ("307" / "399" / "300") " " (hostport / token) " " quoted
event = token 0*1("." token)
date = ("Sat, 13 Nov 2010" / "Fri, 01 Jan 1999" / "Tue, 29 Feb 2000" / "Mon, 31 Dec 2035") " " ("23:29:00" / "00:00:59" / "23:59:59") " GMT"

Accept = [range aparams 0*1(COMMA range aparams)]
Accept-Encoding = [(token / "*") aparams 0*1(COMMA token aparams)]
Accept-Language = [(lang / "*") aparams 0*1(COMMA lang aparams)]
Alert-Info = uriparams 0*1(COMMA uriparams)
Allow = [method 0*2(COMMA method)]
Allow-Events = event 0*2(COMMA event)
Authorization = credentials
Authentication-Info = ainfo
Call-ID = callid
i = callid
Call-Info = info 0*1(COMMA info)
Contact = (caddr 0*1(COMMA caddr))
m = caddr
caddr = nameaddr cparams / specplain [";q=0.5"]
cparams = [SEMI ("q" EQUAL qvalue / "expires" EQUAL number / generic)] more
Content-Disposition = ("session" / "render" / token) [SEMI ("handling" EQUAL ("optional" / "required" / token) / generic)] more
Content-Encoding = token 0*2(COMMA token)
e = token
Content-Language = lang 0*2(COMMA lang)
Content-Length = number
l = number
Content-Type = media
c = media
CSeq = number LWS method
Date = date
Error-Info = uriparams 0*1(COMMA uriparams)
Event = event [SEMI ("id" EQUAL token / generic)] more
o = event
Expires = number
From = tagged
f = tagged
In-Reply-To = callid 0*2(COMMA callid)
Max-Forwards = "70" / "0" / "255" / "007"
MIME-Version = "1.0" / "0.9" / "12.34"
Min-Expires = number
Organization = [text]
Priority = "emergency" / "urgent" / "normal" / "non-urgent" / token
Proxy-Authenticate = challenge
Proxy-Authorization = credentials
Proxy-Require = token 0*2(COMMA token)
RAck = ("1" / "0070") LWS number LWS method
Reason = token [SEMI ("cause" EQUAL number / "text" EQUAL quoted / generic)] more 
Record-Route = nameaddr gparams 0*1(COMMA nameaddr gparams)
Refer-To = addr gparams
r = addr gparams
Reply-To = addr gparams
Require = token 0*2(COMMA token)
Retry-After = number [SWS comment] [SEMI ("duration" EQUAL number / generic)] more
Route = nameaddr gparams 0*1(COMMA nameaddr gparams)
RSeq = "1" / "0070" / "2147483647"
Server = serverval 0*2(LWS serverval)
Subject = [text]
s = [text]
Subscription-State = ("active" / "pending" / "terminated" / token) [SEMI ("reason" EQUAL token / "expires" EQUAL number / "retry-after" EQUAL ("1" / "070") / generic)] more
Supported = [token 0*2(COMMA token)]
k = [token 0*2(COMMA token)]
Timestamp = ("54" / "0") ["." ("" / "2" / "007")] [LWS ("" / "1") ["." ("" / "5")]]
To = tagged
t = tagged
Unsupported = token 0*2(COMMA token)
User-Agent = serverval 0*2(LWS serverval)
Via = via 0*1(COMMA via)
v = via
Warning = warn 0*1(COMMA warn)
WWW-Authenticate = challenge
Request-Line = method " " spec " SIP/2.0"
Status-Line = "SIP/2.0 " ("200" / "100" / "699" / "487") " " [reason]
reason = "OK" / 1*2rchar / rchar " " rchar
rchar = (alnum / mark / ";" / "/" / "?" / ":" / "@" / "&" / "=" / "+" / "$" / "," / "%41" / "\xc3\xa9" / "(" / ")" / "\"" / "<")
`

// gram is a node of a grammar.
type gram struct {
	kind     byte // 't' text, 'r' rule, 's' sequence, 'a' alternatives, '*' repetition
	text     string
	of       []*gram
	min, max int
}

type grammar struct {
	rules map[string]*gram
	order []string
	memo  map[string][]string
}

func parseGrammar(src string) *grammar {
	g := &grammar{rules: map[string]*gram{}, memo: map[string][]string{}}
	for _, l := range strings.Split(src, "\n") {
		name, def, ok := strings.Cut(l, " = ")
		if !ok {
			continue
		}
		p := &gparse{s: def}
		g.rules[name] = p.alternatives()
		if p.skip(); p.i != len(p.s) {
			panic("grammar: " + l + " at " + p.s[p.i:])
		}
		g.order = append(g.order, name)
	}
	return g
}

type gparse struct {
	s string
	i int
}

func (p *gparse) skip() byte {
	for p.i < len(p.s) && p.s[p.i] == ' ' {
		p.i++
	}
	if p.i == len(p.s) {
		return 0
	}
	return p.s[p.i]
}

func (p *gparse) alternatives() *gram {
	a := &gram{kind: 'a'}
	for {
		a.of = append(a.of, p.sequence())
		if p.skip() != '/' {
			break
		}
		p.i++
	}
	if len(a.of) == 1 {
		return a.of[0]
	}
	return a
}

func (p *gparse) sequence() *gram {
	s := &gram{kind: 's'}
	for {
		switch b := p.skip(); {
		case b == 0 || b == '/' || b == ')' || b == ']':
			if len(s.of) == 1 {
				return s.of[0]
			}
			return s
		default:
			s.of = append(s.of, p.element())
		}
	}
}

func (p *gparse) element() *gram {
	switch b := p.s[p.i]; {
	case b == '"':
		j := p.i + 1
		for p.s[j] != '"' {
			if p.s[j] == '\\' {
				j++
			}
			j++
		}
		var t string
		if _, err := fmt.Sscanf(p.s[p.i:j+1], "%q", &t); err != nil {
			panic("grammar: " + p.s[p.i:j+1])
		}
		p.i = j + 1
		return &gram{kind: 't', text: t}
	case b == '[':
		p.i++
		x := p.alternatives()
		p.i++
		return &gram{kind: '*', of: []*gram{x}, min: 0, max: 1}
	case b == '(':
		p.i++
		x := p.alternatives()
		p.i++
		return x
	case isDigit(b):
		n, m := int(b-'0'), int(p.s[p.i+2]-'0')
		p.i += 3
		return &gram{kind: '*', of: []*gram{p.element()}, min: n, max: m}
	default:
		j := p.i
		for p.i < len(p.s) && strings.IndexByte(" /()[]\"", p.s[p.i]) < 0 {
			p.i++
		}
		return &gram{kind: 'r', text: p.s[j:p.i]}
	}
}

// derive gives the texts of x with exactly n choices other than the first.
func (g *grammar) derive(x *gram, n int) []string {
	switch x.kind {
	case 't':
		if n == 0 {
			return []string{x.text}
		}
		return nil
	case 'r':
		r, ok := g.rules[x.text]
		if !ok {
			panic("grammar: no " + x.text)
		}
		k := fmt.Sprint(x.text, " ", n)
		if v, ok := g.memo[k]; ok {
			return v
		}
		v := uniq(g.derive(r, n))
		g.memo[k] = v
		return v
	case 'a':
		v := g.derive(x.of[0], n)
		if n > 0 {
			for _, a := range x.of[1:] {
				v = append(append([]string{}, v...), g.derive(a, n-1)...)
			}
		}
		return v
	case 's':
		return g.sequence(x.of, n)
	}
	v := g.times(x.of[0], x.min, n)
	for m := x.min + 1; m <= x.max && n > 0; m++ {
		v = append(append([]string{}, v...), g.times(x.of[0], m, n-1)...)
	}
	return v
}

func (g *grammar) times(x *gram, m, n int) []string {
	xs := make([]*gram, m)
	for i := range xs {
		xs[i] = x
	}
	return g.sequence(xs, n)
}

func (g *grammar) sequence(xs []*gram, n int) (v []string) {
	if len(xs) == 0 {
		if n == 0 {
			return []string{""}
		}
		return nil
	}
	for i := 0; i <= n; i++ {
		heads := g.derive(xs[0], i)
		if len(heads) == 0 {
			continue
		}
		tails := g.sequence(xs[1:], n-i)
		for _, h := range heads {
			for _, t := range tails {
				v = append(v, h+t)
			}
		}
	}
	return v
}

func uniq(v []string) (u []string) {
	seen := map[string]bool{}
	for _, s := range v {
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

func c52(c *mc.C) {
	g := parseGrammar(sipGrammar)
	depth := c.Pick(5, 6)
	n := map[bool]int{}
	headerRules(g, func(name string) {
		line := strings.HasSuffix(name, "-Line")
		for d := 0; d <= depth; d++ {
			for _, v := range g.derive(&gram{kind: 'r', text: name}, d) {
				n[line]++
				if !c.Mine() {
					continue
				}
				if line {
					c.Run(v, func() { c52Line(c, v) })
				} else {
					c.Run(name+": "+v, func() { c52Header(c, name+": "+v) })
				}
			}
		}
		clear(g.memo)
	})
	c.Bound("header lines", "%d: all with up to %d choices", n[false], depth)
	c.Bound("start lines", "%d: all with up to %d choices", n[true], depth)
}

// headerRules calls f with the rules of headers and start lines.
func headerRules(g *grammar, f func(name string)) {
	begun := false
	for _, name := range g.order {
		begun = begun || name == "Accept"
		if begun && name != "cparams" && name != "caddr" && name != "reason" && name != "rchar" {
			f(name)
		}
	}
}

func c52Header(c *mc.C, key string) {
	c.Step(1)
	h, err := parser.NewStringMsgParser().ParseSIPHeader(key)
	if !c.Check(err == nil && !isNil(h), key, "rejected: %q", fmt.Sprint(err)) {
		return
	}
	enc := h.String()
	again, err := parser.NewStringMsgParser().ParseSIPHeader(enc)
	if c.Check(err == nil && !isNil(again), key, "its encoding %q is rejected: %q", enc, fmt.Sprint(err)) {
		c.Eq(key, "encoded again", c52Bare(again.String()), c52Bare(enc))
		c.Eq(key, "read and encoded", c52Same(enc), c52Same(key))
	}
	c.State(enc)
	c.Trace()
}

func c52Line(c *mc.C, key string) {
	c.Step(1)
	const rest = "\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>\r\nCall-ID: c\r\nCSeq: 1 %s\r\nMax-Forwards: 70\r\n\r\n"
	m := fmt.Sprintf(rest, "INVITE")
	if !strings.HasPrefix(strings.ToUpper(key), "SIP/") {
		method, _, _ := strings.Cut(key, " ")
		m = fmt.Sprintf(rest, method)
	}
	x, err := parseMsg(key + m)
	if !c.Check(err == nil, key, "rejected: %q", fmt.Sprint(err)) {
		return
	}
	enc, _, _ := strings.Cut(x.String(), "\r\n")
	c.Eq(key, "read and encoded", c52Scheme.ReplaceAllStringFunc(enc, strings.ToLower), c52Scheme.ReplaceAllStringFunc(key, strings.ToLower))
	c.State(enc)
	c.Trace()
}

// c52Bare drops the '=' of parameters without a value: an encoding has it
// after some valueless parameters only.
func c52Bare(s string) string {
	for _, end := range []string{";", ",", "\r\n"} {
		s = strings.ReplaceAll(s, "="+end, end)
	}
	return s
}

var (
	c52Via    = regexp.MustCompile(`(?i)(^|,)SIP/2\.0/[^ ]*`)
	c52Name   = regexp.MustCompile(`;[^=;,]*`)
	c52Empty  = regexp.MustCompile(`(^|[ \t,])""[ \t]*<`)
	c52Scheme = regexp.MustCompile(`SIPS?:`)
	c52Quotes = regexp.MustCompile(`"([- 0-9A-Za-z.!%*_+'~` + "`" + `]*)"`)
)

var c52Zeros = regexp.MustCompile(`(^|[^0-9A-Za-z.%])0+([0-9])`)
var c52Point = regexp.MustCompile(`([0-9])\.0*([^0-9A-Za-z]|$)`)

// c52Same gives what a header line says, however it is spelled: with the
// long name, without the white space that means nothing, without the brackets
// around an address, and with numbers in their shortest form.
func c52Same(s string) string {
	name, rest, _ := strings.Cut(strings.TrimRight(s, "\r\n"), ":")
	if long, ok := c52Long[name]; ok {
		name = long
	}
	rest = c52Empty.ReplaceAllString(rest, "$1<")
	var out []byte
	var quoted, comment bool
	words := name == "In-Reply-To" || name == "Call-ID"
	comments := name == "Retry-After" || name == "Server" || name == "User-Agent"
	seps := ";,=/<>:()@[] "
	for i := 0; i < len(rest); i++ {
		b := rest[i]
		switch {
		case (quoted || comment) && b == '\\' && i+1 < len(rest):
			out = append(out, b, rest[i+1])
			i++
			continue
		case comments && (b == '(' || b == ')'):
			comment = b == '('
			if comment && len(out) > 0 && out[len(out)-1] == ' ' {
				out = out[:len(out)-1]
			}
		case b == '"' && !words && !comment:
			if !quoted && len(out) > 0 && out[len(out)-1] == ' ' {
				out = out[:len(out)-1]
			}
			quoted = !quoted
		case quoted || comment:
		case b == '\t' || b == ' ' || b == '<':
			b = ' '
			if len(out) == 0 || strings.IndexByte(seps, out[len(out)-1]) >= 0 {
				continue
			}
		case b == '>':
			continue
		case strings.IndexByte(seps, b) >= 0 && len(out) > 0 && out[len(out)-1] == ' ':
			out = out[:len(out)-1]
		}
		out = append(out, b)
	}
	s = strings.TrimRight(string(out), " ")
	switch name {
	case "Timestamp":
		s = strings.ReplaceAll(s, " .", " 0.")
	case "CSeq":
		s = strings.ToUpper(s)
	case "Via":
		s = c52Via.ReplaceAllStringFunc(s, strings.ToUpper)
		s = c52Name.ReplaceAllStringFunc(s, strings.ToLower)
	}
	s = c52Scheme.ReplaceAllStringFunc(name+":"+s, strings.ToLower)
	s = c52Quotes.ReplaceAllString(s, "$1")
	s = c52Point.ReplaceAllString(c52Zeros.ReplaceAllString(s, "$1$2"), "$1$2")
	return c52Bare(s + "\r\n")
}

var c52Long = map[string]string{"i": "Call-ID", "m": "Contact", "e": "Content-Encoding", "l": "Content-Length", "c": "Content-Type", "f": "From", "o": "Event", "r": "Refer-To", "s": "Subject", "k": "Supported", "t": "To", "v": "Via"}
