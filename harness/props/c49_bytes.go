package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C49", Rule: "every part of a URI, start line and header with a grammar of characters x (each byte alone, first, inside and last; all pairs of bytes; % followed by all pairs of bytes; in quoted strings and comments a backslash before every character), read as a whole by the part exactly if its grammar has all the characters", Run: c49})
}

// place is a part of a text whose grammar is a set of characters.
type place struct {
	name       string
	in         func(v string) string
	read       func(in string) (string, bool)
	has        string // characters besides
	alnum      bool
	not, undef string // characters left out; characters nothing is said of
	high       int    // 1: bytes from 0x80 on belong to it, -1: nothing is said of them
	esc        bool   // % and two hexadecimal digits belong to it
	a, b       string // what may stand before and after in it
	inside     bool   // only tried between a and b
	all        bool   // all printable characters and blanks
	atLeast    bool   // more may be taken than the grammar allows
	pair       bool   // a backslash and any character belong to it
}

const (
	marks     = "-_.!~*'()"
	tokenMore = "-.!%*_+`'~"
)

func (p *place) class(b byte) (in, known bool) {
	if strings.IndexByte(p.undef, b) >= 0 {
		return false, false
	}
	if strings.IndexByte(p.not, b) >= 0 {
		return false, true
	}
	if b >= 0x80 && !p.atLeast {
		return p.high == 1, p.high != -1
	}
	if p.alnum && (b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z') {
		return true, true
	}
	if p.all && b >= ' ' && b < 0x7f {
		return true, true
	}
	in = strings.IndexByte(p.has, b) >= 0
	return in, in || !p.atLeast
}

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

// belongs decides whether v is a text of the part.
func (p *place) belongs(v string) (in, known bool) {
	if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' { // a quoted text may stand for a token
		return false, false
	}
	in, known = true, true
	for i := 0; i < len(v); i++ {
		if p.esc && v[i] == '%' {
			if i+2 < len(v) && isHex(v[i+1]) && isHex(v[i+2]) {
				i += 2
				continue
			}
			return false, true
		}
		if p.pair && v[i] == '\\' && i+1 < len(v) && (v[i+1] == '\t' || v[i+1] >= ' ' && v[i+1] < 0x7f) {
			i++
			continue
		}
		a, k := p.class(v[i])
		if !k {
			known = false
		}
		in = in && a
	}
	if !known {
		return false, false
	}
	return in, true
}

// ask calls a method that gives a value and perhaps an error.
func ask(v interface{}, method string, args ...string) (string, bool) {
	m := reflect.ValueOf(v).MethodByName(method)
	if !m.IsValid() {
		return fmt.Sprintf("%T has no %s", v, method), true
	}
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	r := m.Call(in)
	if len(r) == 0 {
		return "", false
	}
	return fmt.Sprint(r[0].Interface()), true
}

func places() (ps []*place) {
	add := func(p *place) {
		if p.a == "" && p.b == "" {
			p.a, p.b = "a", "b"
		}
		ps = append(ps, p)
	}
	// URIs
	uri := func(get func(u *address.SipURIImpl) (string, bool)) func(in string) (string, bool) {
		return func(in string) (string, bool) {
			u, err := parser.NewStringMsgParser().ParseSIPUrl(in)
			if err != nil || u == nil {
				return "", false
			}
			return get(u)
		}
	}
	add(&place{name: "user", in: func(v string) string { return "sip:" + v + "@h" }, read: uri(func(u *address.SipURIImpl) (string, bool) { return u.GetUser(), u.GetHost() == "h" }), alnum: true, has: marks + "&=+$,;?/", esc: true})
	add(&place{name: "password", in: func(v string) string { return "sip:u:" + v + "@h" }, read: uri(func(u *address.SipURIImpl) (string, bool) { return u.GetUserPassword(), u.GetHost() == "h" }), alnum: true, has: marks + "&=+$,", esc: true})
	add(&place{name: "host", in: func(v string) string { return "sip:u@" + v + ";x" }, read: uri(func(u *address.SipURIImpl) (string, bool) { return u.GetHost(), u.HasParameter("x") }), alnum: true, has: "-.", inside: true})
	add(&place{name: "port", in: func(v string) string { return "sip:u@h:" + v + ";x" }, read: uri(func(u *address.SipURIImpl) (string, bool) { return strconv.Itoa(u.GetPort()), u.HasParameter("x") }), has: "0123456789", a: "1", b: "2", inside: true})
	add(&place{name: "URI parameter name", in: func(v string) string { return "sip:h;" + v + "=1" }, read: uri(func(u *address.SipURIImpl) (string, bool) {
		l := u.GetParameterNames()
		if l.Len() != 1 || u.GetQheaders().Len() != 0 {
			return "", false
		}
		s := fmt.Sprint(l.Front().Value)
		return s, u.GetParameter(s) == "1"
	}), alnum: true, has: marks + "[]/:&+$", esc: true})
	add(&place{name: "URI parameter value", in: func(v string) string { return "sip:h;x=" + v }, read: uri(func(u *address.SipURIImpl) (string, bool) {
		return u.GetParameter("x"), u.GetParameterNames().Len() == 1 && u.GetQheaders().Len() == 0
	}), alnum: true, has: marks + "[]/:&+$", esc: true})
	add(&place{name: "URI header name", in: func(v string) string { return "sip:h?" + v + "=1" }, read: uri(func(u *address.SipURIImpl) (string, bool) {
		l := u.GetHeaderNames()
		if l.Len() != 1 {
			return "", false
		}
		v, ok := l.Front().Value.(*core.NameValue)
		if !ok {
			return fmt.Sprint(l.Front().Value), u.GetHeader(fmt.Sprint(l.Front().Value)) == "1"
		}
		return v.GetName(), u.GetHeader(v.GetName()) == "1"
	}), alnum: true, has: marks + "[]/?:+$", undef: `"`, esc: true})
	add(&place{name: "URI header value", in: func(v string) string { return "sip:h?x=" + v }, read: uri(func(u *address.SipURIImpl) (string, bool) { return u.GetHeader("x"), u.GetQheaders().Len() == 1 }), alnum: true, has: marks + "[]/?:+$", undef: `"`, esc: true})
	tel := func(get func(u *address.TelURLImpl) (string, bool)) func(in string) (string, bool) {
		return func(in string) (string, bool) {
			u, err := parser.NewURLParser(in).Parse()
			t, ok := u.(*address.TelURLImpl)
			if err != nil || !ok || t == nil {
				return "", false
			}
			if w, err := parser.NewStringMsgParser().ParseUrl(in); err != nil || w == nil {
				return "", false
			}
			return get(t)
		}
	}
	add(&place{name: "global number", in: func(v string) string { return "tel:+" + v + ";x=1" }, read: tel(func(u *address.TelURLImpl) (string, bool) {
		return u.GetPhoneNumber(), u.IsGlobal() && u.GetParameter("x") == "1"
	}), has: "0123456789-.()", a: "1", b: "2"})
	add(&place{name: "local number", in: func(v string) string { return "tel:" + v + ";x=1" }, read: tel(func(u *address.TelURLImpl) (string, bool) {
		return u.GetPhoneNumber(), !u.IsGlobal() && u.GetParameter("x") == "1"
	}), has: "0123456789-.()*#", a: "1", b: "2"})
	add(&place{name: "tel parameter name", in: func(v string) string { return "tel:1;" + v + "=2" }, read: tel(func(u *address.TelURLImpl) (string, bool) {
		l := u.GetParameterNames()
		if l.Len() != 1 {
			return "", false
		}
		s := fmt.Sprint(l.Front().Value)
		return s, u.GetParameter(s) == "2"
	}), alnum: true, has: tokenMore})
	add(&place{name: "tel parameter value", in: func(v string) string { return "tel:1;x=" + v + ";y=2" }, read: tel(func(u *address.TelURLImpl) (string, bool) { return u.GetParameter("x"), u.GetParameter("y") == "2" }), alnum: true, has: tokenMore, undef: `"?`})
	gen := func(get func(u address.URI) (string, bool)) func(in string) (string, bool) {
		return func(in string) (string, bool) {
			u, err := parser.NewStringMsgParser().ParseUrl(in)
			if err != nil || u == nil {
				return "", false
			}
			return get(u)
		}
	}
	add(&place{name: "scheme", in: func(v string) string { return v + ":x" }, read: gen(func(u address.URI) (string, bool) { return u.GetScheme(), u.String() == u.GetScheme()+":x" }), alnum: true, has: "+-.", inside: true, atLeast: true})
	add(&place{name: "text of any URI", in: func(v string) string { return "http:" + v }, read: gen(func(u address.URI) (string, bool) { return strings.TrimPrefix(u.String(), "http:"), true }), alnum: true, has: marks + ";/?:@&=+$,", esc: true})
	// hosts alone
	add(&place{name: "host alone", in: func(v string) string { return v }, read: func(in string) (string, bool) {
		h, err := parser.NewStringMsgParser().ParseHost(in)
		if err != nil || h == nil {
			return "", false
		}
		return h.String(), true
	}, alnum: true, has: "-.", inside: true, a: "a", b: "b"})
	add(&place{name: "host before its port", in: func(v string) string { return v + ":99" }, read: func(in string) (string, bool) {
		h, err := core.NewHostNameParser(in).GetHostPort()
		if err != nil || h == nil {
			return "", false
		}
		return h.GetHost().String(), h.GetPort() == 99
	}, alnum: true, has: "-.", inside: true, a: "a", b: "b"})
	add(&place{name: "IPv6 address", in: func(v string) string { return "[" + v + "]:99" }, read: func(in string) (string, bool) {
		h, err := parser.NewStringMsgParser().ParseHostPort(in)
		if err != nil || h == nil {
			return "", false
		}
		return strings.Trim(h.GetHost().String(), "[]"), h.GetPort() == 99
	}, has: "0123456789abcdef:", undef: "ABCDEF.", inside: true, a: "1:2:3:4:5:6:7:a", b: "b"})
	// start lines
	rl := func(get func(l *header.RequestLine) (string, bool)) func(in string) (string, bool) {
		return func(in string) (string, bool) {
			l, err := parser.NewStringMsgParser().ParseSIPRequestLine(in)
			if err != nil || l == nil {
				return "", false
			}
			return get(l)
		}
	}
	add(&place{name: "method of a request line", in: func(v string) string { return v + " sip:h SIP/2.0" }, read: rl(func(l *header.RequestLine) (string, bool) {
		return l.GetMethod(), l.GetUri() != nil && l.GetUri().String() == "sip:h"
	}), alnum: true, has: tokenMore})
	sl := func(get func(l *header.StatusLine) (string, bool)) func(in string) (string, bool) {
		return func(in string) (string, bool) {
			l, err := parser.NewStringMsgParser().ParseSIPStatusLine(in)
			if err != nil || l == nil {
				return "", false
			}
			return get(l)
		}
	}
	add(&place{name: "status code", in: func(v string) string { return "SIP/2.0 " + v + " R" }, read: sl(func(l *header.StatusLine) (string, bool) {
		return strconv.Itoa(l.GetStatusCode()), l.GetReasonPhrase() == "R"
	}), has: "0123456789", a: "2", b: "1", inside: true})
	add(&place{name: "reason phrase", in: func(v string) string { return "SIP/2.0 200 " + v }, read: sl(func(l *header.StatusLine) (string, bool) { return l.GetReasonPhrase(), l.GetStatusCode() == 200 }), all: true, has: "\t", high: 1, inside: true, undef: "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f\r\n", a: "a", b: "b"})
	// headers
	one := func(get func(h header.Header) (string, bool)) func(in string) (string, bool) {
		return func(in string) (string, bool) {
			v, err := parser.NewStringMsgParser().ParseSIPHeader(in)
			if err != nil || isNil(v) {
				return "", false
			}
			es := elements(v)
			if len(es) != 1 {
				return "", false
			}
			return get(es[0])
		}
	}
	h := func(name, before, after string, p place, get func(h header.Header) (string, bool)) {
		p.name = strings.TrimSpace(name+": "+before) + "_" + after
		p.in = func(v string) string { return name + ": " + before + v + after }
		p.read = one(get)
		add(&p)
	}
	by := func(method string, args ...string) func(h header.Header) (string, bool) {
		return func(h header.Header) (string, bool) { return ask(h, method, args...) }
	}
	param := func(n, also string) func(h header.Header) (string, bool) {
		return func(h header.Header) (string, bool) {
			hp, ok := h.(hasParams)
			if !ok {
				return fmt.Sprintf("%T has no parameters", h), true
			}
			return hp.GetParameter(n), also == "" || hp.HasParameter(also)
		}
	}
	pname := func(h header.Header) (string, bool) {
		s := h.String()
		i, j := strings.LastIndex(s, ";"), strings.LastIndex(s, "=1\r\n")
		if i < 0 || j < i {
			return "", false
		}
		n := s[i+1 : j]
		hp, ok := h.(hasParams)
		return n, ok && hp.GetParameter(n) == "1"
	}
	tok := place{alnum: true, has: tokenMore}
	tokIn := tok
	tokIn.inside = true
	ctl := "\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f"
	text := place{all: true, has: "\t", high: 1, undef: "\x00" + ctl + "\r\n"}
	qtext := text
	qtext.not = `"`
	qtext.undef += `\`
	qtext.pair = true
	ctext := text
	ctext.not = ""
	ctext.undef += `\()`
	ctext.pair = true
	plain := text
	plain.inside = true
	h("CSeq", "1 ", "", tok, by("GetMethod"))
	h("RAck", "1 2 ", "", tok, by("GetMethod"))
	h("Via", "SIP/2.0/", " h", tok, func(h header.Header) (string, bool) {
		s, ok := ask(h, "GetTransport")
		return strings.ToLower(s), ok
	})
	ps[len(ps)-1].alnum, ps[len(ps)-1].has, ps[len(ps)-1].undef = false, "abcdefghijklmnopqrstuvwxyz0123456789"+tokenMore, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	h("Via", "SIP/2.0/UDP h;branch=", ";x=1", tok, func(h header.Header) (string, bool) {
		s, ok := ask(h, "GetBranch")
		hp := h.(hasParams)
		return s, ok && hp.HasParameter("x")
	})
	h("Via", "SIP/2.0/UDP ", ";x=1", place{alnum: true, has: "-.", inside: true}, func(h header.Header) (string, bool) {
		v := h.(*header.Via)
		return v.GetHost(), v.HasParameter("x")
	})
	h("Via", "SIP/2.0/UDP h (", ")", ctext, by("GetComment"))
	word := place{atLeast: true, alnum: true, has: tokenMore + `()<>:\"/[]?{}`}
	h("Call-ID", "", "", word, by("GetCallId"))
	h("Call-ID", "", "@h", word, by("GetCallId"))
	cidAt := ps[len(ps)-1]
	cidAt.read = one(func(h header.Header) (string, bool) {
		s, _ := ask(h, "GetCallId")
		return strings.TrimSuffix(s, "@h"), strings.HasSuffix(s, "@h")
	})
	h("From", "<sip:a@b>;tag=", "", tok, by("GetTag"))
	h("From", "<sip:a@b>;tag=", ";x=1", tok, by("GetTag"))
	h("To", "<sip:a@b>;tag=", "", tok, by("GetTag"))
	name := func(h header.Header) (string, bool) {
		a, ok := h.(interface{ GetAddress() address.Address })
		if !ok || isNil(a.GetAddress()) {
			return "", false
		}
		return a.GetAddress().GetDisplayName(), a.GetAddress().GetURI() != nil && a.GetAddress().GetURI().String() == "sip:a@b"
	}
	for _, n := range []string{"From", "To", "Contact", "Reply-To", "Refer-To", "Route", "Record-Route"} {
		h(n, `"`, `" <sip:a@b>`, qtext, name)
		d := tokIn
		d.has += " "
		d.atLeast = true
		h(n, "", " <sip:a@b>", d, name)
		h(n, "<sip:a@b>;x=", "", tok, param("x", ""))
		h(n, "<sip:a@b>;x=\"", `";y=1`, qtext, func(h header.Header) (string, bool) {
			hp := h.(hasParams)
			return unq(hp.GetParameter("x")), hp.GetParameter("y") == "1"
		})
		h(n, "<sip:a@b>;", "=1", tok, pname)
	}
	for _, x := range []struct{ n, before string }{{"Accept", "a/b"}, {"Accept-Encoding", "gzip"}, {"Accept-Language", "en"}, {"Alert-Info", "<sip:a>"}, {"Call-Info", "<sip:a>"}, {"Error-Info", "<sip:a>"}, {"Content-Disposition", "session"}, {"Content-Type", "a/b"}, {"Event", "e"}, {"Reason", "SIP"}, {"Retry-After", "1"}, {"Subscription-State", "active"}, {"Via", "SIP/2.0/UDP h"}} {
		x := x
		h(x.n, x.before+";x=", ";y=1", tok, param("x", "y"))
		h(x.n, x.before+`;x="`, `";y=1`, qtext, func(h header.Header) (string, bool) {
			hp := h.(hasParams)
			return unq(hp.GetParameter("x")), hp.HasParameter("y")
		})
		n := tok
		if x.n == "Via" {
			n = place{has: "abcdefghijklmnopqrstuvwxyz0123456789" + tokenMore, undef: "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}
		}
		if strings.HasPrefix(x.n, "Accept-") { // q has a meaning of its own
			n.undef = "Qq"
		}
		h(x.n, x.before+";", "=1", n, pname)
	}
	media := func(which string) func(h header.Header) (string, bool) { return by(which) }
	for _, n := range []string{"Accept", "Content-Type"} {
		h(n, "", "/b", tok, media("GetContentType"))
		h(n, "a/", "", tok, media("GetContentSubType"))
	}
	for _, x := range []struct{ n, get string }{{"Accept-Encoding", "GetEncoding"}, {"Content-Encoding", "GetEncoding"}, {"Allow", "GetMethod"}, {"Allow-Events", "GetEventType"}, {"Event", "GetEventType"}, {"Subscription-State", "GetState"}, {"Content-Disposition", "GetDispositionType"}, {"Require", "GetOptionTag"}, {"Supported", "GetOptionTag"}, {"Unsupported", "GetOptionTag"}, {"Proxy-Require", "GetOptionTag"}, {"Priority", "GetPriority"}, {"Reason", "GetProtocol"}} {
		h(x.n, "", "", tok, by(x.get))
	}
	h("Event", "e;id=", "", tok, by("GetEventId"))
	h("Content-Disposition", "session;handling=", "", tok, by("GetHandling"))
	h("Subscription-State", "active;reason=", "", tok, by("GetReasonCode"))
	h("Call-Info", "<sip:a>;purpose=", "", tok, by("GetPurpose"))
	h("Reason", `SIP;text="`, `"`, qtext, func(h header.Header) (string, bool) { s, ok := ask(h, "GetText"); return unq(s), ok })
	h("Warning", `307 h "`, `"`, qtext, func(h header.Header) (string, bool) { s, ok := ask(h, "GetText"); return unq(s), ok })
	h("Retry-After", "1 (", ")", ctext, by("GetComment"))
	h("Subject", "", "", plain, by("GetSubject"))
	h("Organization", "", "", plain, by("GetOrganization"))
	h("X-Unknown", "", "", plain, by("GetValue"))
	for _, n := range []string{"Authorization", "Proxy-Authorization", "WWW-Authenticate", "Proxy-Authenticate"} {
		h(n, "", ` realm="r"`, tok, func(h header.Header) (string, bool) {
			s, ok := ask(h, "GetScheme")
			r, _ := ask(h, "GetRealm")
			return s, ok && unq(r) == "r"
		})
		for _, f := range []string{"realm", "nonce", "opaque"} {
			f := f
			h(n, "Digest "+f+`="`, `",x=1`, qtext, func(h header.Header) (string, bool) {
				s, ok := ask(h, "Get"+strings.ToUpper(f[:1])+f[1:])
				x, _ := ask(h, "GetParameter", "x")
				return unq(s), ok && x == "1"
			})
		}
		h(n, "Digest x=", ",y=1", tok, func(h header.Header) (string, bool) {
			s, ok := ask(h, "GetParameter", "x")
			y, _ := ask(h, "GetParameter", "y")
			return s, ok && y == "1"
		})
	}
	h("Authentication-Info", `nextnonce="`, `",x=1`, qtext, func(h header.Header) (string, bool) {
		s, ok := ask(h, "GetNextNonce")
		return unq(s), ok
	})
	for _, x := range []struct{ n, before, after, get, a, b string }{
		{"Max-Forwards", "", "", "GetMaxForwards", "1", "2"}, {"Content-Length", "", "", "GetContentLength", "1", "2"}, {"Expires", "", "", "GetExpires", "1", "2"},
		{"Min-Expires", "", "", "GetExpires", "1", "2"}, {"RSeq", "", "", "GetSequenceNumber", "1", "2"}, {"Retry-After", "", "", "GetRetryAfter", "1", "2"},
		{"CSeq", "", " M", "GetSequenceNumber", "1", "2"}, {"RAck", "", " 2 M", "GetRSeqNumber", "1", "2"}, {"RAck", "1 ", " M", "GetCSeqNumber", "1", "2"},
		{"Warning", "", ` h "t"`, "GetCode", "3", "7"}, {"Contact", "<sip:a>;expires=", ";x=1", "GetExpires", "1", "2"},
		{"Subscription-State", "active;expires=", "", "GetExpires", "1", "2"}, {"Reason", "SIP;cause=", "", "GetCause", "1", "2"}, {"Via", "SIP/2.0/UDP h;ttl=", "", "GetTTL", "1", "2"}, {"Via", "SIP/2.0/UDP h:", "", "GetPort", "1", "2"},
	} {
		h(x.n, x.before, x.after, place{has: "0123456789", a: x.a, b: x.b, inside: true}, by(x.get))
	}
	// names of headers
	add(&place{name: "header name", in: func(v string) string { return v + ": x" }, read: one(func(h header.Header) (string, bool) {
		s, ok := ask(h, "GetValue")
		return h.GetName(), ok && s == "x"
	}), alnum: true, has: tokenMore, a: "x", b: "z", inside: true, atLeast: true, not: ":"})
	return ps
}

func c49(c *mc.C) {
	ps := places()
	c.Bound("parts", "%d", len(ps))
	try := func(p *place, v string) {
		if !c.Mine() {
			return
		}
		want, known := p.belongs(v)
		if !known {
			return
		}
		key := p.name + " " + strconv.QuoteToASCII(v)
		c.Run(key, func() {
			c.Step(1)
			in := p.in(v)
			got, ok := p.read(in)
			ok = ok && got == v
			c.Check(ok == want, key, "%q as %s: read as %q, %v; its grammar: %v", in, p.name, got, ok, want)
			if want {
				c.Outcome("taken")
			} else {
				c.Outcome("not taken")
			}
			c.State(p.name + got)
			c.Trace()
		})
	}
	for _, p := range ps {
		for x := 0; x < 256; x++ {
			b := string([]byte{byte(x)})
			try(p, p.a+b+p.b)
			if !p.inside {
				try(p, b)
				try(p, b+p.b)
				try(p, p.a+b)
			}
		}
		if p.pair {
			for x := 0; x < 128; x++ {
				e := "\\" + string([]byte{byte(x)})
				for _, v := range []string{p.a + e + p.b, e + p.b, p.a + e, e + e + "\\" + p.a, e + ";" + e + "," + p.b} {
					try(p, v)
				}
			}
		}
		if p.esc {
			for x := 0; x < 256; x++ {
				try(p, p.a+"%"+string([]byte{byte(x)}))
				for y := 0; y < 256; y++ {
					try(p, p.a+"%"+string([]byte{byte(x), byte(y)})+p.b)
				}
			}
		}
	}
	// pairs: all, or all of one character for each that is special somewhere
	var reps []byte
	for x := 0; x < 256; x++ {
		b := byte(x)
		if c.Thorough() || b >= ' ' && b < 0x7f && (strings.IndexByte("azAZ059", b) >= 0 || !(b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z')) || strings.IndexByte("\x00\t\n\r\x80\xc3\xff", b) >= 0 {
			reps = append(reps, b)
		}
	}
	for _, p := range ps {
		if p.inside {
			continue
		}
		for _, x := range reps {
			for _, y := range reps {
				try(p, string([]byte{x, y}))
			}
		}
	}
	c.Bound("pairs", "all of %d bytes", len(reps))
	if c.Thorough() {
		three := []byte("aZ0 \t\"\\%()<>@,;:/?=&[]{}-.\x00\n\x80")
		for _, p := range ps {
			if p.inside {
				continue
			}
			for _, x := range three {
				for _, y := range three {
					for _, z := range three {
						try(p, string([]byte{x, y, z}))
					}
				}
			}
		}
		c.Bound("triples", "all of %d bytes", len(three))
	}
	c.Bound("texts", "each byte alone, first, inside and last; percent with all pairs of bytes")
}
