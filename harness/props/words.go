package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

// Words and numbers that mean something somewhere: those the code itself
// names, which the build wrote down, and those of SIP at large. Each is tried
// wherever the grammar allows it.

var sipWords = strings.Fields(`
ACK BYE CANCEL INFO INVITE MESSAGE NOTIFY OPTIONS PRACK PUBLISH REFER REGISTER SUBSCRIBE UPDATE FOO
UDP TCP TLS SCTP TLS-SCTP WS WSS DTLS
sip sips tel http https mailto im pres urn
transport ttl maddr user method lr comp sigcomp sigcomp-id phone ip dialstring isub ext phone-context postd rn cic npdi
branch received rport z9hG4bK alias keep oc tag expires q action proxy redirect methods ob reg-id +sip.instance gr audio video
Digest Basic NTLM Bearer AKAv1-MD5 MD5 MD5-sess SHA-256 auth auth-int realm nonce cnonce nc opaque stale qop uri response algorithm domain username nextnonce rspauth true false TRUE FALSE
100rel timer replaces path precondition join outbound gruu eventlist norefersub sec-agree privacy histinfo answermode early-session multiple-refer tdialog
presence dialog message-summary conference reg refer winfo kpml presence.winfo active pending terminated deactivated probation rejected timeout giveup noresource
text application multipart message audio image video sdp plain xml pidf html isup mixed alternative signed related xml-patch+diff
session render icon alert handling required optional purpose info card recipient-list by-reference
gzip identity deflate compress br en fr de en-US zh-Hant x-klingon UTF-8 utf-8 ISO-8859-1
emergency urgent normal non-urgent SIP Q.850 Preemption cause anonymous Anonymous anonymous.invalid localhost example.com sip.example.com
unknown none nil null NULL void undefined default test x y z X 0 1 00 007 70 255 256 5060 5061 65535 65536 0.0.0.0 127.0.0.1 255.255.255.255 10.0.0.1 192.168.1.1 224.0.0.1 2147483647 2147483648 4294967295 1e3 0x10 NaN -1 +1 1.0 2.0 `)

// dict gives the words, in order.
func dict() []string {
	theWords.load()
	return theWords.words
}

// dictNumbers gives the numbers the code names, and those next to them.
func dictNumbers() []int {
	theWords.load()
	return theWords.numbers
}

var theWords wordList

type wordList struct {
	done    bool
	words   []string
	texts   []string
	numbers []int
}

func (w *wordList) load() {
	if w.done {
		return
	}
	w.done = true
	var d struct {
		Texts   []string
		Numbers []int64
	}
	if exe, err := os.Executable(); err == nil {
		if b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "words.json")); err == nil {
			if err := json.Unmarshal(b, &d); err != nil {
				panic(err)
			}
		}
	}
	seen := map[string]bool{}
	add := func(s string) {
		for _, v := range []string{s, strings.ToLower(s), strings.ToUpper(s), title(s)} {
			if v != "" && !seen[v] {
				seen[v] = true
				w.words = append(w.words, v)
			}
		}
	}
	for _, s := range sipWords {
		add(s)
	}
	for _, m := range modes {
		for kw := range keywords[m] {
			add(kw)
		}
	}
	for _, t := range d.Texts {
		w.texts = append(w.texts, t)
		for _, s := range strings.FieldsFunc(t, func(r rune) bool {
			return !(r < 128 && (isAlpha(byte(r)) || isDigit(byte(r)) || strings.IndexByte(tokenMore, byte(r)) >= 0))
		}) {
			add(s)
		}
	}
	sort.Strings(w.words)
	ints := map[int]bool{}
	for _, n := range d.Numbers {
		for i := n - 1; i <= n+1; i++ {
			if i >= 0 && !ints[int(i)] {
				ints[int(i)] = true
				w.numbers = append(w.numbers, int(i))
			}
		}
	}
	sort.Ints(w.numbers)
}

func title(s string) string { return strings.ToUpper(s[:1]) + strings.ToLower(s[1:]) }

// isTokenText says whether every character may stand in a token.
func isTokenText(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isAlpha(s[i]) && !isDigit(s[i]) && strings.IndexByte(tokenMore, s[i]) < 0 {
			return false
		}
	}
	return s != ""
}

// variants of a word: alone, and with something before or after it.
func variants(c *mc.C, w string) []string {
	if !c.Thorough() {
		return []string{w, w + "1", "x" + w}
	}
	return []string{w, w + "1", "x" + w, w + "-x", "1" + w, w + w, w + "." + w, w[:len(w)-1], w[1:]}
}

const wordParts = 64

// wordFamilies are the families of inputs made of words.
func wordFamilies(c *mc.C, add adder) {
	var parts []int
	for i := 1; i <= wordParts; i++ {
		parts = append(parts, i)
	}
	ws := dict()
	each := func(n int, f func(w string)) {
		for i := n - 1; i < len(ws); i += wordParts {
			f(ws[i])
		}
	}
	// the parts of everything
	for _, p := range places() {
		p := p
		if p.name == "header name" || p.has == "0123456789" || strings.HasPrefix(p.has, "0123456789abcdef:") {
			continue
		}
		read := func(k kk, v string) bool {
			want, known := p.belongs(v)
			if !known || !want || p.has == "0123456789" || p.inside && strings.Contains(p.has, "-.") && !isHostName(v) && ip(v) == nil || p.name == "scheme" && (sipScheme(v) || !isAlpha(v[0])) || p.name == "text of any URI" && strings.HasPrefix(v, "//") {
				return false
			}
			if h, _, ok := strings.Cut(p.name, ": "); ok && strings.HasSuffix(p.name, "_=1") && paramHasMeaning(h, v) {
				return false
			}
			got, ok := p.read(p.in(v))
			if !ok || got != v {
				k.ok(fmt.Sprintf("%s: %q is read as %q", p.name, v, got), false)
			}
			return true
		}
		add("C49", p.name+": words", parts, func(k kk, n int) {
			each(n, func(w string) {
				for _, v := range variants(c, w) {
					read(k, v)
				}
			})
			k.ok("", true)
		})
		add(p.owner(), p.name+": words", parts, func(k kk, n int) {
			each(n, func(w string) {
				for _, v := range variants(c, w) {
					if !read(k, v) || !strings.Contains(p.name, ": ") {
						continue
					}
					h, err := parseLine(p.in(v) + "\n")
					if err != nil {
						k.ok(fmt.Sprintf("%s: %q is rejected: %v", p.name, v, err), false)
						continue
					}
					enc := h.String()
					if !strings.Contains(strings.ToLower(enc), strings.ToLower(v)) {
						k.ok(fmt.Sprintf("%s: %q is encoded as %q", p.name, v, enc), false)
					}
					h2, err := parseLine(strings.TrimSuffix(enc, "\r\n") + "\n")
					if err != nil || h2.String() != enc {
						k.ok(fmt.Sprintf("%s: %q is encoded as %q, which is read as %v, %v", p.name, v, enc, h2, err), false)
					}
				}
			})
			k.ok("", true)
		})
	}
	// names of parameters
	for _, ph := range paramHeaders {
		ph := ph
		do := func(k kk, w string) {
			if !isTokenText(w) || paramHasMeaning(ph.name, w) {
				return
			}
			name := w
			if ph.name == "Via" { // whose names are in lower case
				name = strings.ToLower(w)
			}
			for _, p := range []pair{{name, "v1", false}, {name, "5", false}, {name, "V, ;w", true}, {name, name, false}} {
				text := ph.name + ": " + ph.val + ph.first + "aa=1" + ph.sep + p.String() + ph.sep + "zz=2"
				h, err := parseLine(text + "\n")
				if err != nil {
					k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
					continue
				}
				hp, ok := elements(h)[0].(paramHeader)
				if !ok {
					k.ok(fmt.Sprintf("%T has no parameters", h), false)
					return
				}
				if got := unq(hp.GetParameter(p.n)); got != p.v.(string) || !hp.HasParameter(strings.ToUpper(p.n)) || hp.GetParameter("zz") != "2" || hp.GetParameter("aa") != "1" {
					k.ok(fmt.Sprintf("%q: the value is %q", text, got), false)
				}
				if h.String() != text+"\r\n" {
					k.ok(fmt.Sprintf("%q is encoded as %q", text, h.String()), false)
				}
				// set, over another value and anew
				b, err := parseLine(ph.name + ": " + ph.val + ph.first + "aa=1" + "\n")
				if err != nil {
					k.ok(fmt.Sprintf("rejected: %v", err), false)
					return
				}
				bp := elements(b)[0].(paramHeader)
				for _, v := range []string{"other", p.v.(string)} {
					if p.quoted {
						bp.SetQuotedParameter(p.n, v)
					} else {
						bp.SetParameter(p.n, v)
					}
				}
				bp.SetParameter("zz", "2")
				if b.String() != text+"\r\n" || unq(bp.GetParameter(strings.ToUpper(p.n))) != p.v.(string) {
					k.ok(fmt.Sprintf("%q set is encoded as %q, the value is %q", text, b.String(), bp.GetParameter(p.n)), false)
				}
				if p.v == "5" && ph.first == ";" { // no value, and a second one
					// a parameter without a value is written as any other is
					flag := func(n string) string {
						return ph.name + ": " + ph.val + ph.first + "aa=1" + ph.sep + n + ph.sep + "zz=2"
					}
					other, err := parseLine(flag("nn8nn") + "\n")
					if err != nil {
						k.ok(fmt.Sprintf("%q is rejected: %v", flag("nn8nn"), err), false)
						return
					}
					h, err := parseLine(flag(p.n) + "\n")
					if err != nil || h.String() != strings.ReplaceAll(other.String(), "nn8nn", p.n) {
						k.ok(fmt.Sprintf("%q is read as %v, %v", flag(p.n), h, err), false)
					} else if hp := elements(h)[0].(paramHeader); !hp.HasParameter(p.n) || hp.GetParameter(p.n) != "" || hp.GetParameter("zz") != "2" {
						k.ok(fmt.Sprintf("%q: the parameter is %v, %q", flag(p.n), hp.HasParameter(p.n), hp.GetParameter(p.n)), false)
					}
				}
				cl := b.Clone().(header.Header)
				bp.RemoveParameter(strings.ToLower(p.n))
				if bp.HasParameter(p.n) || !bp.HasParameter("zz") || b.String() != ph.name+": "+ph.val+ph.first+"aa=1"+ph.sep+"zz=2\r\n" {
					k.ok(fmt.Sprintf("%q without the parameter is %q", text, b.String()), false)
				}
				if cl.String() != text+"\r\n" {
					k.ok(fmt.Sprintf("the clone of %q is %q", text, cl.String()), false)
				}
			}
		}
		for _, prop := range []string{spec(ph.name).group, "C25", "C26"} {
			add(prop, "words as names of parameters of "+ph.name, parts, func(k kk, n int) {
				each(n, func(w string) { do(k, w) })
				k.ok("", true)
			})
		}
	}
	wordMessages(c, add, each, parts)
	wordTexts(c, add)
	growHosts(c, add)
	growModes(c, add)
}

func isHostName(s string) bool {
	return isTokenText(s) && !strings.ContainsAny(s, "!%*_+`'~") && s[0] != '.' && s[0] != '-' && s[len(s)-1] != '-' && !strings.Contains(s, "..") && !isDigit(s[len(s)-1]) && s[len(s)-1] != '.'
}

func sipScheme(s string) bool {
	return strings.EqualFold(s, "sip") || strings.EqualFold(s, "sips") || strings.EqualFold(s, "tel")
}

// paramHasMeaning says whether the value of a parameter has a form of its own.
func paramHasMeaning(h, p string) bool {
	p = strings.ToLower(p)
	if p == "aa" || p == "zz" {
		return true
	}
	switch h {
	case "Contact":
		return p == "q" || p == "expires"
	case "From", "To":
		return p == "tag"
	case "Via":
		return p == "ttl" || p == "maddr" || p == "received" || p == "branch" || p == "rport"
	case "Accept", "Accept-Encoding", "Accept-Language":
		return p == "q"
	case "Reason":
		return p == "cause" || p == "text"
	case "Retry-After":
		return p == "duration"
	case "Subscription-State":
		return p == "expires" || p == "retry-after" || p == "reason"
	case "Event":
		return p == "id"
	case "Content-Disposition":
		return p == "handling"
	case "Call-Info", "Alert-Info", "Error-Info":
		return p == "purpose"
	}
	if strings.HasSuffix(h, "Authenticate") || strings.HasSuffix(h, "Authorization") || h == "Authentication-Info" {
		switch p {
		case "realm", "nonce", "cnonce", "nc", "opaque", "stale", "qop", "uri", "response", "algorithm", "domain", "username", "nextnonce", "rspauth":
			return true
		}
	}
	return false
}

// knownHeader says whether the library has a header of that name.
func knownHeader(n string) bool {
	for _, s := range hspecs {
		if !s.ext && strings.EqualFold(s.name, n) {
			return true
		}
	}
	switch strings.ToLower(n) {
	case "i", "m", "e", "l", "c", "f", "r", "s", "k", "t", "v", "o", "u", "call-id", "content-length", "content-disposition":
		return true
	}
	return false
}

const bodyOf3 = "abc"

// wordRequest is a request of a method, with all a request needs.
func wordRequest(m string) (text, rest string) {
	rest = "Via: SIP/2.0/UDP h;branch=z9hG4bKx,SIP/2.0/TCP i;branch=z9hG4bKy\r\nFrom: <sip:f@h>;tag=1\r\nTo: <sip:t@h>;tag=2\r\nCall-ID: c@h\r\nCSeq: 7 %s\r\nMax-Forwards: 70\r\nRecord-Route: <sip:r@h;lr>\r\nContact: <sip:c@h>\r\nRoute: <sip:p@h;lr>\r\nContent-Type: a/b\r\n"
	return m + " sip:u@h;x=1 SIP/2.0\r\n" + fmt.Sprintf(rest, m) + "Content-Length: 3\r\n\r\n" + bodyOf3, rest
}

func wordResponse(code int, phrase, method string) string {
	return fmt.Sprintf("SIP/2.0 %d %s\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nFrom: <sip:f@h>;tag=1\r\nTo: <sip:t@h>;tag=2\r\nCall-ID: c@h\r\nCSeq: 7 %s\r\nContact: <sip:c@h>\r\nContent-Length: 3\r\n\r\nabc", code, phrase, method)
}

// wordMessages: messages of every method, response code and unknown header,
// and with words for a content.
func wordMessages(c *mc.C, add adder, each func(n int, f func(w string)), parts []int) {
	methods := func(prop string, f func(k kk, w, text string, r *message.SIPRequest)) {
		add(prop, "words as methods", parts, func(k kk, n int) {
			each(n, func(w string) {
				if !isTokenText(w) || w != strings.ToUpper(w) { // the method of a CSeq is kept in capitals
					return
				}
				text, _ := wordRequest(w)
				m, err := parseMsg(text)
				if err != nil || isNil(m) {
					k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
					return
				}
				r, ok := m.(*message.SIPRequest)
				if !ok {
					k.ok(fmt.Sprintf("%q is a %T", text, m), false)
					return
				}
				f(kk{k.c, k.key + ", " + w}, w, text, r)
			})
			k.ok("", true)
		})
	}
	eq := func(k kk, what, got, want string) {
		if got != want {
			k.eq(what, got, want)
		}
	}
	methods("C04", func(k kk, w, text string, r *message.SIPRequest) {
		eq(k, "content", r.GetContent(), bodyOf3)
		eq(k, "method", r.GetMethod(), w)
		b, err := parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(text))
		if err != nil || isNil(b) {
			k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
		} else {
			eq(k, "of bytes", asMsg(b).String(), text)
		}
	})
	methods("C05", func(k kk, w, text string, r *message.SIPRequest) {
		eq(k, "text", r.String(), text)
		eq(k, "bytes", string(r.EncodeAsBytes()), text)
	})
	methods("C12", func(k kk, w, text string, r *message.SIPRequest) {
		eq(k, "method", r.GetMethod(), w)
		eq(k, "request line", r.GetRequestLine().String(), w+" sip:u@h;x=1 SIP/2.0\r\n")
		eq(k, "of the text of the line", r.GetFirstLine(), w+" sip:u@h;x=1 SIP/2.0\r\n")
		eq(k, "URI", r.GetRequestURI().String(), "sip:u@h;x=1")
	})
	methods("C19", func(k kk, w, text string, r *message.SIPRequest) {
		r.SetMessageContent("longer content")
		eq(k, "text", r.String(), strings.TrimSuffix(text, "3\r\n\r\nabc")+"14\r\n\r\nlonger content")
		r.RemoveContent()
		eq(k, "text without content", r.String(), strings.TrimSuffix(text, "3\r\n\r\nabc")+"0\r\n\r\n")
	})
	methods("C18", func(k kk, w, text string, r *message.SIPRequest) {
		r.AddHeader(one("X-A", w))
		r.SetHeader(one("Max-Forwards", "0"))
		want := strings.Replace(text, "Max-Forwards: 70\r\n", "", 1)
		want = strings.Replace(want, "Content-Length", "X-A: "+w+"\r\nMax-Forwards: 0\r\nContent-Length", 1)
		eq(k, "text", r.String(), want)
		r.RemoveHeader("max-forwards")
		eq(k, "text without Max-Forwards", r.String(), strings.Replace(want, "Max-Forwards: 0\r\n", "", 1))
	})
	standing := func(text string, names ...string) string {
		var b strings.Builder
		for _, l := range strings.SplitAfter(text, "\r\n") {
			for _, n := range names {
				if strings.HasPrefix(l, n+":") {
					b.WriteString(l)
				}
			}
		}
		return b.String()
	}
	methods("C20", func(k kk, w, text string, r *message.SIPRequest) {
		for _, code := range []int{100, 180, 200, 202, 302, 401, 487, 500, 603} {
			s := r.CreateResponse(code)
			eq(k, "response", s.String(), fmt.Sprintf("SIP/2.0 %d %s\r\n", code, phrases[code])+standing(text, "Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Record-Route")+"Content-Length: 0\r\n\r\n")
			eq(k, "transaction", s.GetTransactionId(), r.GetTransactionId())
		}
		eq(k, "request", r.String(), text)
	})
	methods("C21", func(k kk, w, text string, r *message.SIPRequest) {
		line := " sip:u@h;x=1 SIP/2.0\r\n"
		via1 := strings.Replace(text, ",SIP/2.0/TCP i;branch=z9hG4bKy", "", 1)
		to := func(t, m string) string { return strings.Replace(t, "CSeq: 7 "+w, "CSeq: 7 "+m, 1) }
		eq(k, "CANCEL", r.CreateCancelRequest().String(), "CANCEL"+line+to(standing(text, "Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Record-Route", "Contact", "Route"), "CANCEL")+"Content-Length: 0\r\n\r\n")
		eq(k, "ACK", r.CreateAckRequest(nil).String(), "ACK"+line+to(standing(via1, "Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Record-Route", "Contact"), "ACK")+"Content-Length: 0\r\n\r\n")
		dialog := func(m string) string {
			t := strings.NewReplacer(";branch=z9hG4bKx", "", ";tag=1", "", ";tag=2", "").Replace(via1)
			return m + line + to(standing(t, "Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards"), m) + "Content-Length: 0\r\n\r\n"
		}
		eq(k, "BYE", r.CreateBYERequest(false).String(), dialog("BYE"))
		eq(k, "ACK in a dialog", r.CreateACKRequest().String(), dialog("ACK"))
		l := r.GetRequestLine().Clone().(*header.RequestLine)
		x, err := parseMsg(strings.Replace(text, w+" ", "INVITE ", 1)[:0] + strings.Replace(strings.Replace(text, w+" sip", "INVITE sip", 1), "CSeq: 7 "+w, "CSeq: 7 INVITE", 1))
		if err != nil {
			k.ok(fmt.Sprintf("INVITE is rejected: %v", err), false)
			return
		}
		eq(k, w+" in a dialog", x.(*message.SIPRequest).CreateSIPRequest(l, false).String(), dialog(w))
		eq(k, "request", r.String(), text)
		// from a response
		y, err := parseMsg(wordResponse(200, "OK", w))
		if err != nil {
			k.ok(fmt.Sprintf("the response is rejected: %v", err), false)
			return
		}
		branch := "z9hG4bKn"
		if w == "ACK" || w == "CANCEL" {
			branch = "z9hG4bKx"
		}
		q := y.(*message.SIPResponse).CreateRequest(mustURI("sip:new@u"), one("Via", "SIP/2.0/UDP n;branch=z9hG4bKn").(*header.Via), one("CSeq", "8 "+w).(*header.CSeq))
		eq(k, "from a response", q.String(), w+" sip:new@u SIP/2.0\r\nVia: SIP/2.0/UDP n;branch="+branch+"\r\nCSeq: 8 "+w+"\r\n"+standing(text, "From", "To", "Call-ID", "Contact")+"Content-Length: 0\r\n\r\n")
	})
	methods("C22", func(k kk, w, text string, r *message.SIPRequest) {
		eq(k, "transaction", r.GetTransactionId(), "z9hg4bkx")
		ids := map[string]string{}
		for _, m := range []string{w, w + "X", "X" + w, "INVITE", "FOO"} {
			t := strings.Replace(strings.Replace(text, ";branch=z9hG4bKx", "", 1), w+" sip", m+" sip", 1)
			t = strings.Replace(t, "CSeq: 7 "+w, "CSeq: 7 "+m, 1)
			x, err := parseMsg(t)
			if err != nil {
				k.ok(fmt.Sprintf("%q is rejected: %v", t, err), false)
				return
			}
			id := x.(idMsg).GetTransactionId()
			if o, ok := ids[id]; ok && o != m {
				k.ok(fmt.Sprintf("%s and %s have the same transaction id", o, m), false)
			}
			ids[id] = m
			eq(k, "transaction of the response", x.(*message.SIPRequest).CreateResponse(200).GetTransactionId(), id)
			eq(k, "dialog", x.(idMsg).GetDialogId(false), r.GetDialogId(false))
			eq(k, "dialog of the server", x.(idMsg).GetDialogId(true), r.GetDialogId(true))
		}
	})
	methods("C40", func(k kk, w, text string, r *message.SIPRequest) {
		if err := r.CheckHeaders(); err != nil {
			k.ok(fmt.Sprintf("incomplete: %v", err), false)
		}
		for _, h := range []string{"Via", "From", "To", "CSeq", "Max-Forwards"} {
			x, err := parseMsg(strings.Replace(text, standing(text, h), "", 1))
			if err != nil {
				k.ok(fmt.Sprintf("without %s rejected: %v", h, err), false)
				continue
			}
			if x.(*message.SIPRequest).CheckHeaders() == nil {
				k.ok("complete without "+h, false)
			}
		}
		for _, m := range []string{"X" + w, w + "X", "FOO", "INVITE"} {
			if m == w {
				continue
			}
			if x, err := parseMsg(strings.Replace(text, "CSeq: 7 "+w, "CSeq: 7 "+m, 1)); err == nil {
				k.ok(fmt.Sprintf("with a CSeq of %s accepted as %q", m, x.String()), false)
			}
		}
	})
	methods("C41", func(k kk, w, text string, r *message.SIPRequest) {
		for _, m := range []string{"X" + w, w, "FOO"} {
			r.SetMethod(m)
			want := strings.Replace(strings.Replace(text, w+" sip", m+" sip", 1), "CSeq: 7 "+w, "CSeq: 7 "+m, 1)
			eq(k, "method", r.GetMethod(), m)
			eq(k, "text", r.String(), want)
			eq(k, "bytes", string(r.EncodeAsBytes()), want)
			eq(k, "first line", r.GetFirstLine(), m+" sip:u@h;x=1 SIP/2.0\r\n")
		}
		r.SetMethod(w)
		r.SetDefaults()
		got := r.GetRequestURI().String()
		if w == "INVITE" || w == "REGISTER" {
			eq(k, "URI with defaults", sortedURI(got), sortedURI("sip:u@h;x=1;user=ip;transport=udp"))
		} else {
			eq(k, "URI with defaults", got, "sip:u@h;x=1")
		}
		eq(k, "method with defaults", r.GetMethod(), w)
	})
	methods("C45", func(k kk, w, text string, r *message.SIPRequest) {
		p := parser.NewStringMsgParser()
		buf := text + "\r\n" + text + wordResponse(180, w, w)
		for i, want := range []string{text, text, wordResponse(180, w, w)} {
			m, err := p.ParseSIPMessageFromByte([]byte(buf))
			if err != nil || isNil(m) {
				k.ok(fmt.Sprintf("message %d is rejected: %v", i, err), false)
				return
			}
			eq(k, "message", asMsg(m).String(), want)
			buf = p.ReadToEnd()
		}
		eq(k, "left", buf, "")
	})
	// response codes
	var codes []int
	for i := 100; i < 700; i++ {
		codes = append(codes, i)
	}
	responses := func(prop string, f func(k kk, code int, text string, r *message.SIPResponse)) {
		add(prop, "response codes", codes, func(k kk, code int) {
			for _, m := range []string{"INVITE", "BYE", "CANCEL", "FOO"} {
				text := wordResponse(code, "Phrase "+strconv.Itoa(700-code), m)
				x, err := parseMsg(text)
				if err != nil || isNil(x) {
					k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
					continue
				}
				r, ok := x.(*message.SIPResponse)
				if !ok {
					k.ok(fmt.Sprintf("%q is a %T", text, x), false)
					continue
				}
				f(kk{k.c, k.key + ", " + m}, code, text, r)
			}
			k.ok("", true)
		})
	}
	responses("C04", func(k kk, code int, text string, r *message.SIPResponse) {
		eq(k, "content", r.GetContent(), bodyOf3)
		k.eq("code", r.GetStatusCode(), code)
	})
	responses("C05", func(k kk, code int, text string, r *message.SIPResponse) {
		eq(k, "text", r.String(), text)
		eq(k, "bytes", string(r.EncodeAsBytes()), text)
	})
	responses("C12", func(k kk, code int, text string, r *message.SIPResponse) {
		k.eq("code", r.GetStatusCode(), code)
		eq(k, "phrase", r.GetReasonPhrase(), "Phrase "+strconv.Itoa(700-code))
		eq(k, "line", r.GetFirstLine(), text[:strings.Index(text, "\n")+1])
	})
	responses("C18", func(k kk, code int, text string, r *message.SIPResponse) {
		r.AddHeader(one("Via", "SIP/2.0/UDP top"))
		r.RemoveHeader("Contact")
		want := strings.Replace(text, "Contact: <sip:c@h>\r\n", "", 1)
		eq(k, "text", r.String(), strings.Replace(want, "Via: ", "Via: SIP/2.0/UDP top,", 1))
	})
	responses("C19", func(k kk, code int, text string, r *message.SIPResponse) {
		r.SetMessageContent("longer content")
		eq(k, "text", r.String(), strings.TrimSuffix(text, "3\r\n\r\nabc")+"14\r\n\r\nlonger content")
		r.RemoveContent()
		eq(k, "text without content", r.String(), strings.TrimSuffix(text, "3\r\n\r\nabc")+"0\r\n\r\n")
	})
	add("C20", "response codes", codes, func(k kk, code int) {
		for _, m := range []string{"INVITE", "BYE", "REGISTER"} {
			text, _ := wordRequest(m)
			r := mustMsg(text).(*message.SIPRequest)
			for _, phrase := range []string{"", "Own"} {
				s := r.CreateResponse2(code, phrase)
				want := phrase
				if want == "" {
					want = phrases[code]
				}
				eq(k, "response", s.String(), fmt.Sprintf("SIP/2.0 %d %s\r\n", code, want)+standing(text, "Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Record-Route")+"Content-Length: 0\r\n\r\n")
				eq(k, "transaction", s.GetTransactionId(), r.GetTransactionId())
				eq(k, "dialog", s.GetDialogId(true), r.GetDialogId(true))
			}
			eq(k, "request", r.String(), text)
		}
		k.ok("", true)
	})
	responses("C21", func(k kk, code int, text string, r *message.SIPResponse) {
		for _, m := range []string{"ACK", "BYE"} {
			branch := "z9hG4bKn"
			if m == "ACK" {
				branch = "z9hG4bKx"
			}
			q := r.CreateRequest(mustURI("sip:new@u"), one("Via", "SIP/2.0/UDP n;branch=z9hG4bKn").(*header.Via), one("CSeq", "8 "+m).(*header.CSeq))
			eq(k, "request", q.String(), m+" sip:new@u SIP/2.0\r\nVia: SIP/2.0/UDP n;branch="+branch+"\r\nCSeq: 8 "+m+"\r\n"+standing(text, "From", "To", "Call-ID", "Contact")+"Content-Length: 0\r\n\r\n")
		}
		eq(k, "response", r.String(), text)
	})
	responses("C22", func(k kk, code int, text string, r *message.SIPResponse) {
		o := mustMsg(wordResponse(200, "OK", r.GetCSeq().GetMethod())).(idMsg)
		eq(k, "transaction", r.GetTransactionId(), o.GetTransactionId())
		eq(k, "dialog", r.GetDialogId(false), o.GetDialogId(false))
		eq(k, "dialog of the server", r.GetDialogId(true), o.GetDialogId(true))
		eq(k, "dialog with a tag", r.GetDialogId2(true, "x"), o.GetDialogId2(true, "x"))
	})
	responses("C40", func(k kk, code int, text string, r *message.SIPResponse) {
		if err := r.CheckHeaders(); err != nil {
			k.ok(fmt.Sprintf("incomplete: %v", err), false)
		}
		for _, h := range []string{"Via", "From", "To", "CSeq"} {
			x, err := parseMsg(strings.Replace(text, standing(text, h), "", 1))
			if err != nil {
				k.ok(fmt.Sprintf("without %s rejected: %v", h, err), false)
			} else if x.(*message.SIPResponse).CheckHeaders() == nil {
				k.ok("complete without "+h, false)
			}
		}
	})
	responses("C41", func(k kk, code int, text string, r *message.SIPResponse) {
		k.eq("final", r.IsFinalResponse(), code >= 200)
		for _, n := range []int{799 - code, 200, code} {
			r.SetStatusCode(n)
			want := fmt.Sprintf("SIP/2.0 %d Phrase %d", n, 700-code) + text[strings.Index(text, "\r"):]
			k.eq("code", r.GetStatusCode(), n)
			eq(k, "text", r.String(), want)
			k.eq("final", r.IsFinalResponse(), n >= 200)
		}
		r.SetReasonPhrase("X")
		eq(k, "text", r.String(), fmt.Sprintf("SIP/2.0 %d X", code)+text[strings.Index(text, "\r"):])
	})
	// names of unknown headers
	unknown := func(prop string, f func(k kk, w string)) {
		add(prop, "words as names of headers", parts, func(k kk, n int) {
			each(n, func(w string) {
				for _, v := range variants(c, w) {
					if isTokenText(v) && !knownHeader(v) {
						f(k, v)
					}
				}
			})
			k.ok("", true)
		})
	}
	unknown("C11", func(k kk, w string) {
		for _, v := range []string{"x", "a, b;c", w} {
			h, err := parseLine(w + ": " + v + "\n")
			if err != nil {
				k.ok(fmt.Sprintf("%s: %s is rejected: %v", w, v, err), false)
				continue
			}
			eq(k, "text", h.String(), w+": "+v+"\r\n")
			eq(k, "name", h.GetName(), w)
		}
	})
	inMsg := func(k kk, w string) {
		text := "SIP/2.0 200 OK\r\nSubject: s\r\n" + w + ": one, two\r\nVia: SIP/2.0/UDP h\r\n" + w + ": three\r\nContent-Length: 0\r\n\r\n"
		x, err := parseMsg(text)
		if err != nil || isNil(x) {
			k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
			return
		}
		eq(k, "text", x.String(), "SIP/2.0 200 OK\r\nSubject: s\r\n"+w+": one, two\r\n"+w+": three\r\nVia: SIP/2.0/UDP h\r\nContent-Length: 0\r\n\r\n")
		for _, n := range []string{w, strings.ToUpper(w), strings.ToLower(w)} {
			eq(k, n, bodies(x.(editable).GetHeaderList(n)), "one, two|three|")
		}
	}
	for _, p := range []string{"C05", "C16", "C17"} {
		unknown(p, inMsg)
	}
	unknown("C28", func(k kk, w string) {
		start, bad := "SIP/2.0 200 OK\r\n", "To: <sip:"
		w2 := &watcher{}
		p := parser.NewStringMsgParser()
		p.SetParseExceptionListener(w2)
		m, err := p.ParseSIPMessage(start + w + ": x\r\n" + bad + "\r\n" + w + ": y\r\n\r\n")
		if err != nil || isNil(m) {
			k.ok(fmt.Sprintf("rejected: %v", err), false)
			return
		}
		eq(k, "reported", strings.Join(w2.seen, "|"), bad)
		eq(k, "text", asMsg(m).String(), start+w+": x\r\n"+w+": y\r\nContent-Length: 0\r\n\r\n")
	})
	unknown("C18", func(k kk, w string) {
		r := message.NewSIPRequest()
		r.AddHeader(one(w, "1"))
		r.AddHeader(one("Subject", "s"))
		r.AddHeader(one(w, "2"))
		eq(k, "added", r.String(), w+": 1\r\n"+w+": 2\r\nSubject: s\r\nContent-Length: 0\r\n\r\n")
		r.SetHeader(one(strings.ToUpper(w), "3"))
		eq(k, "set", r.String(), "Subject: s\r\n"+strings.ToUpper(w)+": 3\r\nContent-Length: 0\r\n\r\n")
		if !r.HasHeader(w) || r.GetHeader(strings.ToLower(w)) == nil {
			k.ok("no "+w, false)
		}
		r.RemoveHeader(w)
		eq(k, "removed", r.String(), "Subject: s\r\nContent-Length: 0\r\n\r\n")
	})
	// contents
	contents := func(prop string, f func(k kk, b string)) {
		add(prop, "words as contents", parts, func(k kk, n int) {
			g := func(w string) {
				for _, b := range []string{w, w + "\r\n", "\r\n" + w, "a" + w + "\r\n\r\n" + w} {
					f(k, b)
				}
			}
			each(n, g)
			for i := n - 1; i < len(theWords.texts); i += wordParts {
				g(theWords.texts[i])
			}
			k.ok("", true)
		})
	}
	head := "INFO sip:a SIP/2.0\r\nContent-Type: a/b\r\nContent-Length: "
	contents("C04", func(k kk, b string) {
		text := head + strconv.Itoa(len(b)) + "\r\n\r\n" + b
		for i, parse := range []func() (message.Message, error){
			func() (message.Message, error) { return parser.NewStringMsgParser().ParseSIPMessage(text) },
			func() (message.Message, error) {
				return parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(text))
			},
		} {
			m, err := parse()
			if err != nil || isNil(m) {
				k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
				continue
			}
			eq(k, fmt.Sprint("content, parsed in way ", i), asMsg(m).GetMessageContent(), b)
			eq(k, fmt.Sprint("text, parsed in way ", i), asMsg(m).String(), text)
		}
	})
	contents("C05", func(k kk, b string) {
		text := head + strconv.Itoa(len(b)) + "\r\n\r\n" + b
		m, err := parseMsg(text)
		if err != nil || isNil(m) {
			k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
			return
		}
		eq(k, "text", m.String(), text)
		eq(k, "bytes", string(m.EncodeAsBytes()), text)
	})
	contents("C19", func(k kk, b string) {
		sets := []func(m contentMsg){
			func(m contentMsg) { m.SetMessageContent(b) },
			func(m contentMsg) { m.SetMessageContentFromByte([]byte(b)) },
			func(m contentMsg) { m.SetMessageContentFromString("a", "b", b) },
			func(m contentMsg) { m.SetMessageContent3("a", "b", []byte(b)) },
			func(m contentMsg) { m.SetContent(b, one("Content-Type", "a/b").(header.ContentTypeHeader)) },
			func(m contentMsg) { m.SetContent([]byte(b), one("Content-Type", "a/b").(header.ContentTypeHeader)) },
		}
		for i, set := range sets {
			m := mustMsg(head + "4\r\n\r\nbody").(contentMsg)
			set(m)
			eq(k, fmt.Sprint("set in way ", i), m.(fmt.Stringer).String(), head+strconv.Itoa(len(b))+"\r\n\r\n"+b)
			eq(k, fmt.Sprint("content set in way ", i), m.GetMessageContent(), b)
		}
	})
	// lists of option tags, methods and events
	for _, s := range []struct{ prop, name string }{{"C17", "Supported"}, {"C17", "Allow"}, {"C17", "Allow-Events"}, {"C17", "Require"}, {"C17", "Accept-Encoding"}, {"C51", "Unsupported"}, {"C51", "Allow"}, {"C51", "Proxy-Require"}} {
		s := s
		add(s.prop, "words in a list of "+s.name, parts, func(k kk, n int) {
			var vs []string
			each(n, func(w string) {
				if isTokenText(w) {
					vs = append(vs, w)
				}
			})
			for _, sep := range []string{",", " , ", ",\r\n "} {
				h, err := parseLine(s.name + ": " + strings.Join(vs, sep) + "\n")
				if err != nil {
					if !strings.Contains(sep, "\n") {
						k.ok(fmt.Sprintf("%q is rejected: %v", vs, err), false)
					}
					continue
				}
				eq(k, "text", h.String(), s.name+": "+strings.Join(vs, ",")+"\r\n")
				if l, ok := h.(header.SIPHeaderLister); ok && l.Len() != len(vs) {
					k.ok(fmt.Sprintf("%d values, not %d", l.Len(), len(vs)), false)
				}
			}
			k.ok("", true)
		})
	}
	// setters of a URI
	add("C14", "words set on a URI", parts, func(k kk, n int) {
		each(n, func(w string) {
			for _, start := range []string{"sip:u:p@h:1;a=b;C=d;lr?x=y", "sips:h"} {
				u, err := parser.NewStringMsgParser().ParseSIPUrl(start)
				if err != nil {
					k.ok(err.Error(), false)
					return
				}
				m := &sipURI{scheme: "sips", host: "h", port: -1}
				if start != "sips:h" {
					m = &sipURI{scheme: "sip", user: "u", hasUser: true, pw: "p", host: "h", port: 1, params: []nv{{"a", "b", true}, {"C", "d", true}, {"lr", "", false}}, hdrs: []nv{{"x", "y", true}}}
				}
				k := kk{k.c, k.key + ", " + w + " on " + start}
				if strings.ContainsAny(w, "%`") {
					continue
				}
				if m.hasUser { // beside the password there is
					u.SetUser(w)
					m.user = w
					m.check(k, u)
				}
				u.SetUser(w)
				m.user, m.hasUser = w, true
				u.SetUserPassword(w)
				m.pw = w
				m.check(k, u)
				u.SetUser(w + "2")
				u.SetUser(w)
				m.check(k, u)
				if isHostName(w) || ip(w) != nil {
					u.SetHostString(w)
					m.host = w
				}
				if lw := strings.ToLower(w); lw != "ttl" && lw != "lr" && lw != "method" && lw != "maddr" && lw != "user" {
					u.SetParameter(w, w)
					m.params = put(m.params, w, w, true)
				}
				u.SetParameter("zz", w)
				m.params = put(m.params, "zz", w, true)
				u.SetQHeader(core.NewNameValue("zh", w))
				m.hdrs = append(m.hdrs, nv{"zh", w, true})
				m.check(k, u)
				u.SetMethod(w)
				m.params = put(m.params, "method", w, true)
				u.SetUserParam(w)
				m.params = put(m.params, "user", w, true)
				u.SetMAddr(w)
				m.params = put(m.params, "maddr", w, true)
				m.check(k, u)
				cl := u.Clone().(*address.SipURIImpl)
				u.RemoveParameter(strings.ToLower(w))
				m2 := &sipURI{}
				*m2 = *m
				m2.params = append([]nv{}, m.params...)
				m.params = drop(m.params, w)
				m.check(k, u)
				m2.check(k, cl)
			}
		})
		k.ok("", true)
	})
	// values made of words
	type maker struct {
		name string
		f    func(s string) header.Header
	}
	for _, m := range []maker{
		{"Allow", func(s string) header.Header { return header.NewAllowFromString(s) }},
		{"Allow-Events", func(s string) header.Header { return header.NewAllowEventsFromString(s) }},
		{"Content-Encoding", func(s string) header.Header { return header.NewContentEncodingFromString(s) }},
		{"Proxy-Require", func(s string) header.Header { return header.NewProxyRequireFromString(s) }},
		{"Require", func(s string) header.Header { return header.NewRequireFromString(s) }},
		{"Supported", func(s string) header.Header { return header.NewSupportedFromString(s) }},
		{"Unsupported", func(s string) header.Header { return header.NewUnsupportedFromString(s) }},
		{"Call-ID", func(s string) header.Header { h, _ := header.NewCallID(s); return h }},
	} {
		m := m
		add("C42", "words in a "+m.name, parts, func(k kk, n int) {
			each(n, func(w string) {
				for _, v := range variants(c, w) {
					if isTokenText(v) {
						h := m.f(v)
						if isNil(h) || h.String() != m.name+": "+v+"\r\n" {
							k.ok(fmt.Sprintf("%q makes %v", v, h), false)
							continue
						}
						made(k, "made", h, m.name, v)
					}
				}
			})
			k.ok("", true)
		})
	}
	add("C42", "words in types, CSeq and start lines", parts, func(k kk, n int) {
		each(n, func(w string) {
			if !isTokenText(w) {
				return
			}
			made(k, "Content-Type "+w, header.NewContentTypeFromString(w, "x"), "Content-Type", w+"/x")
			made(k, "Content-Type x/"+w, header.NewContentTypeFromString("x", w), "Content-Type", "x/"+w)
			if w == strings.ToUpper(w) {
				made(k, "CSeq "+w, header.NewCSeq(3, w), "CSeq", "3 "+w)
			}
			l := header.NewRequestLineFromString(mustURI("sip:h"), w)
			k.eq("request line", l.String(), w+" sip:h SIP/2.0\r\n")
		})
	})
}
