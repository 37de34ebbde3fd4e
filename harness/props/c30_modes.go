package props

import (
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

// keywords are what a lexer knows in each mode.
var keywords = map[string]map[string]int{
	"charLexer": {},
	"method_keywordLexer": {
		"ACK":       parser.TokenTypes_ACK,
		"BYE":       parser.TokenTypes_BYE,
		"INVITE":    parser.TokenTypes_INVITE,
		"NOTIFY":    parser.TokenTypes_NOTIFY,
		"OPTIONS":   parser.TokenTypes_OPTIONS,
		"REGISTER":  parser.TokenTypes_REGISTER,
		"SIP":       parser.TokenTypes_SIP,
		"SUBSCRIBE": parser.TokenTypes_SUBSCRIBE,
	},
	"command_keywordLexer": {
		"ACCEPT":              parser.TokenTypes_ACCEPT,
		"ACCEPT-ENCODING":     parser.TokenTypes_ACCEPT_ENCODING,
		"ACCEPT-LANGUAGE":     parser.TokenTypes_ACCEPT_LANGUAGE,
		"ALERT-INFO":          parser.TokenTypes_ALERT_INFO,
		"ALLOW":               parser.TokenTypes_ALLOW,
		"ALLOW-EVENTS":        parser.TokenTypes_ALLOW_EVENTS,
		"AUTHENTICATION-INFO": parser.TokenTypes_AUTHENTICATION_INFO,
		"AUTHORIZATION":       parser.TokenTypes_AUTHORIZATION,
		"C":                   parser.TokenTypes_CONTENT_TYPE,
		"CALL-ID":             parser.TokenTypes_CALL_ID,
		"CALL-INFO":           parser.TokenTypes_CALL_INFO,
		"CONTACT":             parser.TokenTypes_CONTACT,
		"CONTENT-DISPOSITION": parser.TokenTypes_CONTENT_DISPOSITION,
		"CONTENT-ENCODING":    parser.TokenTypes_CONTENT_ENCODING,
		"CONTENT-LANGUAGE":    parser.TokenTypes_CONTENT_LANGUAGE,
		"CONTENT-LENGTH":      parser.TokenTypes_CONTENT_LENGTH,
		"CONTENT-TYPE":        parser.TokenTypes_CONTENT_TYPE,
		"CSEQ":                parser.TokenTypes_CSEQ,
		"DATE":                parser.TokenTypes_DATE,
		"E":                   parser.TokenTypes_CONTENT_ENCODING,
		"ERROR-INFO":          parser.TokenTypes_ERROR_INFO,
		"EVENT":               parser.TokenTypes_EVENT,
		"EXPIRES":             parser.TokenTypes_EXPIRES,
		"F":                   parser.TokenTypes_FROM,
		"FROM":                parser.TokenTypes_FROM,
		"I":                   parser.TokenTypes_CALL_ID,
		"IN-REPLY-TO":         parser.TokenTypes_IN_REPLY_TO,
		"K":                   parser.TokenTypes_SUPPORTED,
		"L":                   parser.TokenTypes_CONTENT_LENGTH,
		"M":                   parser.TokenTypes_CONTACT,
		"MAX-FORWARDS":        parser.TokenTypes_MAX_FORWARDS,
		"MIME-VERSION":        parser.TokenTypes_MIME_VERSION,
		"MIN-EXPIRES":         parser.TokenTypes_MIN_EXPIRES,
		"ORGANIZATION":        parser.TokenTypes_ORGANIZATION,
		"PRIORITY":            parser.TokenTypes_PRIORITY,
		"PROXY-AUTHENTICATE":  parser.TokenTypes_PROXY_AUTHENTICATE,
		"PROXY-AUTHORIZATION": parser.TokenTypes_PROXY_AUTHORIZATION,
		"PROXY-REQUIRE":       parser.TokenTypes_PROXY_REQUIRE,
		"R":                   parser.TokenTypes_REFER_TO,
		"RACK":                parser.TokenTypes_RACK,
		"REASON":              parser.TokenTypes_REASON,
		"RECORD-ROUTE":        parser.TokenTypes_RECORD_ROUTE,
		"REFER-TO":            parser.TokenTypes_REFER_TO,
		"REPLY-TO":            parser.TokenTypes_REPLY_TO,
		"REQUIRE":             parser.TokenTypes_REQUIRE,
		"RETRY-AFTER":         parser.TokenTypes_RETRY_AFTER,
		"ROUTE":               parser.TokenTypes_ROUTE,
		"RSEQ":                parser.TokenTypes_RSEQ,
		"S":                   parser.TokenTypes_SUBJECT,
		"SERVER":              parser.TokenTypes_SERVER,
		"SUBJECT":             parser.TokenTypes_SUBJECT,
		"SUBSCRIPTION-STATE":  parser.TokenTypes_SUBSCRIPTION_STATE,
		"SUPPORTED":           parser.TokenTypes_SUPPORTED,
		"T":                   parser.TokenTypes_TO,
		"TIMESTAMP":           parser.TokenTypes_TIMESTAMP,
		"TO":                  parser.TokenTypes_TO,
		"UNSUPPORTED":         parser.TokenTypes_UNSUPPORTED,
		"USER-AGENT":          parser.TokenTypes_USER_AGENT,
		"V":                   parser.TokenTypes_VIA,
		"VIA":                 parser.TokenTypes_VIA,
		"WARNING":             parser.TokenTypes_WARNING,
		"WWW-AUTHENTICATE":    parser.TokenTypes_WWW_AUTHENTICATE,
	},
	"status_lineLexer": {
		"SIP": parser.TokenTypes_SIP,
	},
	"request_lineLexer": {
		"SIP": parser.TokenTypes_SIP,
	},
	"sip_urlLexer": {
		"SIP":  parser.TokenTypes_SIP,
		"SIPS": parser.TokenTypes_SIP,
		"TEL":  parser.TokenTypes_TEL,
	},
}

// modes in a fixed order.
var modes = []string{"charLexer", "method_keywordLexer", "command_keywordLexer", "status_lineLexer", "request_lineLexer", "sip_urlLexer"}

// growModes: every word in every mode, reached from every other.
func growModes(c *mc.C, add adder) {
	if c.Prop != "C30" {
		return
	}
	ws := dict()
	var nos []int
	for i := range ws {
		nos = append(nos, i+1)
	}
	typeOf := func(mode, w string) int {
		if t, ok := keywords[mode][strings.ToUpper(w)]; ok {
			return t
		}
		return core.CORELEXER_ID
	}
	add("C30", "words in the modes of a SIP lexer", nos, func(k kk, n int) {
		for _, w := range variants(c, ws[n-1]) {
			if !isTokenText(w) {
				continue
			}
			for i, m := range modes {
				for j := -1; j < len(modes); j++ {
					if j >= 0 && !c.Thorough() && (n+i+j)%5 != 0 {
						continue
					}
					l := parser.NewSIPLexer(m, w+":"+w)
					how := m
					if j >= 0 { // to another mode and back
						l.SelectLexer(modes[j])
						if t, err := l.PeekNextToken(); err != nil || t.GetTokenType() != typeOf(modes[j], w) {
							k.ok(fmt.Sprintf("%q in %s, then %s: %v", w, m, modes[j], err), false)
						}
						l.SelectLexer(m)
						how += ", " + modes[j] + " and back"
					}
					want := typeOf(m, w)
					t, err := l.PeekNextToken()
					if err != nil || t.GetTokenValue() != w || t.GetTokenType() != want {
						k.ok(fmt.Sprintf("%q in %s is not of type %d: %v", w, how, want, err), false)
						continue
					}
					if l.GetPtr() != 0 {
						k.ok(fmt.Sprintf("%q in %s: looking ahead moves to %d", w, how, l.GetPtr()), false)
					}
					for _, o := range []int{want, core.CORELEXER_ID, parser.TokenTypes_FROM, parser.TokenTypes_SIP} {
						x := parser.NewSIPLexer(m, w+":"+w)
						t, err := x.Match(o)
						if o != want && o != core.CORELEXER_ID {
							if err == nil {
								k.ok(fmt.Sprintf("%q in %s matches type %d", w, m, o), false)
							}
						} else if err != nil || t.GetTokenValue() != w || t.GetTokenType() != o || x.GetPtr() != len(w) {
							k.ok(fmt.Sprintf("%q in %s does not match type %d: %v", w, m, o, err), false)
						}
					}
				}
			}
		}
		l := parser.NewSIPLexer("charLexer", "")
		for _, v := range []string{"", " ", "x", " a:b", ws[n-1], "\n"} {
			for _, blank := range []string{"", " "} {
				line := ws[n-1] + blank + ":" + v
				if l.GetHeaderName(line) != ws[n-1]+blank || l.GetHeaderValue(line) != v {
					k.ok(fmt.Sprintf("%q is divided into %q and %q", line, l.GetHeaderName(line), l.GetHeaderValue(line)), false)
				}
			}
		}
		if l.GetHeaderName(ws[n-1]) != "" || l.GetHeaderValue(ws[n-1]) != "" || l.GetHeaderName(":"+ws[n-1]) != "" || l.GetHeaderValue(":"+ws[n-1]) != ws[n-1] {
			k.ok(fmt.Sprintf("%q alone is divided", ws[n-1]), false)
		}
		k.ok("", true)
	})
}
