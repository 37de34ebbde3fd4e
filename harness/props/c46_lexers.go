package props

import (
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C46", Rule: "every parser of the library, made directly from a text, from a lexer on the text in every mode, and from a lexer that has read something before, on the header values of its kind and on malformed ones, against the parser factory", Run: c46})
}

type headerParser interface {
	Parse() (header.Header, error)
}

var headerParsers = []struct {
	name string
	text func(s string) headerParser
	lex  func(l core.Lexer) headerParser
}{
	{"AcceptEncodingParser", func(s string) headerParser { return parser.NewAcceptEncodingParser(s) }, func(l core.Lexer) headerParser { return parser.NewAcceptEncodingParserFromLexer(l) }},
	{"AcceptLanguageParser", func(s string) headerParser { return parser.NewAcceptLanguageParser(s) }, func(l core.Lexer) headerParser { return parser.NewAcceptLanguageParserFromLexer(l) }},
	{"AcceptParser", func(s string) headerParser { return parser.NewAcceptParser(s) }, func(l core.Lexer) headerParser { return parser.NewAcceptParserFromLexer(l) }},
	{"AlertInfoParser", func(s string) headerParser { return parser.NewAlertInfoParser(s) }, func(l core.Lexer) headerParser { return parser.NewAlertInfoParserFromLexer(l) }},
	{"AllowEventsParser", func(s string) headerParser { return parser.NewAllowEventsParser(s) }, func(l core.Lexer) headerParser { return parser.NewAllowEventsParserFromLexer(l) }},
	{"AllowParser", func(s string) headerParser { return parser.NewAllowParser(s) }, func(l core.Lexer) headerParser { return parser.NewAllowParserFromLexer(l) }},
	{"AuthenticationInfoParser", func(s string) headerParser { return parser.NewAuthenticationInfoParser(s) }, func(l core.Lexer) headerParser { return parser.NewAuthenticationInfoParserFromLexer(l) }},
	{"AuthorizationParser", func(s string) headerParser { return parser.NewAuthorizationParser(s) }, func(l core.Lexer) headerParser { return parser.NewAuthorizationParserFromLexer(l) }},
	{"CSeqParser", func(s string) headerParser { return parser.NewCSeqParser(s) }, func(l core.Lexer) headerParser { return parser.NewCSeqParserFromLexer(l) }},
	{"CallIDParser", func(s string) headerParser { return parser.NewCallIDParser(s) }, func(l core.Lexer) headerParser { return parser.NewCallIDParserFromLexer(l) }},
	{"CallInfoParser", func(s string) headerParser { return parser.NewCallInfoParser(s) }, func(l core.Lexer) headerParser { return parser.NewCallInfoParserFromLexer(l) }},
	{"ContactParser", func(s string) headerParser { return parser.NewContactParser(s) }, func(l core.Lexer) headerParser { return parser.NewContactParserFromLexer(l) }},
	{"ContentDispositionParser", func(s string) headerParser { return parser.NewContentDispositionParser(s) }, func(l core.Lexer) headerParser { return parser.NewContentDispositionParserFromLexer(l) }},
	{"ContentEncodingParser", func(s string) headerParser { return parser.NewContentEncodingParser(s) }, func(l core.Lexer) headerParser { return parser.NewContentEncodingParserFromLexer(l) }},
	{"ContentLanguageParser", func(s string) headerParser { return parser.NewContentLanguageParser(s) }, func(l core.Lexer) headerParser { return parser.NewContentLanguageParserFromLexer(l) }},
	{"ContentLengthParser", func(s string) headerParser { return parser.NewContentLengthParser(s) }, func(l core.Lexer) headerParser { return parser.NewContentLengthParserFromLexer(l) }},
	{"ContentTypeParser", func(s string) headerParser { return parser.NewContentTypeParser(s) }, func(l core.Lexer) headerParser { return parser.NewContentTypeParserFromLexer(l) }},
	{"DateParser", func(s string) headerParser { return parser.NewDateParser(s) }, func(l core.Lexer) headerParser { return parser.NewDateParserFromLexer(l) }},
	{"ErrorInfoParser", func(s string) headerParser { return parser.NewErrorInfoParser(s) }, func(l core.Lexer) headerParser { return parser.NewErrorInfoParserFromLexer(l) }},
	{"EventParser", func(s string) headerParser { return parser.NewEventParser(s) }, func(l core.Lexer) headerParser { return parser.NewEventParserFromLexer(l) }},
	{"ExpiresParser", func(s string) headerParser { return parser.NewExpiresParser(s) }, func(l core.Lexer) headerParser { return parser.NewExpiresParserFromLexer(l) }},
	{"FromParser", func(s string) headerParser { return parser.NewFromParser(s) }, func(l core.Lexer) headerParser { return parser.NewFromParserFromLexer(l) }},
	{"InReplyToParser", func(s string) headerParser { return parser.NewInReplyToParser(s) }, func(l core.Lexer) headerParser { return parser.NewInReplyToParserFromLexer(l) }},
	{"MaxForwardsParser", func(s string) headerParser { return parser.NewMaxForwardsParser(s) }, func(l core.Lexer) headerParser { return parser.NewMaxForwardsParserFromLexer(l) }},
	{"MimeVersionParser", func(s string) headerParser { return parser.NewMimeVersionParser(s) }, func(l core.Lexer) headerParser { return parser.NewMimeVersionParserFromLexer(l) }},
	{"MinExpiresParser", func(s string) headerParser { return parser.NewMinExpiresParser(s) }, func(l core.Lexer) headerParser { return parser.NewMinExpiresParserFromLexer(l) }},
	{"OrganizationParser", func(s string) headerParser { return parser.NewOrganizationParser(s) }, func(l core.Lexer) headerParser { return parser.NewOrganizationParserFromLexer(l) }},
	{"PriorityParser", func(s string) headerParser { return parser.NewPriorityParser(s) }, func(l core.Lexer) headerParser { return parser.NewPriorityParserFromLexer(l) }},
	{"ProxyAuthenticateParser", func(s string) headerParser { return parser.NewProxyAuthenticateParser(s) }, func(l core.Lexer) headerParser { return parser.NewProxyAuthenticateParserFromLexer(l) }},
	{"ProxyAuthorizationParser", func(s string) headerParser { return parser.NewProxyAuthorizationParser(s) }, func(l core.Lexer) headerParser { return parser.NewProxyAuthorizationParserFromLexer(l) }},
	{"ProxyRequireParser", func(s string) headerParser { return parser.NewProxyRequireParser(s) }, func(l core.Lexer) headerParser { return parser.NewProxyRequireParserFromLexer(l) }},
	{"RAckParser", func(s string) headerParser { return parser.NewRAckParser(s) }, func(l core.Lexer) headerParser { return parser.NewRAckParserFromLexer(l) }},
	{"RSeqParser", func(s string) headerParser { return parser.NewRSeqParser(s) }, func(l core.Lexer) headerParser { return parser.NewRSeqParserFromLexer(l) }},
	{"ReasonParser", func(s string) headerParser { return parser.NewReasonParser(s) }, func(l core.Lexer) headerParser { return parser.NewReasonParserFromLexer(l) }},
	{"RecordRouteParser", func(s string) headerParser { return parser.NewRecordRouteParser(s) }, func(l core.Lexer) headerParser { return parser.NewRecordRouteParserFromLexer(l) }},
	{"ReferToParser", func(s string) headerParser { return parser.NewReferToParser(s) }, func(l core.Lexer) headerParser { return parser.NewReferToParserFromLexer(l) }},
	{"ReplyToParser", func(s string) headerParser { return parser.NewReplyToParser(s) }, func(l core.Lexer) headerParser { return parser.NewReplyToParserFromLexer(l) }},
	{"RequireParser", func(s string) headerParser { return parser.NewRequireParser(s) }, func(l core.Lexer) headerParser { return parser.NewRequireParserFromLexer(l) }},
	{"RetryAfterParser", func(s string) headerParser { return parser.NewRetryAfterParser(s) }, func(l core.Lexer) headerParser { return parser.NewRetryAfterParserFromLexer(l) }},
	{"RouteParser", func(s string) headerParser { return parser.NewRouteParser(s) }, func(l core.Lexer) headerParser { return parser.NewRouteParserFromLexer(l) }},
	{"ServerParser", func(s string) headerParser { return parser.NewServerParser(s) }, func(l core.Lexer) headerParser { return parser.NewServerParserFromLexer(l) }},
	{"SubjectParser", func(s string) headerParser { return parser.NewSubjectParser(s) }, func(l core.Lexer) headerParser { return parser.NewSubjectParserFromLexer(l) }},
	{"SubscriptionStateParser", func(s string) headerParser { return parser.NewSubscriptionStateParser(s) }, func(l core.Lexer) headerParser { return parser.NewSubscriptionStateParserFromLexer(l) }},
	{"SupportedParser", func(s string) headerParser { return parser.NewSupportedParser(s) }, func(l core.Lexer) headerParser { return parser.NewSupportedParserFromLexer(l) }},
	{"TimeStampParser", func(s string) headerParser { return parser.NewTimeStampParser(s) }, func(l core.Lexer) headerParser { return parser.NewTimeStampParserFromLexer(l) }},
	{"ToParser", func(s string) headerParser { return parser.NewToParser(s) }, func(l core.Lexer) headerParser { return parser.NewToParserFromLexer(l) }},
	{"UnsupportedParser", func(s string) headerParser { return parser.NewUnsupportedParser(s) }, func(l core.Lexer) headerParser { return parser.NewUnsupportedParserFromLexer(l) }},
	{"UserAgentParser", func(s string) headerParser { return parser.NewUserAgentParser(s) }, func(l core.Lexer) headerParser { return parser.NewUserAgentParserFromLexer(l) }},
	{"ViaParser", func(s string) headerParser { return parser.NewViaParser(s) }, func(l core.Lexer) headerParser { return parser.NewViaParserFromLexer(l) }},
	{"WWWAuthenticateParser", func(s string) headerParser { return parser.NewWWWAuthenticateParser(s) }, func(l core.Lexer) headerParser { return parser.NewWWWAuthenticateParserFromLexer(l) }},
	{"WarningParser", func(s string) headerParser { return parser.NewWarningParser(s) }, func(l core.Lexer) headerParser { return parser.NewWarningParserFromLexer(l) }},
}

// parserOf is the name of the parser of a header.
func parserOf(line string) string {
	p, err := parser.CreateParser(line)
	if err != nil {
		return ""
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", p), "*parser.")
}

var lexerModes = []string{"charLexer", "CharLexer", "command_keywordLexer", "sip_urlLexer", "method_keywordLexer", "status_lineLexer"}

// lexerOn is a lexer of a mode on a text that it reaches after a word.
func lexerOn(mode, before, text string) core.Lexer {
	l := parser.NewSIPLexer(mode, before+text)
	for i := 0; i < len(before); i++ {
		l.ConsumeK(1)
	}
	return l
}

func said(x interface{}, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprintf("%T %s %s", x, render(x, nil), digest(x))
}

func c46(c *mc.C) {
	befores := []string{"", "INVITE ", "x: y\n", "Via: "}
	found := map[string]int{}
	try := func(line string) {
		pn := parserOf(line)
		for _, hp := range headerParsers {
			if hp.name != pn {
				continue
			}
			found[pn]++
			if !c.Mine() {
				return
			}
			hp := hp
			key := hp.name + " " + line
			c.Run(key, func() {
				k := kk{c, key}
				p, err := parser.CreateParser(line)
				if !c.Check(err == nil, key, "no parser: %v", err) {
					return
				}
				want := said(p.Parse())
				c.Step(1)
				k.eq("parser made from the text", said(hp.text(line).Parse()), want)
				for _, mode := range lexerModes {
					for _, b := range befores {
						c.Step(1)
						k.eq(fmt.Sprintf("parser made from a %s after %q", mode, b), said(hp.lex(lexerOn(mode, b, line)).Parse()), want)
					}
				}
				// a parser kept from an earlier line has no part in it
				l := parser.NewSIPLexer("charLexer", line)
				hp.lex(l)
				k.eq("second parser on one lexer", said(hp.lex(l).Parse()), want)
				c.State(want)
				c.Outcome(fmt.Sprint("rejected: ", want == "error"))
				c.Trace()
			})
			return
		}
	}
	total := 0
	for _, s := range hspecs {
		if s.ext {
			continue
		}
		for _, f := range spread(c.Pick(10, 100), s.forms(c)) {
			for _, n := range append([]string{s.name, strings.ToLower(s.name)}, s.alts...) {
				total++
				line := n + ": " + f.in + "\n"
				try(line)
				for i := len(n) + 2; i < len(line); i += c.Pick(7, 2) {
					try(line[:i] + "\n")
					try(line[:i] + "\"" + line[i:])
				}
			}
		}
	}
	c.Bound("header lines", "%d", total)
	for _, hp := range headerParsers {
		if found[hp.name] == 0 {
			panic("no line for " + hp.name)
		}
	}
	c.Bound("parsers", "%d", len(headerParsers))

	type sub struct {
		name string
		text func(s string) string
		lex  func(l core.Lexer) string
		ins  []string
	}
	line := func(ss []string) []string { // lines end with a newline
		var r []string
		for _, s := range ss {
			r = append(r, s+"\n")
		}
		return r
	}
	var hostports []string
	for _, h := range hosts {
		hostports = append(hostports, h, h+":5060")
	}
	subs := []sub{
		{"URLParser", func(s string) string { return said(parser.NewURLParser(s).Parse()) }, func(l core.Lexer) string { return said(parser.NewURLParserFromLexer(l).Parse()) }, uriSeeds},
		{"RequestLineParser", func(s string) string { return said(parser.NewRequestLineParser(s).Parse()) }, func(l core.Lexer) string { return said(parser.NewRequestLineParserFromLexer(l).Parse()) }, line(reqLineSeeds)},
		{"StatusLineParser", func(s string) string { return said(parser.NewStatusLineParser(s).Parse()) }, func(l core.Lexer) string { return said(parser.NewStatusLineParserFromLexer(l).Parse()) }, line(statusLineSeeds)},
		{"AddressParser", func(s string) string { return said(parser.NewAddressParser(s).Address()) }, func(l core.Lexer) string { return said(parser.NewAddressParserFromLexer(l).Address()) }, addrSeeds},
		{"HostNameParser", func(s string) string { return said(core.NewHostNameParser(s).GetHostPort()) }, func(l core.Lexer) string { return said(core.NewHostNameParserFromLexer(l).GetHostPort()) }, hostports},
	}
	for _, s := range subs {
		s := s
		for _, whole := range s.ins {
			for i := len(whole); i > 0; i -= c.Pick(3, 1) {
				if !c.Mine() {
					continue
				}
				in := whole[:i]
				if strings.HasSuffix(whole, "\n") && i < len(whole) {
					in += "\n"
				}
				key := s.name + " " + in
				c.Run(key, func() {
					k := kk{c, key}
					want := s.text(in)
					for _, mode := range lexerModes {
						for _, b := range befores {
							c.Step(1)
							k.eq(fmt.Sprintf("parser made from a %s after %q", mode, b), s.lex(lexerOn(mode, b, in)), want)
						}
					}
					c.State(want)
					c.Outcome(fmt.Sprint("rejected: ", want == "error"))
					c.Trace()
				})
			}
		}
	}
}
