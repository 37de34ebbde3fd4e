package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C45", Rule: "all sequences of messages (good, malformed and with their content cut) to a length in one buffer x what separates them x what follows them x ways to read on, with one parser and with a new one for each message", Run: c45})
}

// piece is a message in a buffer: its text, whether it is accepted, its
// canonical text and how much of it is left over when it is not.
type piece struct {
	text, out string
	good      bool
	left      string
}

func c45(c *mc.C) {
	good := func(text string) piece {
		return piece{text: text, good: true, out: mustMsg(text).String()}
	}
	pieces := []piece{
		good("INVITE sip:a@h SIP/2.0\r\nVia: SIP/2.0/UDP h\r\nCSeq: 1 INVITE\r\nContent-Length: 9\r\n\r\nab\r\n\r\n\x00\xffc"),
		good("SIP/2.0 200 OK\nTo: <sip:a@b>\nl:29\nSubject: x\n y\n\nBYE sip:x SIP/2.0\r\nTo: <s\r\n\r\n"),
		good("ACK tel:1 SIP/2.0\r\nContent-Length: 0\r\nX: y\r\n\r\n"),
		good("SIP/2.0 100 Trying\r\nSubject: no length\r\n\r\n"),
		{text: "BYE sip:h SIP/2.0\r\nTo: <\r\nContent-Length: 3\r\n\r\nabc", left: "abc"},
		{text: "nonsense\n\nSIP/2.0", left: "SIP/2.0"},
	}
	tails := []string{"", "\r\n", "rest of\r\n\r\nno message", "\n\r\n\n", "SIP/2.0 200 OK\r\nContent-Length: 5\r\n\r\nabc"}
	seps := []string{"", "\r\n", "\n\n\r\n"}
	ways := []string{"bytes, same parser", "text, same parser", "bytes, new parser", "body first, same parser"}
	depth := c.Pick(3, 5)
	c.Bound("messages", "%d kinds, up to %d in a buffer, %d separators, %d tails, %d ways", len(pieces), depth, len(seps), len(tails), len(ways))
	for n := 1; n <= depth; n++ {
		sequences(len(pieces), n, func(seq []int) {
			if len(seq) < n {
				return
			}
			for _, sep := range seps {
				for _, tail := range tails {
					for _, way := range ways {
						if !c.Mine() {
							continue
						}
						key := fmt.Sprintf("%v %q %q %s", seq, sep, tail, way)
						c.Run(key, func() {
							k := kk{c, key}
							var buf bytes.Buffer
							for _, i := range seq {
								buf.WriteString(sep + pieces[i].text)
							}
							buf.WriteString(tail)
							rest := append([]byte{}, buf.Bytes()...)
							p := parser.NewStringMsgParser()
							for no, i := range seq {
								x := pieces[i]
								c.Step(1)
								if way == "bytes, new parser" {
									p = parser.NewStringMsgParser()
								}
								in := append([]byte{}, rest...)
								m, err := p.ParseSIPMessageFromByte(in)
								what := fmt.Sprintf("message %d: ", no)
								k.ok(fmt.Sprintf("%saccepted: %v", what, err), (err == nil) == x.good)
								k.ok(what+"the buffer is changed", bytes.Equal(in, rest))
								left := string(rest)[len(sep)+len(x.text):]
								if !x.good {
									left = x.left + left
								}
								if way == "body first, same parser" {
									k.eq(what+"content still to read", p.GetMessageBody()+string(p.GetBodyAsBytes()), "")
								}
								var got []byte
								if way == "text, same parser" {
									got = []byte(p.ReadToEnd())
								} else {
									got = p.ReadBytesToEnd()
								}
								for j := range in { // what was given is the caller's
									in[j] = 'x'
								}
								k.eq(what+"what follows it", string(got), left)
								for j := range got { // and so is what was read
									got[j] = 'y'
								}
								got = []byte(left)
								if err == nil && !isNil(m) {
									k.eq(what+"text", asMsg(m).String(), x.out)
								}
								k.eq(what+"read again", p.ReadToEnd()+string(p.ReadBytesToEnd())+p.GetMessageBody(), "")
								rest = got
								// a malformed message leaves its content: the next one starts after it
								if !x.good {
									rest = rest[len(x.left):]
								}
								c.State(fmt.Sprintf("%d %q", i, got))
							}
							// the tail
							m, err := p.ParseSIPMessageFromByte(rest)
							switch {
							case strings.TrimSpace(tail) == "":
								k.ok(fmt.Sprintf("nothing but empty lines gives %v, %v", m, err), isNil(m) && err == nil)
							default:
								k.ok("the tail is a message", isNil(m) && err != nil)
							}
							if strings.HasPrefix(tail, "SIP") { // its content is cut
								k.eq("content that is there", p.ReadToEnd(), "abc")
								// and this does not show in the next message
								m, err := p.ParseSIPMessage(pieces[3].text + "tail")
								k.ok(fmt.Sprintf("the next message: %v", err), err == nil && !isNil(m))
								k.eq("content of the next message still to read", p.GetMessageBody(), "")
								k.eq("what follows the next message", p.ReadToEnd(), "tail")
								// cut again, and not read
								p.ParseSIPMessage(tail)
								p.ParseSIPMessage(pieces[3].text + "tail")
								k.eq("content after the next message", p.GetMessageBody(), "")
								k.eq("what follows then", p.ReadToEnd(), "tail")
							}
							c.Trace()
						})
					}
				}
			}
		})
	}
}
