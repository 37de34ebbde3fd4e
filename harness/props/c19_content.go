package props

import (
	"fmt"
	"strconv"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C19", Rule: "all sequences of operations that set and remove the content, its type and its length, in every form, to a depth, on fresh and parsed messages, in lock step with a record of content, type and length", Run: c19})
}

type contentMsg interface {
	editable
	SetMessageContent(s string)
	SetMessageContentFromByte(b []byte)
	SetMessageContentFromString(t, s, c string)
	SetMessageContent3(t, s string, c []byte)
	SetContent(x interface{}, h header.ContentTypeHeader)
	RemoveContent()
	SetContentLength(h header.ContentLengthHeader)
}

type cmodel struct {
	content string
	length  int // -1: no Content-Length header
	typ     string
	subject bool
}

func c19(c *mc.C) {
	type op struct {
		name string
		do   func(m contentMsg)
		mod  func(m *cmodel)
	}
	ct := func(s string) header.ContentTypeHeader { return one("Content-Type", s).(header.ContentTypeHeader) }
	cl := func(n int) header.Header { return one("Content-Length", strconv.Itoa(n)) }
	var ops []op
	add := func(name string, do func(m contentMsg), mod func(m *cmodel)) { ops = append(ops, op{name, do, mod}) }
	for _, s := range []string{"abc", "\x00\xff\xc3\xa9\r\n", "", "a longer content\r\n", " z\x00\x00", "\r\n\r\n"} {
		s := s
		add(fmt.Sprintf("SetMessageContent %q", s), func(m contentMsg) { m.SetMessageContent(s) }, func(m *cmodel) { m.content, m.length = s, len(s) })
		add(fmt.Sprintf("SetMessageContentFromByte %q", s), func(m contentMsg) { m.SetMessageContentFromByte([]byte(s)) }, func(m *cmodel) { m.content, m.length = s, len(s) })
	}
	add("SetMessageContentFromString", func(m contentMsg) { m.SetMessageContentFromString("text", "plain", "h\xc3\xa4") }, func(m *cmodel) { m.content, m.length, m.typ = "h\xc3\xa4", 3, "text/plain" })
	add("SetMessageContent3", func(m contentMsg) { m.SetMessageContent3("a", "b", []byte("xy\n")) }, func(m *cmodel) { m.content, m.length, m.typ = "xy\n", 3, "a/b" })
	add("SetContent string", func(m contentMsg) { m.SetContent("v=0", ct("application/sdp;x=1")) }, func(m *cmodel) { m.content, m.length, m.typ = "v=0", 3, "application/sdp;x=1" })
	add("SetContent bytes", func(m contentMsg) { m.SetContent([]byte("w=00"), ct("c/d")) }, func(m *cmodel) { m.content, m.length, m.typ = "w=00", 4, "c/d" })
	add("SetContent empty string", func(m contentMsg) { m.SetContent("", ct("e/f")) }, func(m *cmodel) { m.content, m.length, m.typ = "", 0, "e/f" })
	add("SetContent no bytes", func(m contentMsg) { m.SetContent([]byte(nil), ct("k/l")) }, func(m *cmodel) { m.content, m.length, m.typ = "", 0, "k/l" })
	add("SetContent empty bytes", func(m contentMsg) { m.SetContent([]byte{}, ct("m/n")) }, func(m *cmodel) { m.content, m.length, m.typ = "", 0, "m/n" })
	add("SetMessageContentFromByte none", func(m contentMsg) { m.SetMessageContentFromByte(nil) }, func(m *cmodel) { m.content, m.length = "", 0 })
	add("RemoveContent", func(m contentMsg) { m.RemoveContent() }, func(m *cmodel) { m.content, m.length = "", 0 })
	add("SetContentLength", func(m contentMsg) { m.SetContentLength(cl(2).(header.ContentLengthHeader)) }, func(m *cmodel) { m.length = 2 })
	add("SetHeader Content-Length", func(m contentMsg) { m.SetHeader(cl(1)) }, func(m *cmodel) { m.length = 1 })
	add("AttachHeader Content-Length", func(m contentMsg) { m.AttachHeader(cl(3)) }, func(m *cmodel) { m.length = 3 })
	add("AddHeader Content-Length", func(m contentMsg) { m.AddHeader(cl(4)) }, func(m *cmodel) { m.length = 4 })
	add("AttachHeader Content-Length 0", func(m contentMsg) { m.AttachHeader(cl(0)) }, func(m *cmodel) { m.length = 0 })
	add("AddHeader Content-Length 0", func(m contentMsg) { m.AddHeader(cl(0)) }, func(m *cmodel) { m.length = 0 })
	add("SetContentLength 0", func(m contentMsg) { m.SetContentLength(cl(0).(header.ContentLengthHeader)) }, func(m *cmodel) { m.length = 0 })
	add("RemoveHeader Content-Length", func(m contentMsg) { m.RemoveHeader("content-length") }, func(m *cmodel) { m.length = -1 })
	add("RemoveHeader2 Content-Length", func(m contentMsg) { m.RemoveHeader2("Content-Length", true) }, func(m *cmodel) { m.length = -1 })
	add("SetHeader Content-Type", func(m contentMsg) { m.SetHeader(ct("g/h")) }, func(m *cmodel) { m.typ = "g/h" })
	add("AddHeader Content-Type", func(m contentMsg) { m.AddHeader(ct("i/j")) }, func(m *cmodel) {
		if m.typ == "" {
			m.typ = "i/j"
		}
	})
	add("RemoveHeader Content-Type", func(m contentMsg) { m.RemoveHeader("CONTENT-TYPE") }, func(m *cmodel) { m.typ = "" })
	add("read", func(m contentMsg) {
		_ = m.GetMessageContent()
		_ = m.GetContent()
		_ = m.String()
		_ = m.EncodeAsBytes()
	}, func(m *cmodel) {})
	starts := []struct {
		text string
		mod  cmodel
	}{
		{"", cmodel{}},
		{"OPTIONS sip:h SIP/2.0\r\nl: 4\r\nc: a/b\r\nSubject: s\r\n\r\nbody", cmodel{"body", 4, "a/b", true}},
		{"SIP/2.0 200 OK\r\nSubject: s\r\n\r\n", cmodel{subject: true}},
	}
	depth := c.Pick(3, 5)
	c.Bound("operations", "all sequences of up to %d of %d, from %d messages", depth, len(ops), len(starts))
	var rec func(seq []int)
	rec = func(seq []int) {
		for _, s := range starts {
			if !c.Mine() {
				continue
			}
			names := ""
			for _, i := range seq {
				names += ops[i].name + "; "
			}
			key := fmt.Sprintf("%.8q: %s", s.text, names)
			c.Run(key, func() {
				var m contentMsg
				if s.text == "" {
					m = message.NewSIPResponse()
				} else {
					x, err := parseMsg(s.text)
					if err != nil {
						c.Fail(key, "%v", err)
						return
					}
					m = x.(contentMsg)
				}
				mod := s.mod
				for _, i := range seq {
					c.Step(1)
					ops[i].do(m)
					ops[i].mod(&mod)
				}
				observeContent(kk{c, key}, m, mod)
				c.State(fmt.Sprint(s.text, mod))
				c.Trace()
				if c.CaseNo()%9973 == 0 {
					c.Sample("%s -> %+v", key, mod)
				}
			})
		}
		if len(seq) < depth {
			for i := range ops {
				rec(append(append([]int{}, seq...), i))
			}
		}
	}
	rec(nil)
}

func observeContent(k kk, m contentMsg, mod cmodel) {
	k.eq("content", m.GetContent(), mod.content)
	k.eq("message content", m.GetMessageContent(), mod.content)
	if mod.content != "" {
		k.eq("has content", m.HasContent(), true)
	}
	text := ""
	switch x := m.(type) {
	case *message.SIPRequest:
		text = x.GetFirstLine()
	case *message.SIPResponse:
		text = x.GetFirstLine()
	}
	start := text
	has := map[string]string{"Content-Type": mod.typ}
	if mod.length >= 0 {
		has["Content-Length"] = strconv.Itoa(mod.length)
	}
	if mod.subject {
		has["Subject"] = "s"
	}
	for _, n := range []string{"Content-Type", "Subject", "Content-Length"} {
		k.eq("has "+n, m.HasHeader(n), has[n] != "")
		k.eq(n, hstr(m.GetHeader(n)), has[n])
	}
	k.eq("length", hstr(m.GetContentLength()), has["Content-Length"])
	k.eq("type", hstr(m.GetContentTypeHeader()), mod.typ)
	if mod.length < 0 {
		// nothing says how it is encoded without its length
		return
	}
	// the type comes after or before the subject, as they were set
	hs := []string{"Subject", "Content-Type"}
	for e := m.GetHeaderNames().Front(); e != nil; e = e.Next() {
		if n := e.Value.(header.Header).GetName(); n == "Content-Type" {
			hs = []string{"Content-Type", "Subject"}
			break
		} else if n == "Subject" {
			break
		}
	}
	for _, n := range hs {
		if has[n] != "" {
			text += n + ": " + has[n] + "\r\n"
		}
	}
	text += "Content-Length: " + strconv.Itoa(mod.length) + "\r\n\r\n" + mod.content
	k.eq("encoding", m.String(), text)
	k.eq("encoding as bytes", string(m.EncodeAsBytes()), text)
	if e := m.EncodeAsBytes(); len(e) > 0 { // a caller may write into what it was given
		for i := range e {
			e[i] = 'X'
		}
		k.eq("content after the encoding was written to", m.GetContent(), mod.content)
		k.eq("encoding after that", m.String(), text)
	}
	if mod.length == len(mod.content) && start != "" {
		m2, err := parseMsg(m.String())
		if err != nil {
			k.ok(fmt.Sprintf("%q is rejected: %v", m.String(), err), false)
			return
		}
		k.eq("parsed content", m2.GetContent(), mod.content)
		k.eq("encoding of the parsed encoding", m2.String(), text)
	}
}
