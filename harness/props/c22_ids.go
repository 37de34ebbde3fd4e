package props

import (
	"fmt"
	"strings"

	"verif/mc"
)

func init() {
	reg(&P{ID: "C22", Single: true, Rule: "requests and responses with every combination of From and To addresses and tags, call ids, sequence numbers, methods, sent-by and branch of the top Via: identifiers are equal exactly if what they stand for is; messages that lack headers", Run: c22})
}

type idMsg interface {
	msgI
	GetTransactionId() string
	GetDialogId(server bool) string
	GetDialogId2(server bool, tag string) string
}

func c22(c *mc.C) {
	addrs := []string{"<sip:a@h>", "<sip:a@h:5060>", "<sip:b@h>", "<sip:h>", "<tel:+1>", "<sip:a@i>"}
	same := map[string][]string{ // other texts of the same address
		"<sip:a@h>": {"\"N\" <sip:a@h>", "<sip:a@H;p=1>", "<sip:a:pw@h?x=y>"},
		"<sip:b@h>": {"<sips:b@h;lr>"},
		"<tel:+1>":  {"T <tel:+1>"},
	}
	tags := []string{"", "t1-u2", "t1-v3", "w-u2"}
	if c.Thorough() {
		addrs = append(addrs, "<sip:a@[::1]:7>", "<sip:ab@h>")
		tags = append(tags, "t1", "t1.u2")
	}
	cids := []string{"c1", "c2@h"}
	// identifier -> what it stands for, and back
	type table struct {
		what       string
		toID, from map[string]string
	}
	newTable := func(what string) *table { return &table{what, map[string]string{}, map[string]string{}} }
	note := func(k kk, t *table, tuple, id string) {
		if o, ok := t.toID[tuple]; ok {
			k.eq(t.what+" of the same thing", id, o)
		} else {
			t.toID[tuple] = id
		}
		if o, ok := t.from[id]; ok {
			k.eq("what has the "+t.what+" "+id, tuple, o)
		} else {
			t.from[id] = tuple
		}
		k.ok("empty "+t.what, id != "")
	}
	dialogs, trans := newTable("dialog id"), newTable("transaction id")
	withTag := func(addr, tag string) string {
		if tag != "" {
			return addr + ";tag=" + tag
		}
		return addr
	}
	up := func(s string, n int) string {
		if n%3 == 1 {
			return strings.ToUpper(s)
		}
		return s
	}
	starts := []string{"BYE sip:x SIP/2.0\r\n", "SIP/2.0 200 OK\r\n"}
	n := 0
	get := func(k kk, text string) idMsg {
		x, err := parseMsg(text)
		if err != nil {
			k.ok(fmt.Sprintf("%q is rejected: %v", text, err), false)
			return nil
		}
		return x.(idMsg)
	}
	forms := func(addr string, n int) string {
		f := same[addr]
		if n%4 == 0 || len(f) == 0 {
			return addr
		}
		return f[n%len(f)]
	}
	// dialogs
	for _, fa := range addrs {
		for _, ft := range tags {
			for _, ta := range addrs {
				for _, tt := range tags {
					for _, cid := range cids {
						for v := 0; v < 4; v++ {
							n++
							tuple := strings.Join([]string{cid, fa, ft, ta, tt}, " ")
							f, t := withTag(forms(fa, n+v), up(ft, n)), withTag(forms(ta, n*3+v), up(tt, n/3))
							lines := []string{"From: " + f, "t: " + t, "i: " + up(cid, n/9), "CSeq: 1 BYE", "Subject: s"}
							r := n % len(lines)
							text := starts[v%2] + strings.Join(append(append([]string{}, lines[r:]...), lines[:r]...), "\r\n") + "\r\n\r\n"
							mirror := strings.NewReplacer("From:", "To:", "t:", "From:").Replace(text)
							n, ft, tt := n, ft, tt
							key := text
							c.Mine()
							c.Run(key, func() {
								k := kk{c, key}
								c.Step(4)
								m := get(k, text)
								if m == nil {
									return
								}
								note(k, dialogs, tuple, m.GetDialogId(false))
								c.State(m.GetDialogId(false))
								// who called sees in the request it gets what the other sees in it
								o := get(k, mirror)
								if o == nil {
									return
								}
								k.eq("dialog id at the other end", o.GetDialogId(true), m.GetDialogId(false))
								k.eq("dialog id at this end", m.GetDialogId(true), o.GetDialogId(false))
								for _, tag := range tags {
									t2 := strings.Join([]string{cid, fa, ft, ta, tag}, " ")
									note(k, dialogs, t2, m.GetDialogId2(false, up(tag, n)))
									if n%2 == 0 {
										note(k, dialogs, strings.Join([]string{cid, ta, tag, fa, ft}, " "), m.GetDialogId2(true, tag))
									}
								}
								_ = tt
								c.Trace()
								if c.CaseNo()%997 == 0 {
									c.Sample("%q", text)
								}
							})
						}
					}
				}
			}
		}
	}
	c.Bound("dialogs", "%d", len(dialogs.toID))
	// transactions
	for _, fa := range addrs[:c.Pick(4, len(addrs))] {
		for _, ft := range tags {
			for _, ta := range addrs[:c.Pick(3, len(addrs))] {
				for _, cid := range cids {
					for _, cseq := range []string{"1 BYE", "1 ACK", "1 CANCEL", "2 BYE", "65537 BYE"} {
						for _, by := range []string{"p", "p:5060", "p:5061", "q"} {
							for _, br := range []string{"", "old", "z9hG4bKone", "Z9HG4BKtwo"} {
								for v := 0; v < 2; v++ {
									n++
									sent := by
									if !strings.Contains(by, ":") {
										sent += ":5060"
									}
									tuple := strings.Join([]string{fa, ft, ta, cid, cseq, sent}, " ")
									via := "Via: SIP/2.0/" + []string{"UDP", "TLS", "TCP", "tls", "SCTP"}[n%5] + " " + up(by, n)
									if br != "" {
										via += ";branch=" + br
										if len(br) > 5 {
											tuple = strings.ToLower(br)
										}
									}
									if n%2 == 0 {
										via += "\r\nVia: SIP/2.0/UDP z;branch=z9hG4bKother"
									}
									lines := []string{via, "f: " + withTag(forms(fa, n+v), up(ft, n)), "To: " + withTag(forms(ta, n*3+v), []string{"", "x", "y"}[n%3]), "Call-ID: " + up(cid, n/9), "CSeq: " + cseq}
									r := n % len(lines)
									text := strings.Replace(starts[v%2], "BYE", strings.Fields(cseq)[1], 1) + strings.Join(append(append([]string{}, lines[r:]...), lines[:r]...), "\r\n") + "\r\n\r\n"
									key := text
									c.Mine()
									c.Run(key, func() {
										k := kk{c, key}
										c.Step(1)
										if m := get(k, text); m != nil {
											note(k, trans, tuple, m.GetTransactionId())
											if len(br) > 5 {
												k.eq("transaction id", m.GetTransactionId(), strings.ToLower(br))
											}
											c.State(m.GetTransactionId())
										}
										c.Trace()
										if c.CaseNo()%9973 == 0 {
											c.Sample("%q", text)
										}
									})
								}
							}
						}
					}
				}
			}
		}
	}
	c.Bound("transactions", "%d", len(trans.toID))
	// messages that lack headers
	lines := []string{"Via: SIP/2.0/UDP p\r\n", "From: <sip:a@h>;tag=1\r\n", "To: <sip:b@h>\r\n", "Call-ID: c\r\n", "CSeq: 1 BYE\r\n"}
	for set := 0; set < 1<<uint(len(lines)); set++ {
		for _, s := range starts {
			text := s
			for i, l := range lines {
				if set>>uint(i)&1 != 0 {
					text += l
				}
			}
			text += "\r\n"
			key := text
			c.Mine()
			c.Run(key, func() {
				k := kk{c, key}
				c.Step(1)
				m := get(k, text)
				if m == nil {
					return
				}
				full := set&14 == 14
				for _, server := range []bool{false, true} {
					k.eq("has a dialog id", m.GetDialogId(server) != "", full)
					k.eq("has a dialog id with a tag", m.GetDialogId2(server, "t") != "", full)
				}
				_ = m.GetTransactionId()
				c.Trace()
			})
		}
	}
}
