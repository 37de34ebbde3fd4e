package props

import (
	"strings"

	"verif/mc"
)

func init() {
	reg(&P{ID: "C39", Rule: "every header's values (spread over its grammar), and URIs, addresses, hosts, telephone numbers and start lines, with a mark in every notation inserted at every position: rejected, or the mark is in the encoding", Run: c39})
}

func c39(c *mc.C) {
	marks := []string{"Zq9", " Zq9", ";Zq9", ",Zq9", "; Zq9 = a", " Zq9=a", ";zz=Zq9", "(Zq9)", " (Zq9) ", "\"Zq9\"", " \"Zq9\"", "<Zq9>", " <sip:Zq9> ", "@Zq9", ":Zq9", "/Zq9", "?Zq9", "\\Zq9", "\x00Zq9", "\xc3\xa9Zq9", "Zq9 ", "Zq9,", "Zq9;", "Zq9:", "Zq9@", "Zq9/"}
	c.Bound("marks", "%d, at every position", len(marks))
	one := func(e entry, prefix, v, tail string) {
		for p := 0; p <= len(v); p++ {
			for _, m := range marks {
				if !c.Mine() {
					continue
				}
				in := prefix + v[:p] + m + v[p:] + tail
				key := e.name + " " + in
				c.Run(key, func() {
					c.Step(1)
					x, err := e.f(in)
					if err != nil {
						c.Outcome("rejected")
					} else {
						c.Outcome("accepted")
						enc := render(x, nil)
						c.State(enc)
						c.Check(strings.Contains(strings.ToLower(enc), "zq9"), key, "%s %q is accepted as %q", e.name, in, enc)
					}
					c.Trace()
				})
			}
		}
	}
	n := 0
	for _, s := range hspecs {
		for _, f := range spread(c.Pick(8, 200), s.forms(c)) {
			n++
			one(entries["headernl"], s.name+": ", f.in, "\n")
		}
	}
	for _, s := range hdrSeeds {
		n++
		i := strings.Index(s, ":")
		one(entries["headernl"], s[:i+1], s[i+1:], "\n")
	}
	c.Bound("header values", "%d", n)
	for _, u := range uriSeeds {
		one(entries["sipurl"], "", u, "")
		one(entries["url"], "", u, "")
	}
	for _, a := range addrSeeds {
		one(entries["address"], "", a, "")
	}
	for _, h := range hosts {
		one(entries["host"], "", h, "")
		one(entries["hostport"], "", h+":5060", "")
	}
	for _, t := range []string{"+1-212;isub=1;x=2", "911;postdial=1"} {
		one(entries["tel"], "", t, "")
	}
	for _, r := range reqLineSeeds {
		one(entries["reqline"], "", r, "")
		one(entries["message"], "", r, "\r\n\r\n")
	}
	for _, r := range statusLineSeeds {
		one(entries["statusline"], "", r, "")
		one(entries["message"], "", r, "\r\n\r\n")
	}
}
