package props

import (
	"fmt"
	"net"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C29", Rule: "hosts (names to a length, IPv4 and IPv6 addresses) x ports, made, set and parsed by every entry point, read, encoded and parsed again; malformed ones, to be rejected; sequences of setters to a depth in lock step with a model", Run: c29})
}

func c29(c *mc.C) {
	var names []string
	for _, w := range words([]string{"a", "Z", "0", "-"}, c.Pick(3, 4)) {
		names = append(names, w, w+".b", "c."+w, w+"."+w+".", "x."+w+".y")
	}
	names = append(names, "example.com", "xn--bcher-kva.example", "a.b.c.d.e.f", "localhost", "1a", "a1", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.256")
	var v4 []string
	for _, a := range []int{0, 1, 9, 10, 99, 100, 127, 255} {
		for _, b := range []int{0, 1, 10, 255} {
			v4 = append(v4, fmt.Sprintf("%d.%d.%d.%d", a, b, (a+b)%256, b), fmt.Sprintf("%d.%d.%d.%d", b, a, a, 255-b))
		}
	}
	v6 := []string{"::", "::1", "1::", "fe80::1", "2001:db8::1", "2001:db8:0:0:8:800:200C:417A", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "ABCD:EF01:2345:6789:abcd:ef01:2345:6789", "1::8", "64:ff9b::192.0.2.33"}
	var hosts []string
	hosts = append(append(hosts, names...), v4...)
	for _, a := range v6 {
		hosts = append(hosts, "["+a+"]")
	}
	ports := []string{"", "0", "1", "80", "5060", "5061", "65535"}
	for p := 2; p < 65536; p += c.Pick(4099, 257) {
		ports = append(ports, strconv.Itoa(p))
	}
	c.Bound("hosts", "%d", len(hosts)+len(v6))
	c.Bound("ports", "%d", len(ports))
	for i, h := range hosts {
		for j, p := range ports {
			if j > 3 && i > 30 && i < len(hosts)-60 && j != 4+i%(len(ports)-4) {
				continue
			}
			if !c.Mine() {
				continue
			}
			in := h
			port := -1
			if p != "" {
				in += ":" + p
				port, _ = strconv.Atoi(p)
			}
			h := h
			c.Run(in, func() {
				k := kk{c, in}
				check := func(what string, hp *core.HostPort, err error) {
					c.Step(1)
					checkHostPort(k, what, hp, err, in, h, port)
				}
				hp, err := parser.NewStringMsgParser().ParseHostPort(in)
				check("parsed: ", hp, err)
				hp, err = core.NewHostNameParser(in).GetHostPort()
				check("parsed by the core: ", hp, err)
				if port < 0 {
					hh, err := parser.NewStringMsgParser().ParseHost(in)
					if c.Check(err == nil && hh != nil, in, "host %q is rejected: %v", in, err) {
						checkHost(k, "parsed as a host: ", hh, h)
					}
				}
				n := core.NewHostPort()
				k.eq("port of a new host and port", n.GetPort(), -1)
				n.SetHost(core.NewHost(h))
				if port >= 0 {
					n.SetPort(port)
				}
				check("made: ", n, nil)
				c.State(in)
				c.Trace()
			})
		}
	}
	for _, h := range v6 { // without brackets
		if !c.Mine() {
			continue
		}
		h := h
		c.Run("new "+h, func() {
			c.Step(1)
			checkHost(kk{c, "new " + h}, "", core.NewHost(h), h)
			c.State(h)
			c.Trace()
		})
	}
	for _, in := range []string{"", ":", ":5060", "h:", "h:x", "h: 1", "[::1", "[::1:5060", "[x]", "[]x", "@", " h", "<h>", ";", "h:99999999999999999999", "[::1]:", "h:5060x", "h:5060:5061", "h h", "h@h", "[::1]h", "h/", "a_b", "h:-1", ".", "..", ".a", "a..b", "a..", "a.b..c.d", "a..:1", "..1", "1..2.3"} {
		if !c.Mine() {
			continue
		}
		key := "bad " + in
		c.Run(key, func() {
			c.Step(2)
			hp, err := parser.NewStringMsgParser().ParseHostPort(in)
			c.Check(err != nil && hp == nil, key, "%q is accepted", in)
			if in != "h:" && !strings.HasPrefix(in, "h:") {
				h, err := parser.NewStringMsgParser().ParseHost(in)
				c.Check(err != nil && h == nil, key, "host %q is accepted", in)
			}
			c.Outcome("rejected")
			c.Trace()
		})
	}
	// setters
	type op struct {
		name        string
		do          func(h *core.Host)
		name2, kind string
	}
	var ops []op
	for _, n := range []string{"Example.COM", " h.org ", "h2", "255.1.1.1", " 0.0.0.0 ", "[FE80::2]"} {
		n := n
		ops = append(ops, op{"SetHostName " + n, func(h *core.Host) { h.SetHostName(n) }, strings.ToLower(strings.TrimSpace(n)), "name"})
	}
	for _, n := range []string{"1.2.3.4", "::1", "[fe80::2]", " 10.0.0.1 ", "2001:DB8::aB"} {
		n := n
		ops = append(ops, op{"SetHostAddress " + n, func(h *core.Host) { h.SetHostAddress(n) }, strings.TrimSpace(n), "address"},
			op{"SetAddress " + n, func(h *core.Host) { h.SetAddress(n) }, strings.TrimSpace(n), "address"})
	}
	ops = append(ops, op{"look", func(h *core.Host) { h.GetInetAddress(); h.GetIpAddress(); _ = h.String() }, "", ""})
	depth := c.Pick(3, 5)
	c.Bound("setter sequences", "up to %d of %d", depth, len(ops))
	for _, start := range []string{"start.org", "9.9.9.9", "[::9]"} {
		start := start
		var rec func(hist []int)
		rec = func(hist []int) {
			if c.Mine() {
				key := start
				for _, o := range hist {
					key += " | " + ops[o].name
				}
				c.Run(key, func() {
					h := core.NewHost(start)
					want := start
					for _, o := range hist {
						c.Step(1)
						ops[o].do(h)
						if ops[o].kind != "" {
							want = ops[o].name2
						}
					}
					checkHost(kk{c, key}, "", h, want)
					c.State(h.String())
					c.Trace()
				})
			}
			if len(hist) < depth {
				for o := range ops {
					rec(append(append([]int{}, hist...), o))
				}
			}
		}
		rec(nil)
	}
}

func ip(h string) net.IP { return net.ParseIP(strings.Trim(h, "[]")) }

// checkHost compares all a host says of itself with its name.
func checkHost(k kk, what string, h *core.Host, name string) {
	if h == nil {
		k.ok(what+"no host", false)
		return
	}
	out := name
	if strings.Contains(name, ":") && name[0] != '[' {
		out = "[" + name + "]"
	}
	lit := ip(name)
	k.eq(what+"text", h.String(), out)
	k.eq(what+"name", h.GetHostName(), name)
	k.eq(what+"address", h.GetAddress(), name)
	k.eq(what+"is a name", h.IsHostName(), lit == nil)
	k.eq(what+"is an IP address", h.IsIPAddress(), lit != nil)
	k.ok(fmt.Sprintf("%sinet address is %v, not %v", what, h.GetInetAddress(), lit), h.GetInetAddress().Equal(lit) && (h.GetInetAddress() == nil) == (lit == nil))
	k.ok(what+"inet address, asked again", h.GetInetAddress().Equal(lit))
	if lit == nil {
		k.eq(what+"IP address", h.GetIpAddress(), "")
	} else {
		k.eq(what+"IP address", h.GetIpAddress(), name)
	}
}

// checkHostPort compares a host and port with their text.
func checkHostPort(k kk, what string, hp *core.HostPort, err error, in, h string, port int) {
	if !k.ok(fmt.Sprintf("%s%q is rejected: %v", what, in, err), err == nil && hp != nil) {
		return
	}
	checkHost(k, what, hp.GetHost(), h)
	k.eq(what+"port", hp.GetPort(), port)
	k.eq(what+"has a port", hp.HasPort(), port >= 0)
	k.eq(what+"host and port", hp.String(), in)
	k.ok(what+"inet address", hp.GetInetAddress().Equal(ip(h)))
	cl, ok := hp.Clone().(*core.HostPort)
	if k.ok("no clone", ok && cl != nil) {
		k.eq(what+"clone", cl.String(), in)
		checkHost(k, what+"clone: ", cl.GetHost(), h)
		cl.SetPort(7)
		cl.GetHost().SetHostName("other")
		k.eq(what+"after its clone was changed", hp.String(), in)
	}
	hp.RemovePort()
	k.eq(what+"port removed", hp.String(), h)
	hp.SetPort(5070)
	k.eq(what+"port set", hp.String(), h+":5070")
}

// growHosts: all octets, ports and shapes of IPv6 addresses, and words.
func growHosts(c *mc.C, add adder) {
	if c.Prop != "C29" {
		return
	}
	whole := func(k kk, h string, port int) {
		in := h
		if port >= 0 {
			in += ":" + strconv.Itoa(port)
		}
		hp, err := parser.NewStringMsgParser().ParseHostPort(in)
		checkHostPort(k, "parsed: ", hp, err, in, h, port)
		hp, err = core.NewHostNameParser(in).GetHostPort()
		checkHostPort(k, "parsed by the core: ", hp, err, in, h, port)
		if port < 0 {
			x, err := parser.NewStringMsgParser().ParseHost(h)
			if k.ok(fmt.Sprintf("host %q is rejected: %v", h, err), err == nil && x != nil) {
				checkHost(k, "parsed as a host: ", x, h)
			}
		}
		n := core.NewHostPort()
		n.SetHost(core.NewHost(h))
		if port >= 0 {
			n.SetPort(port)
		}
		checkHostPort(k, "made: ", n, nil, in, h, port)
	}
	set := func(k kk, h string) {
		for _, start := range []string{"start.org", "9.9.9.9", "[::9]"} {
			x := core.NewHost(start)
			x.SetHostName(h)
			checkHost(k, "name set: ", x, strings.ToLower(h))
			x.SetHostName("mid")
			x.SetHostName(" " + h)
			checkHost(k, "name set again: ", x, strings.ToLower(h))
			if ip(h) == nil {
				continue
			}
			x = core.NewHost(start)
			x.SetHostAddress(h)
			checkHost(k, "address set: ", x, h)
			x.SetHostName("mid")
			x.SetAddress(h + " ")
			checkHost(k, "address set again: ", x, h)
		}
	}
	upTo := func(n int) (r []int) {
		for i := 1; i <= n; i++ {
			r = append(r, i)
		}
		return
	}
	add("C29", "octets", upTo(256), func(k kk, n int) {
		for _, o := range []int{0, 1, 10, 127, 192, 255} {
			for i := 0; i < 4; i++ {
				q := [4]int{o, o, o, o}
				q[i] = n - 1
				h := fmt.Sprintf("%d.%d.%d.%d", q[0], q[1], q[2], q[3])
				k := kk{k.c, k.key + ", " + h}
				whole(k, h, -1)
				whole(k, h, 5060)
				set(k, h)
			}
		}
	})
	add("C29", "ports, in blocks of 256", upTo(256), func(k kk, n int) {
		for p := (n - 1) * 256; p < n*256; p++ {
			for _, h := range []string{"h.org", "1.2.3.4", "[::1]"} {
				if p%3 == len(h)%3 || c.Thorough() || p < 1024 {
					whole(kk{k.c, k.key + ", " + strconv.Itoa(p)}, h, p)
				}
			}
		}
	})
	groups := []string{"0", "1", "f", "10", "FF", "a0b", "fFfF", "0000", "00a1"}
	add("C29", "IPv6 groups", upTo(8), func(k kk, n int) {
		for _, fill := range groups {
			for _, g := range groups {
				for gap := -1; gap < n; gap++ { // where zeroes are left out
					var parts []string
					for i := 0; i < n; i++ {
						parts = append(parts, fill)
					}
					for at := range parts {
						parts[at] = g
						var h string
						switch {
						case gap < 0 && n == 8:
							h = strings.Join(parts, ":")
						case gap >= 0 && n < 8:
							h = strings.Join(parts[:gap], ":") + "::" + strings.Join(parts[gap:], ":")
						default:
							continue
						}
						parts[at] = fill
						k := kk{k.c, k.key + ", " + h}
						whole(k, "["+h+"]", -1)
						whole(k, "["+h+"]", 5061)
						set(k, h)
						set(k, "["+h+"]")
						checkHost(k, "made: ", core.NewHost(h), h)
					}
				}
			}
		}
	})
	ws := dict()
	add("C29", "words in host names", upTo(len(ws)), func(k kk, n int) {
		for _, v := range variants(c, ws[n-1]) {
			for _, h := range []string{v, v + ".org", "x." + v, v + ".", v + "." + v} {
				if isHostName(h) || isHostName(strings.TrimSuffix(h, ".")) && strings.HasSuffix(h, ".") {
					whole(kk{k.c, k.key + ", " + h}, h, -1)
					whole(kk{k.c, k.key + ", " + h}, h, 5060)
					set(kk{k.c, k.key + ", " + h}, h)
				}
			}
		}
	})
}
