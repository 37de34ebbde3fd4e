package props

import (
	"bytes"
	"fmt"
	"net"
	"strings"

	"github.com/use-go/gosips/rtp"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C35", Rule: "all pairs of addresses; all sequences to a depth of updating, asking, timing out and clearing a collision list, and of changing addresses after they were put in, in lock step with a table", Run: c35})
	reg(&P{ID: "C36", Rule: "seeds at and around every power of two and many others, times all sequences of draws of every kind and of seeding again, to a depth; long runs", Run: c36})
	reg(&P{ID: "C37", Rule: "all sequences to a depth of the setters of transmission parameters and of addresses, in lock step with a record; transmission information of every kind of address", Run: c37})
}

// naddr is an address of the model.
type naddr struct {
	host string // of a host address
	ip   net.IP
	port uint16
}

func (a naddr) make() rtp.Address {
	if a.ip != nil {
		return rtp.NewIPAddress(append(net.IP{}, a.ip...), a.port)
	}
	return rtp.NewHostAddress(a.host, a.port)
}

// id is the same for addresses of the same host, and with the port for the
// same address.
func (a naddr) id() string {
	if a.ip != nil {
		return "ip " + string(a.ip.To16())
	}
	return "host " + a.host
}

func (a naddr) full() string { return fmt.Sprintf("%s %d", a.id(), a.port) }

func (a naddr) name() string {
	if a.ip != nil {
		return fmt.Sprintf("%s(%d):%d", a.ip, len(a.ip), a.port)
	}
	return fmt.Sprintf("%q:%d", a.host, a.port)
}

func (a naddr) kind() rtp.AddressType {
	switch {
	case a.ip == nil:
		return rtp.HostAddressType
	case a.ip.To4() != nil:
		return rtp.IPv4AddressType
	}
	return rtp.IPv6AddressType
}

func naddrs() (r []naddr) {
	for _, port := range []uint16{0, 1, 5000, 5001, 65535} {
		for _, h := range []string{"", "a", "b", "A", "1.2.3.4", "a.example.com"} {
			r = append(r, naddr{host: h, port: port})
		}
		for _, s := range []string{"1.2.3.4", "1.2.3.5", "0.0.0.0", "::", "::1", "2001:db8::1", "::ffff:1.2.3.4"} {
			ip := net.ParseIP(s)
			r = append(r, naddr{ip: ip, port: port})
			if v4 := ip.To4(); v4 != nil {
				r = append(r, naddr{ip: v4, port: port})
			}
		}
	}
	return
}

// clobber changes an address in every way it can be changed.
func clobber(x rtp.Address) {
	switch t := x.(type) {
	case *rtp.IPAddress:
		ip := t.GetIP()
		for i := range ip {
			ip[i] ^= 0x5a
		}
		t.SetPort(t.GetPort() + 77)
	case *rtp.HostAddress:
		t.SetHost("changed")
		t.SetPort(t.GetPort() + 77)
	}
}

type lop struct {
	name string
	do   func(k kk, l *rtp.CollisionList, m map[string]int64)
}

func c35(c *mc.C) {
	as := naddrs()
	c.Bound("pairs of addresses", "all of %d", len(as))
	for _, a := range as {
		for _, b := range as {
			if c.Stop() {
				return
			}
			if !c.Mine() {
				continue
			}
			key := a.name() + " and " + b.name()
			c.Run(key, func() {
				k := kk{c, key}
				x, y := a.make(), b.make()
				c.Step(6)
				k.eq("same address", x.IsSameAddress(y), a.full() == b.full())
				k.eq("from the same host", x.IsFromSameHost(y), a.id() == b.id())
				k.eq("kind", x.GetAddressType(), a.kind())
				host := a.host
				if a.ip != nil {
					host = a.ip.String()
				}
				k.eq("text", x.String(), fmt.Sprintf("%s:%d", host, a.port))
				z := x.Clone()
				k.eq("clone is the same address", z.IsSameAddress(x) && x.IsSameAddress(z), true)
				k.eq("kind of the clone", z.GetAddressType(), a.kind())
				k.eq("clone and the other", z.IsSameAddress(y), a.full() == b.full())
				clobber(z)
				k.eq("text after the clone has changed", x.String(), fmt.Sprintf("%s:%d", host, a.port))
				z = x.Clone()
				clobber(x)
				k.eq("text of the clone after the original has changed", z.String(), fmt.Sprintf("%s:%d", host, a.port))
				c.State(key)
				c.Trace()
			})
		}
	}
	depth := c.Pick(4, 5)
	used := []naddr{{host: "a", port: 1}, {host: "a", port: 2}, {ip: net.IPv4(1, 2, 3, 4), port: 1}, {ip: net.IPv4(1, 2, 3, 4).To4(), port: 1}, {ip: net.ParseIP("::1"), port: 1}}
	times := []int64{0, 5000001, 10000000}
	var ops []lop
	at := func(n int64) *rtp.RTPTime { return rtpTime(uint32(n/1000000), uint32(n%1000000)) }
	for _, a := range used {
		for _, t := range times {
			ops = append(ops, lop{fmt.Sprintf("update %s at %d", a.name(), t), func(k kk, l *rtp.CollisionList, m map[string]int64) {
				x := a.make()
				tt := at(t)
				made, err := l.UpdateAddress(x, *tt)
				_, had := m[a.full()]
				k.eq("error of updating", err, nil)
				k.eq("made a new entry for "+a.name(), made, !had)
				clobber(x)
				tt.Add(at(77000000))
				m[a.full()] = t
			}})
		}
	}
	for _, now := range []int64{4, 10000000, 15000000} {
		for _, delay := range []int64{0, 5, 4999999, 10000000, 20000000} {
			ops = append(ops, lop{fmt.Sprintf("time out at %d after %d", now, delay), func(k kk, l *rtp.CollisionList, m map[string]int64) {
				n, d := at(now), at(delay)
				l.Timeout(n, d)
				for a, t := range m {
					if t+delay < now {
						delete(m, a)
					}
				}
				k.eq("current time", timeOf(n), now)
				k.eq("delay", timeOf(d), delay)
			}})
		}
	}
	ops = append(ops, lop{"clear", func(k kk, l *rtp.CollisionList, m map[string]int64) {
		l.Clear()
		for a := range m {
			delete(m, a)
		}
	}})
	ops = append(ops, lop{"update nothing", func(k kk, l *rtp.CollisionList, m map[string]int64) {
		made, err := l.UpdateAddress(nil, *at(1))
		k.eq("nothing is refused", err != nil && !made, true)
	}})
	c.Bound("operations on a collision list", "all sequences of %d of %d", depth, len(ops))
	var seq []lop
	var rec func()
	rec = func() {
		if c.Stop() {
			return
		}
		if len(seq) == depth {
			if c.Mine() {
				listOne(c, seq, as, used)
			}
			return
		}
		for _, o := range ops {
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

func listOne(c *mc.C, seq []lop, as, used []naddr) {
	var names []string
	for _, o := range seq {
		names = append(names, o.name)
	}
	key := strings.Join(names, ", ")
	c.Run(key, func() {
		k := kk{c, key}
		l := rtp.NewCollisionList()
		m := map[string]int64{}
		for i, o := range seq {
			c.Step(1)
			o.do(k, l, m)
			for _, a := range used {
				_, want := m[a.full()]
				if got := l.HasAddress(a.make()); got != want {
					k.eq(fmt.Sprintf("after %d operations has %s", i+1, a.name()), got, want)
				}
			}
		}
		k.eq("has another", l.HasAddress(rtp.NewHostAddress("z", 1)) || l.HasAddress(rtp.NewHostAddress("changed", 78)), false)
		c.State(fmt.Sprint(m))
		c.Trace()
	})
}

// rand48 is the reference generator.
type rand48 uint64

func (r *rand48) next() uint64 {
	*r = rand48((0x5DEECE66D*uint64(*r) + 0xB) & (1<<48 - 1))
	return uint64(*r)
}

func (r *rand48) seed(s uint32) { *r = rand48(uint64(s)<<16 | 0x330e) }

func c36(c *mc.C) {
	depth := c.Pick(5, 7)
	var seeds []uint32
	for i := uint(0); i < 32; i++ {
		seeds = append(seeds, 1<<i, 1<<i-1, ^uint32(1<<i))
	}
	for i := uint32(0); i < 1000; i++ {
		seeds = append(seeds, i*4294967+7)
	}
	draws := []string{"8", "16", "32", "double", "seed"}
	c.Bound("seeds", "%d", len(seeds))
	c.Bound("draws", "all sequences of %d of %v", depth, draws)
	step := func(k kk, what string, g *rtp.RandomRand48, m *rand48, i int) {
		switch what {
		case "8":
			if got, want := g.GetRandom8(), uint8(m.next()>>40); got != want {
				k.eq(fmt.Sprintf("draw %d, 8 bits", i), got, want)
			}
		case "16":
			if got, want := g.GetRandom16(), uint16(m.next()>>32); got != want {
				k.eq(fmt.Sprintf("draw %d, 16 bits", i), got, want)
			}
		case "32":
			if got, want := g.GetRandom32(), uint32(m.next()>>16); got != want {
				k.eq(fmt.Sprintf("draw %d, 32 bits", i), got, want)
			}
		case "double":
			got, want := g.GetRandomDouble(), float64(m.next())/float64(1<<48)
			if got != want || got < 0 || got >= 1 {
				k.eq(fmt.Sprintf("draw %d, double", i), got, want)
			}
		case "seed":
			g.SetSeed(uint32(i) * 0x9e3779b9)
			m.seed(uint32(i) * 0x9e3779b9)
		}
	}
	for _, s := range seeds {
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(draws)
		}
		if c.Stop() {
			return
		}
		if !c.Mine() {
			continue
		}
		const chunk = 3125
		for from := 0; from < total; from += chunk {
			key := fmt.Sprintf("seed %d, draws %d and on", s, from)
			c.Run(key, func() {
				k := kk{c, key}
				for n := from; n < from+chunk; n++ {
					g := rtp.NewRandomRand48FromSeed(s)
					var m rand48
					m.seed(s)
					for i, x := 0, n; i < depth; i, x = i+1, x/len(draws) {
						step(k, draws[x%len(draws)], g, &m, i)
					}
					c.Check(true, key, "")
				}
				c.Step(chunk * depth)
				c.State(key)
				c.Trace()
			})
		}
	}
	long := 20000
	some := seeds[:c.Pick(8, len(seeds))]
	c.Bound("long runs", "%d draws of each kind, from %d seeds", long, len(some))
	for _, s := range some {
		for _, d := range draws[:4] {
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("seed %d, %d draws of %s", s, long, d)
			c.Run(key, func() {
				k := kk{c, key}
				g := rtp.NewRandomRand48FromSeed(s)
				var m rand48
				m.seed(s)
				for i := 0; i < long; i++ {
					step(k, d, g, &m, i)
				}
				k.ok("", true)
				c.Step(long)
				c.Trace()
			})
		}
	}
	if c.Mine() {
		c.Run("unseeded", func() {
			g := rtp.NewRandomRand48()
			same := true
			first := g.GetRandom32()
			for i := 0; i < 20; i++ {
				same = same && g.GetRandom32() == first
			}
			c.Check(!same, "unseeded", "all draws are %d", first)
			c.Trace()
		})
	}
}

func c37(c *mc.C) {
	type rec map[string]string
	ips := func(ss ...string) (r []net.IP) {
		for _, s := range ss {
			r = append(r, net.ParseIP(s))
		}
		return
	}
	read := func(x interface{}, names []string) rec {
		r := rec{}
		for _, n := range names {
			r[n] = show(method(x, n)[0].Interface())
		}
		return r
	}
	type setter struct {
		set, get string
		vals     vals
	}
	run := func(name string, fresh func() interface{}, first rec, ss []setter, depth int) {
		var names []string
		type op struct {
			set, get string
			v        interface{}
		}
		var ops []op
		for _, s := range ss {
			names = append(names, s.get)
			for _, v := range s.vals {
				ops = append(ops, op{s.set, s.get, v})
			}
		}
		c.Bound(name, "all sequences of up to %d of %d settings", depth, len(ops))
		var seq []op
		var walk func()
		walk = func() {
			if c.Stop() {
				return
			}
			if c.Mine() {
				key := name
				for _, o := range seq {
					key += fmt.Sprintf(" %s(%v)", o.set, o.v)
				}
				c.Run(key, func() {
					x := fresh()
					m := read(x, names)
					for n, v := range first {
						c.Eq(key, n+" at first", m[n], v)
					}
					for _, o := range seq {
						c.Step(1)
						method(x, o.set, o.v)
						m[o.get] = show(o.v)
					}
					now := read(x, names)
					for _, n := range names {
						c.Eq(key, n, now[n], m[n])
					}
					c.State(fmt.Sprint(name, now))
					c.Trace()
				})
			}
			if len(seq) == depth {
				return
			}
			for _, o := range ops {
				seq = append(seq, o)
				walk()
				seq = seq[:len(seq)-1]
			}
		}
		walk()
	}
	run("transmission parameters", func() interface{} { return rtp.NewTransmissionParams() },
		rec{"GetPortbase": "5000", "GetMulticastTTL": "1", "GetMulticastInterfaceIndex": "0", "GetRTPSendBuffer": "32768", "GetRTPReceiveBuffer": "32768", "GetRTCPSendBuffer": "32768", "GetRTCPReceiveBuffer": "32768"},
		[]setter{
			{"SetTransmissionProtocol", "GetTransmissionProtocol", vals{rtp.IPv6UDPProto, rtp.ExternalProto}},
			{"SetBindIP", "GetBindIP", vals{net.ParseIP("1.2.3.4"), net.ParseIP("::1")}},
			{"SetMulticastInterfaceIndex", "GetMulticastInterfaceIndex", vals{uint32(3), uint32(1<<32 - 1)}},
			{"SetPortbase", "GetPortbase", vals{uint16(0), uint16(65534)}},
			{"SetMulticastTTL", "GetMulticastTTL", vals{uint8(0), uint8(255)}},
			{"SetLocalIPList", "GetLocalIPList", vals{ips("1.2.3.4"), ips("::1", "5.6.7.8")}},
			{"SetRTPSendBuffer", "GetRTPSendBuffer", vals{1, 100000}},
			{"SetRTPReceiveBuffer", "GetRTPReceiveBuffer", vals{2, 100001}},
			{"SetRTCPSendBuffer", "GetRTCPSendBuffer", vals{3, 100002}},
			{"SetRTCPReceiveBuffer", "GetRTCPReceiveBuffer", vals{4, 100003}},
		}, c.Pick(3, 4))
	run("host address", func() interface{} { return rtp.NewHostAddress("h", 9) }, rec{"GetHost": "h", "GetPort": "9"}, []setter{
		{"SetHost", "GetHost", vals{"", "x.y"}}, {"SetPort", "GetPort", vals{uint16(0), uint16(65535)}}}, 5)
	run("IP address", func() interface{} { return rtp.NewIPAddress(net.ParseIP("9.8.7.6"), 9) }, rec{"GetIP": "9.8.7.6", "GetPort": "9"}, []setter{
		{"SetIP", "GetIP", vals{net.ParseIP("1.2.3.4"), net.ParseIP("::1")}}, {"SetPort", "GetPort", vals{uint16(0), uint16(65535)}}}, 5)
	lists := [][]net.IP{nil, {}, ips("1.2.3.4"), {net.ParseIP("1.2.3.4").To4()}, ips("::1"), ips("1.2.3.4", "::1"), ips("::1", "1.2.3.4"), ips("2001:db8::1", "::2", "::3")}
	for _, l := range lists {
		for _, socks := range [][2]int{{0, 0}, {3, 4}, {-1, 1 << 30}} {
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("transmission information %v %v", l, socks)
			c.Run(key, func() {
				t := rtp.NewTransmissionInfo(l, socks[0], socks[1])
				want := rtp.IPv4UDPProto
				if len(l) > 0 && l[0].To4() == nil {
					want = rtp.IPv6UDPProto
				}
				c.Eq(key, "protocol", t.GetTransmissionProtocol(), want)
				c.Eq(key, "sockets", [2]int{t.GetRTPSocket(), t.GetRTCPSocket()}, socks)
				c.Eq(key, "addresses", fmt.Sprint(t.GetLocalIPList()), fmt.Sprint(l))
				c.Step(1)
				c.Trace()
			})
		}
	}
	// raw packets
	for n := 0; n < 64; n++ {
		for _, isrtp := range []bool{true, false} {
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("raw packet of %d bytes, RTP %v", n, isrtp)
			c.Run(key, func() {
				a, t := rtp.NewHostAddress("h", uint16(n)), rtpTime(uint32(n), 5)
				r := rtp.NewRawPacket(payloadOf(n), a, t, isrtp)
				c.Check(bytes.Equal(r.GetData(), payloadOf(n)) && r.GetDataLength() == n && r.IsRTP() == isrtp && r.GetSenderAddress().IsSameAddress(a) && timeOf(r.GetReceiveTime()) == int64(n)*1000000+5, key, "is %x", r.GetData())
				r.ZeroData()
				c.Check(len(r.GetData()) == 0 && r.GetDataLength() == 0, key, "has data after it was taken out")
				c.Step(1)
				c.Trace()
			})
		}
	}
}
