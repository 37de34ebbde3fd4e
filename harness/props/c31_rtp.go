package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"os"
	"time"

	"github.com/use-go/gosips/rtp"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C31", Rule: "RTP packets of every payload type, marker, number of sources, extension and payload within bounds, and every sequence number; pairs of builds on one packet", Run: c31})
	reg(&P{ID: "C32", Rule: "received bytes: every first byte and second byte, every length, extension lengths and padding counts within bounds; pairs of receptions on one packet", Run: c32})
	reg(&P{ID: "C33", Rule: "RTCP APP and BYE packets: every first byte, every length, last byte and reason length within bounds", Run: c33})
	reg(&P{ID: "C34", Rule: "all pairs of times from a grid of seconds and of microseconds at and around every boundary; all microseconds; floating-point times", Run: c34})
}

// rtpPkt is a packet of the model.
type rtpPkt struct {
	pt      uint8
	marker  bool
	seq     uint16
	ts      uint32
	ssrc    uint32
	csrcs   []uint32
	ext     bool
	extID   uint16
	extData []uint32
	payload []byte
	moreC   int // sources announced when building, but not given
	moreX   int // words of the extension likewise
}

func (p *rtpPkt) bytes() []byte {
	var b bytes.Buffer
	b0 := byte(2<<6) | byte(len(p.csrcs))
	if p.ext {
		b0 |= 1 << 4
	}
	b1 := p.pt
	if p.marker {
		b1 |= 1 << 7
	}
	b.Write([]byte{b0, b1})
	binary.Write(&b, binary.BigEndian, p.seq)
	binary.Write(&b, binary.BigEndian, p.ts)
	binary.Write(&b, binary.BigEndian, p.ssrc)
	binary.Write(&b, binary.BigEndian, p.csrcs)
	if p.ext {
		binary.Write(&b, binary.BigEndian, p.extID)
		binary.Write(&b, binary.BigEndian, uint16(len(p.extData)))
		binary.Write(&b, binary.BigEndian, p.extData)
	}
	b.Write(p.payload)
	return b.Bytes()
}

// same compares every accessor of a packet with the model.
func (p *rtpPkt) same(c *mc.C, key, what string, r *rtp.RTPPacket) {
	bad := func(n string, got, want interface{}) { c.Eq(key, what+" "+n, got, want) }
	c.Check(true, key, "")
	if r.GetPayloadType() != p.pt {
		bad("payload type", r.GetPayloadType(), p.pt)
	}
	if r.HasMarker() != p.marker {
		bad("marker", r.HasMarker(), p.marker)
	}
	if r.GetSequenceNumber() != p.seq {
		bad("sequence number", r.GetSequenceNumber(), p.seq)
	}
	if r.GetTimestamp() != p.ts {
		bad("timestamp", r.GetTimestamp(), p.ts)
	}
	if r.GetSSRC() != p.ssrc {
		bad("ssrc", r.GetSSRC(), p.ssrc)
	}
	if int(r.GetCSRCCount()) != len(p.csrcs) {
		bad("number of sources", r.GetCSRCCount(), len(p.csrcs))
	}
	for i := 0; i < 17; i++ {
		want := uint32(0)
		if i < len(p.csrcs) {
			want = p.csrcs[i]
		}
		if got := r.GetCSRC(uint8(i)); got != want {
			bad(fmt.Sprintf("source %d", i), got, want)
		}
	}
	if r.HasExtension() != p.ext {
		bad("has extension", r.HasExtension(), p.ext)
	}
	if r.GetExtensionID() != p.extID {
		bad("extension id", r.GetExtensionID(), p.extID)
	}
	if int(r.GetExtensionLength()) != len(p.extData) {
		bad("extension length", r.GetExtensionLength(), len(p.extData))
	}
	if d := r.GetExtensionData(); fmt.Sprint(d) != fmt.Sprint(p.extData) {
		bad("extension data", fmt.Sprint(d), fmt.Sprint(p.extData))
	}
	if !bytes.Equal(r.GetPayload(), p.payload) {
		bad("payload", fmt.Sprintf("%x", r.GetPayload()), fmt.Sprintf("%x", p.payload))
	}
}

func (p *rtpPkt) build(r *rtp.RTPPacket) (*rtp.RTPPacket, error) {
	pl := append([]byte{}, p.payload...)
	cs := append([]uint32{}, p.csrcs...)
	xd := append([]uint32{}, p.extData...)
	var err error
	if r == nil {
		r = rtp.NewPacket(p.pt, pl, p.seq, p.ts, p.ssrc, p.marker, uint8(len(cs)+p.moreC), cs, p.ext, p.extID, uint16(len(xd)+p.moreX), xd)
		if r == nil {
			err = fmt.Errorf("no packet")
		}
	} else {
		err = r.BuildPacket(p.pt, pl, p.seq, p.ts, p.ssrc, p.marker, uint8(len(cs)+p.moreC), cs, p.ext, p.extID, uint16(len(xd)+p.moreX), xd)
	}
	// what the packet was built from is the caller's again
	for i := range pl {
		pl[i] ^= 0xff
	}
	for i := range cs {
		cs[i]++
	}
	for i := range xd {
		xd[i]++
	}
	return r, err
}

func (p *rtpPkt) valid() bool {
	return p.pt <= 127 && p.pt != 72 && p.pt != 73 && len(p.csrcs) <= 15 && p.moreC == 0 && p.moreX == 0
}

func rtpTime(sec, micro uint32) *rtp.RTPTime {
	return rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(sec+rtp.NTPTIMEOFFSET, uint32((uint64(micro)<<32+999999)/1000000)))
}

func timeOf(t *rtp.RTPTime) int64 {
	n := t.GetNTPTime()
	return int64(n.GetMSW()-rtp.NTPTIMEOFFSET)*1000000 + int64((uint64(n.GetLSW())*1000000+1<<31)>>32)
}

func receive(b []byte, isrtp bool) (*rtp.RTPPacket, error) {
	mine := append([]byte{}, b...)
	t := rtpTime(7, 8)
	raw := rtp.NewRawPacket(mine, rtp.NewHostAddress("h", 1), t, isrtp)
	r, err := rtp.NewRTPPacketFromRawPacket(raw)
	for i := range mine {
		mine[i] ^= 0xff
	}
	t.Add(rtpTime(1, 1))
	return r, err
}

func rtpOne(c *mc.C, p *rtpPkt) {
	key := fmt.Sprintf("%+v", *p)
	if len(key) > 300 {
		key = fmt.Sprintf("%s... %d", key[:300], len(key))
	}
	c.Run(key, func() {
		c.Step(1)
		r, err := p.build(nil)
		if !c.Check((err == nil) == p.valid(), key, "building: %v", err) || err != nil {
			c.Trace()
			return
		}
		want := p.bytes()
		p.same(c, key, "built:", r)
		c.Check(bytes.Equal(r.GetPacket(), want), key, "packet is %x, not %x", r.GetPacket(), want)
		c.Step(1)
		q, err := receive(r.GetPacket(), true)
		if !c.Check(err == nil, key, "received: %v", err) {
			return
		}
		p.same(c, key, "received:", q)
		c.Check(bytes.Equal(q.GetPacket(), want), key, "received packet is %x, not %x", q.GetPacket(), want)
		c.Check(timeOf(q.GetReceiveTime()) == 7000008, key, "receive time is %d", timeOf(q.GetReceiveTime()))
		_, err = receive(r.GetPacket(), false)
		c.Check(err != nil, key, "what is not RTP is taken as RTP")
		// the header and the extension by themselves
		h, err := rtp.NewRTPHeaderFromBytes(want)
		if c.Check(err == nil, key, "header: %v", err) {
			n := 12 + 4*len(p.csrcs)
			c.Check(bytes.Equal(h.Encode(), want[:n]), key, "header encodes as %x, not %x", h.Encode(), want[:n])
		}
		if p.ext {
			n := 12 + 4*len(p.csrcs)
			x := rtp.NewRTPExtensionFromBytes(want[n:])
			if c.Check(x != nil, key, "extension is rejected") {
				m := n + 4 + 4*len(p.extData)
				c.Check(bytes.Equal(x.Encode(), want[n:m]), key, "extension encodes as %x, not %x", x.Encode(), want[n:m])
			}
		}
		c.Check(len(r.Dump()) > 0, key, "no dump")
		c.State(string(want))
		c.Trace()
		if c.CaseNo()%9973 == 0 {
			c.Sample("%s -> %x", key, want)
		}
	})
}

func dwords(n int, from uint32) (r []uint32) {
	for i := 0; i < n; i++ {
		r = append(r, from+uint32(i)*0x01020304)
	}
	return
}

func payloadOf(n int) (r []byte) {
	for i := 0; i < n; i++ {
		r = append(r, byte(i*37+11))
	}
	return
}

func c31(c *mc.C) {
	mc.Fuel = 8000000 // extensions of 65535 words
	pts := 256
	exts := []int{-1, 0, 1, 2, 3, 5}
	pls := []int{0, 1, 3, 20, 256}
	if c.Thorough() {
		exts = []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 100}
		pls = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 255, 256, 1400}
	}
	c.Bound("payload types", "all 256")
	c.Bound("sources", "0 to 16")
	c.Bound("extension lengths", "none, %v", exts[1:])
	c.Bound("payload lengths", "%v", pls)
	type ids struct {
		seq      uint16
		ts, ssrc uint32
		xid      uint16
	}
	idss := []ids{{0x0102, 0x03040506, 0x0708090a, 0x0b0c}, {0xfffe, 0xfdfcfbfa, 0xf9f8f7f6, 0xf5f4}}
	for pt := 0; pt < pts; pt++ {
		for m := 0; m < 2; m++ {
			for cs := 0; cs <= 16; cs++ {
				for _, x := range exts {
					for _, pl := range pls {
						for _, id := range idss {
							if c.Stop() {
								return
							}
							if !c.Mine() {
								continue
							}
							p := &rtpPkt{pt: uint8(pt), marker: m == 1, seq: id.seq, ts: id.ts, ssrc: id.ssrc, csrcs: dwords(cs, 0x81726354), payload: payloadOf(pl)}
							if x >= 0 {
								p.ext, p.extID, p.extData = true, id.xid, dwords(x, 0xa1b2c3d4)
							}
							rtpOne(c, p)
						}
					}
				}
			}
		}
	}
	// each field over its range
	c.Bound("sequence numbers", "all 65536")
	for i := 0; i < 65536; i++ {
		if c.Mine() {
			rtpOne(c, &rtpPkt{seq: uint16(i), payload: payloadOf(1)})
		}
	}
	for sh := uint(0); sh < 32; sh++ {
		for _, v := range []uint32{1 << sh, 1<<sh - 1, ^uint32(1 << sh), 0x80 << sh} {
			for f := 0; f < 5; f++ {
				if !c.Mine() {
					continue
				}
				p := &rtpPkt{pt: 8, payload: payloadOf(2)}
				switch f {
				case 0:
					p.ts = v
				case 1:
					p.ssrc = v
				case 2:
					p.csrcs = []uint32{5, v, 6}
				case 3:
					p.ext, p.extData = true, []uint32{5, v, 6}
				case 4:
					p.ext, p.extID = true, uint16(v)
				}
				rtpOne(c, p)
			}
		}
	}
	c.Bound("long extensions", "255, 256, 16383, 16384, 65535 words")
	for _, n := range []int{255, 256, 16383, 16384, 65535} {
		if c.Mine() {
			rtpOne(c, &rtpPkt{ext: true, extID: 9, extData: dwords(n, 3), payload: payloadOf(3), csrcs: dwords(1, 2)})
		}
	}
	c.Bound("payloads", "all lengths to 1500")
	for n := 0; n <= 1500; n++ {
		if c.Mine() {
			rtpOne(c, &rtpPkt{pt: 3, payload: payloadOf(n)})
		}
	}
	// fewer words than announced, and building again
	for n := 0; n <= 3; n++ {
		for has := 0; has < n; has++ {
			for x := 0; x < 2; x++ {
				if !c.Mine() {
					continue
				}
				key := fmt.Sprintf("%d of %d words (%d)", has, n, x)
				c.Run(key, func() {
					var r *rtp.RTPPacket
					if x == 0 {
						r = rtp.NewPacket(0, nil, 0, 0, 0, false, uint8(n), dwords(has, 1), false, 0, 0, nil)
					} else {
						r = rtp.NewPacket(0, nil, 0, 0, 0, false, 0, nil, true, 0, uint16(n), dwords(has, 1))
					}
					c.Check(r == nil, key, "is built")
					c.Trace()
				})
			}
		}
	}
	some := []*rtpPkt{
		{pt: 1, seq: 1, payload: payloadOf(4)}, {pt: 2, marker: true, csrcs: dwords(3, 9), ts: 5},
		{pt: 3, ext: true, extID: 4, extData: dwords(2, 8), payload: payloadOf(1)}, {pt: 4, ext: true, ssrc: 3},
		{pt: 5, csrcs: dwords(15, 1), ext: true, extID: 1, extData: dwords(1, 1)}, {pt: 72}, {pt: 128, payload: payloadOf(9)}, {pt: 9, csrcs: dwords(16, 1)},
		{pt: 10, csrcs: dwords(2, 1), ext: true, extID: 7, extData: dwords(1, 3), moreC: 1}, {pt: 11, ext: true, extID: 8, csrcs: dwords(1, 4), extData: dwords(1, 1), moreX: 2}, {pt: 12, moreC: 3, payload: payloadOf(3)},
	}
	c.Bound("builds on one packet", "all sequences of 3 of %d packets, some invalid", len(some))
	for _, a := range some {
		for _, b := range some {
			for _, d := range some {
				if !a.valid() || !c.Mine() {
					continue
				}
				key := fmt.Sprintf("%+v then %+v then %+v", *a, *b, *d)
				c.Run(key, func() {
					r, _ := a.build(nil)
					now := a
					for _, p := range []*rtpPkt{b, d} {
						c.Step(1)
						_, err := p.build(r)
						c.Check((err == nil) == p.valid(), key, "building again: %v", err)
						if p.valid() {
							now = p
						}
						now.same(c, key, "built again:", r)
						c.Check(bytes.Equal(r.GetPacket(), now.bytes()), key, "packet built again is %x, not %x", r.GetPacket(), now.bytes())
					}
					c.Trace()
				})
			}
		}
	}
}

// decode is the reference for what is received. A padding count of zero means
// no padding.
func decode(b []byte) *rtpPkt {
	if len(b) < 12 || b[0]>>6 != 2 {
		return nil
	}
	p := &rtpPkt{pt: b[1] & 127, marker: b[1]&128 != 0, seq: binary.BigEndian.Uint16(b[2:]), ts: binary.BigEndian.Uint32(b[4:]), ssrc: binary.BigEndian.Uint32(b[8:])}
	if p.marker && (p.pt == 72 || p.pt == 73) {
		return nil
	}
	at := 12
	for i := 0; i < int(b[0]&15); i++ {
		if len(b) < at+4 {
			return nil
		}
		p.csrcs = append(p.csrcs, binary.BigEndian.Uint32(b[at:]))
		at += 4
	}
	if b[0]&16 != 0 {
		if len(b) < at+4 {
			return nil
		}
		p.ext, p.extID = true, binary.BigEndian.Uint16(b[at:])
		n := int(binary.BigEndian.Uint16(b[at+2:]))
		at += 4
		if len(b) < at+4*n {
			return nil
		}
		for i := 0; i < n; i++ {
			p.extData = append(p.extData, binary.BigEndian.Uint32(b[at:]))
			at += 4
		}
	}
	end := len(b)
	if b[0]&32 != 0 {
		end -= int(b[end-1])
		if end < at {
			return nil
		}
	}
	p.payload = b[at:end]
	return p
}

func c32(c *mc.C) {
	seconds := []byte{0, 1, 72, 73, 96, 127, 128, 200, 201, 202, 255}
	if c.Thorough() {
		seconds = nil
		for i := 0; i < 256; i++ {
			seconds = append(seconds, byte(i))
		}
	}
	most := 12 + 15*4 + 4 + 8 + 3
	c.Bound("first bytes", "all 256")
	c.Bound("second bytes", "%d", len(seconds))
	c.Bound("lengths", "0 to %d", most)
	extLens := []int{-1, 0, 1, 2, 3, 0x0100, 0x3fff, 0x4000, 0x4001, 0x8000, 0xc000, 0xffff}
	lasts := func(n, head int) []int {
		return []int{0, 1, 2, 3, 4, n - head - 1, n - head, n - head + 1, n - 1, n, n + 1, 255}
	}
	for f := 0; f < 256; f++ {
		for _, s := range seconds {
			if f>>6 != 2 && s > 1 {
				continue
			}
			for n := 0; n <= most; n++ {
				if c.Stop() {
					return
				}
				at := 12 + 4*(f&15)
				for _, xl := range extLens {
					if (f&16 != 0) != (xl >= 0) || n < at+4 && xl > 0 {
						continue
					}
					head := at
					if xl >= 0 {
						head += 4 + 4*xl
					}
					ls := []int{-1}
					if f&32 != 0 {
						ls = lasts(n, head)
					}
					seen := map[int]bool{}
					for _, l := range ls {
						if l < -1 || l > 255 || seen[l] {
							continue
						}
						seen[l] = true
						if !c.Mine() {
							continue
						}
						b := payloadOf(n)
						if n > 0 {
							b[0] = byte(f)
						}
						if n > 1 {
							b[1] = s
						}
						if xl >= 0 && n >= at+4 {
							binary.BigEndian.PutUint16(b[at+2:], uint16(xl))
						}
						if l >= 0 && n > 0 && n-1 >= at+4 {
							b[n-1] = byte(l)
						}
						recvOne(c, b)
					}
				}
			}
		}
	}
	mixes := [][]byte{
		(&rtpPkt{pt: 1, payload: payloadOf(3)}).bytes(), (&rtpPkt{pt: 2, ext: true, extID: 1, extData: dwords(2, 1), csrcs: dwords(2, 2)}).bytes(),
		(&rtpPkt{pt: 3, marker: true, csrcs: dwords(15, 1), payload: payloadOf(2)}).bytes(), (&rtpPkt{pt: 4, ext: true, payload: payloadOf(2)}).bytes(),
	}
	c.Bound("receptions on one packet", "all sequences of 3 of %d packets", len(mixes))
	for _, x := range mixes {
		for _, y := range mixes {
			for _, z := range mixes {
				if !c.Mine() {
					continue
				}
				key := fmt.Sprintf("%x then %x then %x", x, y, z)
				c.Run(key, func() {
					r, err := receive(x, true)
					if !c.Check(err == nil, key, "%v", err) {
						return
					}
					for _, b := range [][]byte{y, z} {
						c.Step(1)
						err = r.ParseRawPacket(rtp.NewRawPacket(b, nil, rtpTime(1, 1), true))
						if !c.Check(err == nil, key, "%v", err) {
							return
						}
						decode(b).same(c, key, "received again:", r)
					}
					c.Trace()
				})
			}
		}
	}
}

func recvOne(c *mc.C, b []byte) { recvBytes(c, fmt.Sprintf("%x", b), b) }

func recvBytes(c *mc.C, key string, b []byte) {
	c.Run(key, func() {
		want := decode(b)
		c.Step(1)
		r, err := receive(b, true)
		if !c.Check((err == nil) == (want != nil), key, "received with error %v, to be accepted: %v", err, want != nil) {
			return
		}
		c.Check((err == nil) == (r != nil), key, "a packet and an error, or none")
		if want == nil {
			c.Outcome("rejected")
		} else {
			c.Outcome("accepted")
		}
		if want != nil && r != nil {
			want.same(c, key, "received:", r)
			c.Check(bytes.Equal(r.GetPacket(), b), key, "packet is %x", r.GetPacket())
			c.State(fmt.Sprintf("%d %d %v %d", b[0], b[1], want.extData, len(want.payload)))
		}
		h, err := rtp.NewRTPHeaderFromBytes(b)
		ok := len(b) >= 12 && len(b) >= 12+4*int(b[0]&15)
		if c.Check((err == nil) == ok, key, "header: %v", err) && err == nil {
			n := 12 + 4*int(b[0]&15)
			c.Check(bytes.Equal(h.Encode(), b[:n]), key, "header encodes as %x", h.Encode())
		}
		x := rtp.NewRTPExtensionFromBytes(b)
		ok = len(b) >= 4 && len(b) >= 4+4*int(binary.BigEndian.Uint16(b[2:]))
		if c.Check((x != nil) == ok, key, "extension: taken %v", x != nil) && ok {
			n := 4 + 4*int(binary.BigEndian.Uint16(b[2:]))
			c.Check(bytes.Equal(x.Encode(), b[:n]), key, "extension encodes as %x", x.Encode())
		}
		c.Trace()
		if c.CaseNo()%49999 == 0 {
			c.Sample("%x -> accepted %v", b, want != nil)
		}
	})
}

// rtcpBody is the length of an RTCP packet without its padding, or -1.
func rtcpBody(b []byte) int {
	n := len(b)
	if n == 0 {
		return -1
	}
	if b[0]&32 != 0 {
		pad := int(b[n-1])
		if pad&3 != 0 || pad >= n {
			return -1
		}
		n -= pad
	}
	return n
}

func c33(c *mc.C) {
	most := c.Pick(44, 140)
	c.Bound("first bytes", "all 256")
	c.Bound("lengths", "0 to %d, and those that hold all sources", most)
	c.Bound("last bytes, reason lengths", "at and around every boundary, and extremes")
	for f := 0; f < 256; f++ {
		for n := 0; n <= 140; n++ {
			if c.Stop() {
				return
			}
			if d := n - 4 - 4*(f&31); n > most && (d < -1 || d > 9) {
				continue
			}
			lasts := []int{-1}
			if f&32 != 0 {
				lasts = []int{0, 1, 2, 3, 4, 5, 8, 12, 16, n - 13, n - 12, n - 11, n - 8, n - 4, n - 2, n - 1, n, n + 1, n + 4, 252, 255}
			}
			at := 4 + 4*(f&31)
			seen := map[[2]int]bool{}
			for _, l := range lasts {
				reasons := []int{0, 1, 2, n - at - 2, n - at - 1, n - at, 255}
				if l > 0 {
					reasons = append(reasons, n-at-l-2, n-at-l-1, n-at-l)
				}
				for _, rl := range reasons {
					if l < -1 || l > 255 || rl < 0 || rl > 255 || at >= n && rl > 0 || seen[[2]int{l, rl}] {
						continue
					}
					seen[[2]int{l, rl}] = true
					if !c.Mine() {
						continue
					}
					b := payloadOf(n)
					if n > 0 {
						b[0] = byte(f)
					}
					if at < n {
						b[at] = byte(rl)
					}
					if l >= 0 && n > 1 {
						b[n-1] = byte(l)
					}
					rtcpOne(c, b)
				}
			}
		}
	}
}

var devnull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func rtcpOne(c *mc.C, b []byte) { rtcpBytes(c, fmt.Sprintf("%x", b), b) }

func rtcpBytes(c *mc.C, key string, b []byte) {
	c.Run(key, func() {
		body := rtcpBody(b)
		n := len(b)
		for extra := 0; extra < 2; extra++ {
			// the packet may be the beginning of something longer
			in := append(append([]byte{}, b...), make([]byte, extra*3)...)
			c.Step(2)
			a := rtp.NewRTCPAPPPacket(in, n)
			y := rtp.NewRTCPBYEPacket(in, n)
			g := rtp.NewRTCPPacket(rtp.SDES, in, n)
			for i := range in {
				in[i] ^= 0xff
			}
			c.Check(bytes.Equal(g.GetPacketData(), b) && g.GetPacketLength() == n && g.GetPacketType() == rtp.SDES && !g.IsKnownFormat(), key, "packet is %x", g.GetPacketData())
			if stdout := os.Stdout; extra == 1 && devnull != nil {
				os.Stdout = devnull
				a.Dump()
				y.Dump()
				g.Dump()
				os.Stdout = stdout
			}
			// application-defined
			known := body >= 12
			c.Check(a.GetPacketType() == rtp.APP && bytes.Equal(a.GetPacketData(), b) && a.GetPacketLength() == n, key, "APP packet is %x", a.GetPacketData())
			c.Check(a.IsKnownFormat() == known, key, "APP format known: %v", a.IsKnownFormat())
			var sub uint8
			var ssrc uint32
			var name, data []byte
			if known {
				sub, ssrc, name, data = b[0]&31, binary.BigEndian.Uint32(b[4:]), b[8:12], b[12:body]
			}
			c.Check(a.GetSubType() == sub, key, "APP subtype %d, not %d", a.GetSubType(), sub)
			c.Check(a.GetSSRC() == ssrc, key, "APP ssrc %x, not %x", a.GetSSRC(), ssrc)
			c.Check(bytes.Equal(a.GetName(), name), key, "APP name %x, not %x", a.GetName(), name)
			c.Check(bytes.Equal(a.GetAPPData(), data), key, "APP data %x, not %x", a.GetAPPData(), data)
			c.Check(a.GetAPPDataLength() == len(data), key, "APP data length %d, not %d", a.GetAPPDataLength(), len(data))
			// bye
			var reason []byte
			count, has := 0, false
			known = body >= 0 && 4+4*int(b[0]&31) <= body
			if known {
				count = int(b[0] & 31)
				if at := 4 + 4*count; at < body {
					has = true
					if at+1+int(b[at]) > body {
						known = false
					} else {
						reason = b[at+1 : at+1+int(b[at])]
					}
				}
			}
			if !known {
				count, has = 0, false
			}
			c.Check(y.GetPacketType() == rtp.BYE && bytes.Equal(y.GetPacketData(), b) && y.GetPacketLength() == n, key, "BYE packet is %x", y.GetPacketData())
			c.Check(y.IsKnownFormat() == known, key, "BYE format known: %v", y.IsKnownFormat())
			c.Check(y.GetSSRCCount() == count, key, "BYE sources %d, not %d", y.GetSSRCCount(), count)
			for i := 0; i < count && i < y.GetSSRCCount(); i++ {
				want := binary.BigEndian.Uint32(b[4+4*i:])
				c.Check(y.GetSSRC(i) == want, key, "BYE source %d is %x, not %x", i, y.GetSSRC(i), want)
			}
			c.Check(y.HasReasonForLeaving() == has, key, "BYE has a reason: %v", y.HasReasonForLeaving())
			c.Check(y.GetReasonLength() == len(reason), key, "BYE reason length %d, not %d", y.GetReasonLength(), len(reason))
			c.Check(bytes.Equal(y.GetReasonData(), reason), key, "BYE reason %x, not %x", y.GetReasonData(), reason)
			c.State(fmt.Sprintf("%d %d %d %d", body, n, count, len(reason)))
		}
		c.Trace()
		if c.CaseNo()%9973 == 0 {
			c.Sample("%x", b)
		}
	})
}

func c34(c *mc.C) {
	secs := []uint32{0, 1, 2, 59, 1000, 1 << 20, 1<<31 - 2, 1<<31 - 1}
	micros := []uint32{0, 1, 2, 499999, 500000, 500001, 999998, 999999}
	if c.Thorough() {
		secs = append(secs, 3, 4, 100, 65535, 65536, 1<<24, 1<<30, 1<<31-3, 2000000000)
		for i := uint32(0); i < 40; i++ {
			micros = append(micros, 3+i*24691)
		}
	}
	const era = 1<<32 - rtp.NTPTIMEOFFSET // first second the NTP era has no room for
	var grid [][2]uint32
	for _, s := range secs {
		for _, m := range micros {
			if s < era {
				grid = append(grid, [2]uint32{s, m})
			}
		}
	}
	c.Bound("times", "all pairs of %d", len(grid))
	num := func(a [2]uint32) int64 { return int64(a[0])*1000000 + int64(a[1]) }
	for _, a := range grid {
		for _, b := range grid {
			if c.Stop() {
				return
			}
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("%d.%06d and %d.%06d", a[0], a[1], b[0], b[1])
			c.Run(key, func() {
				x, y := rtpTime(a[0], a[1]), rtpTime(b[0], b[1])
				c.Step(8)
				na, nb := num(a), num(b)
				c.Check(timeOf(x) == na && timeOf(y) == nb, key, "the times are %d and %d", timeOf(x), timeOf(y))
				c.Check(x.LT(y) == (na < nb) && x.GT(y) == (na > nb) && x.ELT(y) == (na <= nb) && x.EGT(y) == (na >= nb), key, "LT %v GT %v ELT %v EGT %v", x.LT(y), x.GT(y), x.ELT(y), x.EGT(y))
				z := x.Clone()
				z.Add(y)
				if na+nb < era*1000000 {
					c.Check(timeOf(z) == na+nb, key, "the sum is %d", timeOf(z))
					// times in normal form are equal exactly if neither is less
					s := rtpTime(uint32((na+nb)/1000000), uint32((na+nb)%1000000))
					c.Check(!z.LT(s) && !z.GT(s) && z.ELT(s) && z.EGT(s), key, "the sum does not compare as %d", na+nb)
					z.Sub(y)
					c.Check(timeOf(z) == na && !z.LT(x) && !z.GT(x), key, "the sum less the second is %d", timeOf(z))
				}
				if na >= nb {
					d := x.Clone()
					d.Sub(y)
					c.Check(timeOf(d) == na-nb, key, "the difference is %d", timeOf(d))
					s := rtpTime(uint32((na-nb)/1000000), uint32((na-nb)%1000000))
					c.Check(!d.LT(s) && !d.GT(s), key, "the difference does not compare as %d", na-nb)
				}
				c.Check(timeOf(x) == na && timeOf(y) == nb, key, "the times have become %d and %d", timeOf(x), timeOf(y))
				c.State(fmt.Sprint(na, nb))
				c.Trace()
			})
		}
	}
	// NTP: all microseconds
	step := c.Pick(1, 1)
	ntps := []uint32{0, 1000000000}
	c.Bound("NTP", "all 1000000 microseconds, at %d seconds", len(ntps))
	for _, s := range ntps {
		for m := 0; m < 1000000; m += 1000 {
			if c.Stop() {
				return
			}
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("NTP %d.%06d to %06d", s, m, m+999)
			c.Run(key, func() {
				for i := m; i < m+1000; i += step {
					t := rtpTime(s, uint32(i))
					n := t.GetNTPTime()
					back := rtp.NewRTPTimeFromNTPTime(n)
					// exact fraction, to within one unit of the last place
					exact := uint64(i) << 32 / 1000000
					ok := n.GetMSW() == s+rtp.NTPTIMEOFFSET && uint64(n.GetLSW()) >= exact && uint64(n.GetLSW()) <= exact+1
					c.Check(ok, key, "%d.%06d is NTP %d, %d", s, i, n.GetMSW(), n.GetLSW())
					c.Check(!back.LT(t) && !back.GT(t), key, "%d.%06d comes back from NTP as %d", s, i, timeOf(back))
				}
				c.Step(1000)
				c.Trace()
			})
		}
	}
	lsws := []uint32{0, 1, 4294, 4295, 1 << 31, 1<<31 - 1, math.MaxUint32, math.MaxUint32 - 4294, math.MaxUint32 - 4296}
	for i := uint32(0); i < 32; i++ {
		lsws = append(lsws, 1<<i, 1<<i-1, ^uint32(1<<i))
	}
	for _, msw := range []uint32{0, 1, rtp.NTPTIMEOFFSET - 1, rtp.NTPTIMEOFFSET, rtp.NTPTIMEOFFSET + 1, math.MaxUint32} {
		for _, lsw := range lsws {
			if !c.Mine() {
				continue
			}
			key := fmt.Sprintf("NTP %d, %d", msw, lsw)
			c.Run(key, func() {
				n := rtp.NewNTPTime(msw, lsw)
				c.Check(n.GetMSW() == msw && n.GetLSW() == lsw, key, "is %d, %d", n.GetMSW(), n.GetLSW())
				t := rtp.NewRTPTimeFromNTPTime(n)
				want := int64(0)
				if msw >= rtp.NTPTIMEOFFSET {
					want = int64(msw-rtp.NTPTIMEOFFSET)*1000000 + int64(uint64(lsw)*1000000>>32)
				}
				c.Check(timeOf(t) == want, key, "is %d microseconds, not %d", timeOf(t), want)
				c.Step(1)
				c.Trace()
			})
		}
	}
	// floating point
	var fl []float64
	for s := 0; s < 60; s++ {
		for m := 0; m < 1000; m++ {
			fl = append(fl, float64(s*s*s*9973)+float64(m)/1000, float64(s)+float64(m)/999983)
		}
	}
	c.Bound("floating-point times", "%d", len(fl))
	for i := 0; i < len(fl); i += 500 {
		if !c.Mine() {
			continue
		}
		key := fmt.Sprintf("float %v and on", fl[i])
		c.Run(key, func() {
			for _, f := range fl[i : i+500] {
				t := rtp.NewRTPTimeFromFloat64(f)
				// down to a whole microsecond; the product may round up to the next
				e := new(big.Float).SetPrec(200).SetFloat64(f)
				e.Mul(e, big.NewFloat(1000000))
				want, _ := e.Int64()
				got := timeOf(t)
				c.Check(got == want || got == want+1 && math.Abs(f*1e6-float64(got)) < 1e-3, key, "%v is %d microseconds, not %d", f, got, want)
			}
			c.Step(500)
			c.Trace()
		})
	}
	if c.Mine() {
		key := "now"
		c.Run(key, func() {
			for i := 0; i < 50; i++ {
				before := time.Now().UnixNano() / 1000
				got := timeOf(rtp.CurrentRTPTime())
				after := time.Now().UnixNano() / 1000
				c.Check(before <= got && got <= after, key, "now is %d, which is not between %d and %d", got, before, after)
			}
			at := time.Now()
			rtp.WaitRTPTime(rtpTime(0, 2000))
			c.Check(time.Since(at) >= 2*time.Millisecond, key, "waited only %v", time.Since(at))
			c.Trace()
		})
	}
}
