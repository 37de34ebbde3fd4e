package props

// hdrSeeds are well-formed header lines, one or more per header type the
// library has a parser for; explorations mutate, truncate and splice them.
var hdrSeeds = []string{
	`Accept: application/sdp;level=1, text/*;q=0.5`,
	`Accept-Encoding: gzip;q=0.5, compress`,
	`Accept-Language: da, en-gb;q=0.8`,
	`Alert-Info: <http://www.example.com/sounds/moo.wav>;x=y, <file:moo>`,
	`Allow: INVITE, ACK, BYE`,
	`Allow-Events: presence, dialog`,
	`Authentication-Info: nextnonce="47364c23",qop=auth,nc=00000001`,
	`Authorization: Digest username="Alice", realm="atlanta.com",nonce="84a4", response="7587"`,
	`Call-ID: f81d4fae@10.0.0.1`,
	`Call-Info: <http://www.example.com/alice/photo.jpg>;purpose=icon`,
	`Contact: "Mr. Watson" <sip:watson@bell.com:5070;lr>;q=0.7; expires=3600, sip:w@b.com`,
	`Contact: *`,
	`Content-Disposition: session;handling=optional`,
	`Content-Encoding: gzip, tar`,
	`Content-Language: fr, en`,
	`Content-Length: 34`,
	`Content-Type: application/sdp;charset=utf8`,
	`CSeq: 4711 INVITE`,
	`Date: Sat, 13 Nov 2010 23:29:00 GMT`,
	`Error-Info: <sip:not-in-service@atlanta.com>;m="x"`,
	`Event: presence;id=7`,
	`Expires: 5`,
	`From: "A. G. Bell" <sip:agb@bell.com:5061;user=phone>;tag=a48s`,
	`From: sip:c8@cis.com;tag=88`,
	`From: <tel:+1-212;isub=4>;tag=1`,
	`In-Reply-To: 70710@saturn.com, 17320`,
	`Max-Forwards: 6`,
	`MIME-Version: 1.0`,
	`Min-Expires: 60`,
	`Organization: Boxes by Bob`,
	`Priority: emergency`,
	`Proxy-Authenticate: Digest realm="atlanta.com", qop="auth", stale=FALSE`,
	`Proxy-Authorization: Digest username="Alice", nc=00000001`,
	`Proxy-Require: foo, bar`,
	`RAck: 776656 1 INVITE`,
	`Reason: SIP;cause=200;text="Call completed", Q.850;cause=16`,
	`Record-Route: <sip:server10.biloxi.com;lr>, <sip:bigbox3.site3.com>;a=b`,
	`Refer-To: <sip:dave@denver.com?Replaces=12345>`,
	`Reply-To: Bob <sip:bob@biloxi.com>;x=1`,
	`Require: 100rel, foo`,
	`Retry-After: 18 (I'm in a meeting);duration=36;z=1`,
	`Route: <sip:bigbox3.site3.com;lr>,<sip:a@[2001:db8::1]:5060>`,
	`RSeq: 988789`,
	`Server: HomeServer/v2 (x)`,
	`Subject: Need more boxes`,
	`Subscription-State: active;reason=noresource;expires=60;retry-after=3;x=y`,
	`Supported: 100rel, timer`,
	`Timestamp: 5.4 1.2`,
	`To: The Operator <sip:operator@cs.columbia.edu>;tag=287447`,
	`To: sip:+1212@gw.com;user=phone`,
	`Unsupported: foo, bar`,
	`User-Agent: Softphone Beta1.5/x (c)`,
	`Via: SIP/2.0/UDP erlang.com:5060;branch=z9hG4bK87;received=10.0.0.1 (c), SIP / 2.0 / TCP h`,
	`Warning: 307 isi.edu "Session parameter 'foo' not understood", 301 isi.edu "x"`,
	`WWW-Authenticate: Digest realm="atlanta.com",domain="sip:b.com",qop="auth",nonce="f84f"`,
	`X-Ext: any thing`,
	`v: SIP/2.0/UDP a.b:1;ttl=1;maddr=2.3.4.5`,
	`f: <sip:a@b>;tag=1`,
	`t: <sip:a@b;transport=tcp?Subject=x&b=%20>`,
	`m: <sip:a:p%40w@b>`,
	`i: a`, `l: 0`, `c: text/plain`, `s: x`, `k: y`, `e: gzip`, `o: ev`, `u: ev`,
}

var uriSeeds = []string{
	`sip:alice@atlanta.com`, `sip:alice:secret@atlanta.com;transport=tcp`, `sip:atlanta.com;method=REGISTER?to=alice%40atlanta.com`,
	`sip:a%20b@h.org:5061;lr;ttl=1;x=%41?Subject=x&b=c`, `sip:[2001:db8::1]:5060`, `sip:1.2.3.4`,
	`tel:+358-555-1234567;postd=pp22`, `tel:1234;isub=11;phone-context=x`, `http://a.b/c?d=e`, `mailto:a@b`,
}

var addrSeeds = []string{
	`<sip:a@b>`, `"A \" B" <sip:a@b;x=1>`, `Foo Bar <sip:c>`, `sip:a@b`, `<tel:+12>`, `<http://x/y>`,
}

var reqLineSeeds = []string{
	"INVITE sip:bob@biloxi.com SIP/2.0", "REGISTER sip:h.org;x=1 SIP/2.0", "FOO tel:+12 SIP/2.0", "CANCEL http://x SIP/2.0",
}

var statusLineSeeds = []string{
	"SIP/2.0 200 OK", "SIP/2.0 180 Ringing now", "SIP/2.0 699 ",
}

var msgSeeds = []string{
	"INVITE sip:bob@biloxi.com SIP/2.0\r\nVia: SIP/2.0/UDP pc33.com;branch=z9hG4bK776\r\nMax-Forwards: 70\r\nTo: Bob <sip:bob@biloxi.com>\r\nFrom: <sip:a@b>;tag=19\r\nCall-ID: a8\r\nCSeq: 3 INVITE\r\nContent-Length: 4\r\n\r\nbody",
	"SIP/2.0 200 OK\r\nv: SIP/2.0/UDP a\r\nl: 0\r\n\r\n",
	"\r\n\r\nACK sip:a SIP/2.0\nCSeq: 1\n ACK\nSubject: a\n\tb\n\n",
	"BYE tel:1 SIP/2.0\r\n\r\n",
}
