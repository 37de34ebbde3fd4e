package props

import (
	"container/list"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C27", Rule: "all sequences, to a depth, of the typed setters and removers of every kind of header, start line and address, with values they must take and values they must refuse, on a fresh value and on parsed ones, in lock step with a record of the fields", Run: c27})
}

type vals []interface{}

// sfield is a field with its setter and getter: values it takes and values it
// refuses.
type sfield struct {
	set, get  string
	good, bad vals
	has, rm   string // what says whether it is set, and what removes it
	none      string // what the getter says after removing
	also      map[string]string
}

// shead is a kind of value with fields.
type shead struct {
	name   string
	fresh  func() interface{}
	need   []string // setters a fresh one needs
	bodies []string
	fields []sfield
	extra  []sop
	probes []string // more accessors that no setter of these may change
	parse  func(s string) (interface{}, error)
}

type sop struct {
	name string
	do   func(x interface{}) error
	bad  bool
	sets map[string]string
	then func(model map[string]string) bool // changes the record, says whether the call is refused
}

func show(v interface{}) string {
	if isNil(v) {
		return "nil"
	}
	switch t := v.(type) {
	case float32:
		return strconv.FormatFloat(float64(t), 'g', -1, 32)
	case *time.Time:
		return strconv.FormatInt(t.Unix(), 10)
	case fmt.Stringer:
		return t.String()
	}
	return fmt.Sprint(v)
}

func method(x interface{}, name string, args ...interface{}) (out []reflect.Value) {
	m := reflect.ValueOf(x).MethodByName(name)
	if !m.IsValid() {
		panic(fmt.Sprintf("%T has no method %s", x, name))
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		v := reflect.ValueOf(a)
		if want := m.Type().In(i); v.Type() != want && v.Kind() != reflect.Ptr && v.Type().ConvertibleTo(want) {
			v = v.Convert(want)
		}
		in[i] = v
	}
	return m.Call(in)
}

func getOf(x interface{}, name string) string {
	if p := strings.TrimPrefix(name, "param "); p != name {
		if h, ok := x.(hasParams); ok {
			return strconv.FormatBool(h.HasParameter(p)) + " " + unq(h.GetParameter(p))
		}
		return ""
	}
	out := method(x, name)
	return unq(show(out[0].Interface()))
}

// lazy makes an argument anew for each call.
type lazy struct {
	name string
	f    func() interface{}
}

func (s shead) ops() (r []sop) {
	for _, f := range s.fields {
		f := f
		arg := func(v interface{}) (string, func() interface{}) {
			if l, ok := v.(lazy); ok {
				return l.name, l.f
			}
			return show(v), func() interface{} { return v }
		}
		call := func(a func() interface{}) func(x interface{}) error {
			return func(x interface{}) error {
				out := method(x, f.set, a())
				if len(out) > 0 && !out[0].IsNil() {
					return out[0].Interface().(error)
				}
				return nil
			}
		}
		for _, v := range f.good {
			n, a := arg(v)
			sets := map[string]string{}
			if f.get != "" {
				sets[f.get] = show(a())
			}
			if f.has != "" {
				sets[f.has] = "true"
			}
			for k, w := range f.also {
				sets[k] = strings.ReplaceAll(w, "$", show(a()))
			}
			r = append(r, sop{f.set + "(" + n + ")", call(a), false, sets, nil})
		}
		for _, v := range f.bad {
			n, a := arg(v)
			r = append(r, sop{f.set + "(" + n + ")", call(a), true, nil, nil})
		}
		if f.rm != "" {
			sets := map[string]string{f.get: f.none}
			if f.has != "" {
				sets[f.has] = "false"
			}
			r = append(r, sop{f.rm + "()", func(x interface{}) error { method(x, f.rm); return nil }, false, sets, nil})
		}
	}
	return append(r, s.extra...)
}

// What a setter takes besides the values of its field.
var (
	manyTokens = vals{"a", "A", "aB", "Zz9", "0", "007", "x-y.z", "a!%*_+`'~b", "invite", "INVITE", "sip", "token"}
	manyTexts  = vals{"a", "A", "aB Cd", "0", "a  b", "x;y=z", "a,b", "<sip:a@b>", "k=v", "a?b&c", "tel:1", "é", "(x", "'", "%41", "token", "a\tb", "[::1]"}
	manyQs     = vals{float32(0.001), float32(0.125), float32(0.333), float32(0.5), float32(0.7), float32(0.999)}
	manyInts   = vals{2, 3, 9, 10, 11, 15, 16, 17, 59, 99, 100, 101, 127, 128, 254}
	manyLongs  = vals{256, 257, 300, 399, 400, 600, 999, 1000, 1024, 4294, 5060, 5061, 32767, 32768, 65534}
	manyTimes  = vals{65536, 86400, 999999999, 1000000000, 2147483646}
	manyTags   = vals{"DE", "en-GB", "x-y", "i-klingon", "abcdefgh-IJ"}
	manyMedia  = vals{"*", "X-a.b+c", "SDP", "0"}
)

func (s shead) wide() []sop {
	w := s
	w.extra, w.fields = nil, nil
	seen := map[string]bool{}
	for _, f := range s.fields {
		if seen[f.set] {
			continue
		}
		seen[f.set] = true
		var vs vals
		switch f.set {
		case "SetEncoding", "SetPurpose", "SetMethod", "SetEventType", "SetScheme", "SetDispositionType", "SetHandling", "SetOptionTag", "SetEventId",
			"SetState", "SetReasonCode", "SetTag", "SetBranch", "SetPriority", "SetCallId", "SetContentType", "SetContentSubType":
			vs = manyTokens
			if s.name == "CSeq" { // its method is encoded in upper case (see KNOWN_FINDINGS.txt, C41)
				vs = vals{"A", "INVITE", "X-Y.Z", "0", "007"}
			}
		case "SetProtocol":
			if s.name == "Reason" {
				vs = manyTokens
			}
		case "SetRealm", "SetNonce", "SetOpaque", "SetDomain", "SetResponse", "SetUsername", "SetCNonce", "SetNextNonce", "SetErrorMessage", "SetText",
			"SetOrganization", "SetSubject", "SetReasonPhrase", "SetDisplayName", "SetAlgorithm", "SetQop":
			vs = manyTexts
		case "SetQValue":
			vs = manyQs
		case "SetAcceptLanguage", "SetLanguageRange", "SetContentLanguage", "SetLanguageTag":
			vs = manyTags
		case "SetTTL":
			vs = manyInts
		case "SetMaxForwards":
			vs = manyInts
		case "SetPort":
			vs = append(append(vals{}, manyInts...), manyLongs...)
		case "SetExpires", "SetSequenceNumber", "SetContentLength", "SetRSeqNumber", "SetCSeqNumber", "SetRetryAfter", "SetDuration", "SetNonceCount", "SetCause":
			vs = append(append(append(vals{}, manyInts...), manyLongs...), manyTimes...)
		case "SetReceived":
			vs = vals{"0.0.0.0", "255.255.255.255", "2001:db8::1", "::1", "::FFFF:1.2.3.4"}
		case "SetMAddr":
			vs = vals{"M.n", "[::1]", "[2001:DB8::a]", "1.2.3.4"}
		}
		if s.name == "Accept" && (f.set == "SetContentType" || f.set == "SetContentSubType") {
			vs = append(append(vals{}, vs...), manyMedia...)
		}
		f.good, f.bad, f.rm = vs, nil, ""
		w.fields = append(w.fields, f)
	}
	for _, p := range s.params() {
		for i, v := range p.vals {
			v, p := v, p
			shown := v
			if p.shown != nil {
				shown = p.shown[i]
			}
			sets := map[string]string{"param " + p.name: "true " + v}
			if p.get != "" {
				sets[p.get] = shown
			}
			if p.has != "" {
				sets[p.has] = "true"
			}
			for _, n := range []string{p.name, strings.ToUpper(p.name)} {
				n := n
				if n != p.name && (s.name == "Via" || s.name == "Retry-After" || strings.HasPrefix(s.name, "Accept")) { // names read in lower case
					continue
				}
				w.extra = append(w.extra, sop{name: "SetParameter(" + n + "," + v + ")", do: func(x interface{}) error { return x.(paramHeader).SetParameter(n, v) }, sets: sets})
			}
		}
		sets := map[string]string{"param " + p.name: "false "}
		if p.get != "" {
			sets[p.get] = p.none
		}
		if p.has != "" {
			sets[p.has] = "false"
		}
		w.extra = append(w.extra, sop{name: "RemoveParameter(" + p.name + ")", do: func(x interface{}) error { x.(paramHeader).RemoveParameter(p.name); return nil }, sets: sets})
	}
	return w.ops()
}

// sparam is a parameter that has an accessor of its own.
type sparam struct {
	name, get, has, none string
	vals, shown          []string
	text                 func(v string) string // how what its setter was given is written
}

func (s shead) params() (r []sparam) {
	str := func(name, get string, vals ...string) {
		r = append(r, sparam{name: name, get: get, vals: vals})
	}
	num := func(name, get, none string, vals ...string) {
		r = append(r, sparam{name: name, get: get, none: none, vals: vals})
	}
	q := func() {
		r = append(r, sparam{name: "q", get: "GetQValue", has: "HasQValue", none: "-1", vals: []string{"0.5", "1", "0", "0.125"}})
	}
	switch s.name {
	case "WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization":
		for _, n := range []string{"Realm", "Nonce", "Opaque", "Domain", "Algorithm", "Qop", "Response", "Username"} {
			str(strings.ToLower(n), "Get"+n, "k l", "", "x=1,y")
		}
		str("cnonce", "GetCNonce", "k", "")
		str("uri", "GetURI", "sip:k", "http://a/b?c")
		r[len(r)-1].none = "nil"
		r = append(r, sparam{name: "nc", get: "GetNonceCount", none: "-1", vals: []string{"0000000b", "ffffffff"}, shown: []string{"11", "4294967295"}, text: func(v string) string {
			n, _ := strconv.ParseInt(v, 10, 64)
			return fmt.Sprintf("%08x", n)
		}})
		r = append(r, sparam{name: "stale", get: "IsStale", none: "false", vals: []string{"true", "false"}})
	case "Authentication-Info":
		str("nextnonce", "GetNextNonce", "k l", "")
		str("cnonce", "GetCNonce", "k l")
		str("rspauth", "GetResponse", "k", "")
	case "Contact":
		q()
		num("expires", "GetExpires", "-1", "0", "60")
	case "Accept", "Accept-Encoding", "Accept-Language":
		q()
	case "From", "To":
		r = append(r, sparam{name: "tag", get: "GetTag", has: "HasTag", vals: []string{"a", "B-1"}})
	case "Via":
		str("branch", "GetBranch", "a", "z9hG4bK2")
		str("received", "GetReceived", "1.2.3.4", "::1")
		str("maddr", "GetMAddr", "m.n", "[::1]")
		num("ttl", "GetTTL", "-1", "0", "255")
	case "Reason":
		num("cause", "GetCause", "0", "0", "603")
		str("text", "GetText", "done")
	case "Event":
		str("id", "GetEventId", "1", "a.b")
	case "Call-Info":
		str("purpose", "GetPurpose", "card")
	case "Error-Info":
		str("message", "GetErrorMessage", "m")
	case "Content-Disposition":
		str("handling", "GetHandling", "optional")
	case "Content-Type":
		str("charset", "GetCharSet", "utf-8", "UTF-16")
	case "Retry-After":
		num("duration", "GetDuration", "0", "1", "60")
	case "Subscription-State", "Alert-Info", "Route", "Record-Route", "Reply-To", "Refer-To":
	default:
		return nil
	}
	str("zz", "", "1", "a-B", "")
	return r
}

// cross makes the setters of fields that are parameters say so.
func (s shead) cross(ops []sop) []sop {
	ps := s.params()
	for i := range ops {
		sets := map[string]string{}
		for k, v := range ops[i].sets {
			sets[k] = v
			for _, p := range ps {
				if p.get == k && sets["param "+p.name] == "" {
					t := v
					if p.text != nil {
						t = p.text(v)
					}
					if strings.HasPrefix(ops[i].name, "Remove") {
						sets["param "+p.name] = "false "
					} else if w, ok := ops[i].sets["param "+p.name]; ok {
						sets["param "+p.name] = w
					} else {
						sets["param "+p.name] = "true " + t
					}
				}
			}
		}
		ops[i].sets = sets
	}
	return ops
}

func (s shead) accessors() (r []string) {
	seen := map[string]bool{}
	add := func(n string) {
		if n != "" && !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	for _, f := range s.fields {
		add(f.get)
		add(f.has)
		for k := range f.also {
			add(k)
		}
	}
	for _, p := range s.probes {
		add(p)
	}
	return r
}

func c27(c *mc.C) {
	most := c.Pick(80000, 700000)
	c.Bound("setters in sequence", "all sequences of up to 3 (thorough: of up to 4 where these are fewer than %d)", most)
	kinds, count := 0, 0
	for _, s := range sheads() {
		kinds++
		ops := s.ops()
		acc := s.accessors()
		d := 1
		for n := len(ops); n*len(ops) <= most && d < c.Pick(3, 4); n *= len(ops) {
			d++
		}
		starts := s.bodies
		if s.fresh != nil {
			starts = append([]string{""}, starts...)
		}
		for i := range starts {
			fresh := s.fresh != nil && i == 0
			body := starts[i]
			var rec func(seq []sop)
			rec = func(seq []sop) {
				if c.Stop() {
					return
				}
				count++
				if c.Mine() {
					setOne(c, s, fresh, body, acc, seq)
				}
				if len(seq) == d {
					return
				}
				for _, o := range ops {
					rec(append(append([]sop{}, seq...), o))
				}
			}
			rec(nil)
		}
	}
	wide := 0
	for _, s := range sheads() {
		for _, p := range s.params() {
			s.probes = append(s.probes, "param "+p.name)
			if p.get != "" {
				s.probes = append(s.probes, p.get)
			}
		}
		ops := s.cross(s.ops())
		acc := s.accessors()
		starts := s.bodies
		if s.fresh != nil {
			starts = append([]string{""}, starts...)
		}
		for i := range starts {
			fresh := s.fresh != nil && i == 0
			for _, w := range s.cross(s.wide()) {
				seqs := [][]sop{{w}}
				for _, o := range ops {
					seqs = append(seqs, []sop{o, w}, []sop{w, o})
					if c.Thorough() {
						for _, p := range ops {
							seqs = append(seqs, []sop{o, w, p})
						}
					}
				}
				for _, seq := range seqs {
					if c.Stop() {
						return
					}
					wide++
					if c.Mine() {
						setOne(c, s, fresh, starts[i], acc, seq)
					}
				}
			}
		}
	}
	c.Bound("sequences with a value of the wider tables", "%d: each such value alone, before and after (thorough: and between) every operation", wide)
	c.Bound("kinds of value", "%d", kinds)
	c.Bound("sequences", "%d", count)
}

func (s shead) read(text string) (interface{}, error) {
	if s.parse != nil {
		return s.parse(text)
	}
	h, err := parseLine(text + "\n")
	if err != nil {
		return nil, err
	}
	es := elements(h)
	if len(es) != 1 {
		return nil, fmt.Errorf("%d headers", len(es))
	}
	return es[0], nil
}

func setOne(c *mc.C, s shead, fresh bool, body string, acc []string, seq []sop) {
	key := s.name
	if fresh {
		key += " fresh"
	} else {
		key += " " + body
	}
	for _, o := range seq {
		key += " " + o.name
	}
	c.Run(key, func() {
		var x interface{}
		if fresh {
			x = s.fresh()
			all := s.ops()
			for _, n := range s.need {
				found := false
				for _, o := range all {
					if !found && !o.bad && strings.HasPrefix(o.name, n+"(") {
						found = true
						if err := o.do(x); err != nil {
							c.Check(false, key, "%s: %v", o.name, err)
						}
					}
				}
				if !found {
					panic("no " + n)
				}
			}
		} else {
			var err error
			text := body
			if s.parse == nil {
				text = s.name + ": " + body
			}
			x, err = s.read(text)
			if !c.Check(err == nil, key, "%q is rejected: %v", body, err) {
				return
			}
		}
		model := map[string]string{}
		for _, a := range acc {
			model[a] = getOf(x, a)
		}
		for i, o := range seq {
			before := ""
			bad := o.bad
			if o.then != nil {
				bad = o.then(model)
			}
			if bad && i == len(seq)-1 {
				before = digest(x)
			}
			c.Step(1)
			err := o.do(x)
			c.Check((err != nil) == bad, key, "%s: error %v", o.name, err)
			if bad && i == len(seq)-1 {
				c.Check(digest(x) == before, key, "%s is refused but changes the value", o.name)
			}
			for k, v := range o.sets {
				model[k] = v
			}
		}
		for _, a := range acc {
			c.Eq(key, a, getOf(x, a), model[a])
		}
		text := x.(fmt.Stringer).String()
		c.State(text)
		if strings.TrimRight(text, "\r\n ") == "Authentication-Info:" { // has no form without a parameter
			return
		}
		c.Step(1)
		y, err := s.read(strings.TrimSuffix(text, "\r\n"))
		if !c.Check(err == nil, key, "is encoded as %q, which is rejected: %v", text, err) {
			return
		}
		for _, a := range acc {
			c.Eq(key, a+" after encoding and parsing", getOf(y, a), model[a])
		}
		c.Eq(key, "encoded, parsed and encoded", y.(fmt.Stringer).String(), text)
		c.Trace()
		if c.CaseNo()%9973 == 0 {
			c.Sample("%s -> %q", key, text)
		}
	})
}

func aURI(s string) lazy {
	return lazy{s, func() interface{} {
		if strings.HasPrefix(s, "sip") {
			u, err := parser.NewStringMsgParser().ParseSIPUrl(s)
			if err != nil {
				panic(err)
			}
			return u
		}
		return address.NewURIImpl(s)
	}}
}

func anAddress(s string) lazy {
	return lazy{s, func() interface{} {
		a, err := parser.NewStringMsgParser().ParseAddress(s)
		if err != nil {
			panic(err)
		}
		return a
	}}
}

func aTime(sec int64, loc *time.Location) lazy {
	t := time.Unix(sec, 0).In(loc)
	return lazy{t.String(), func() interface{} { return &t }}
}

func sheads() (r []shead) {
	var (
		nan, inf = float32(math.NaN()), float32(math.Inf(1))
		q        = sfield{set: "SetQValue", get: "GetQValue", good: vals{float32(0), float32(0.25), float32(1)}, bad: vals{float32(-0.1), float32(1.5), nan, inf}, has: "HasQValue", rm: "RemoveQValue", none: "-1"}
		other    = "param zz"
		addr     = sfield{set: "SetAddress", get: "GetAddress", good: vals{anAddress("<sip:a@b.c>"), anAddress("\"A B\" <sips:d.e:5061;lr>")}}
		tag      = sfield{set: "SetTag", get: "GetTag", good: vals{"t1", "T-2"}, bad: vals{"", " "}, has: "HasTag", rm: "RemoveTag", none: ""}
		option   = sfield{set: "SetOptionTag", get: "GetOptionTag", good: vals{"100rel", "x.y"}, bad: vals{""}}
	)
	add := func(s shead) { r = append(r, s) }
	num := func(set, get string, good, bad vals) sfield { return sfield{set: set, get: get, good: good, bad: bad} }
	str := num

	add(shead{name: "Accept", fresh: func() interface{} { return header.NewAccept() }, need: []string{"SetContentType", "SetContentSubType"},
		bodies: []string{"text/html", "a/*;q=0.5;zz=1"},
		fields: []sfield{str("SetContentType", "GetContentType", vals{"application", "text"}, nil), str("SetContentSubType", "GetContentSubType", vals{"sdp", "x-y"}, nil), q}, probes: []string{other}})
	add(shead{name: "Accept-Encoding", fresh: func() interface{} { return header.NewAcceptEncoding() }, need: []string{"SetEncoding"},
		bodies: []string{"gzip", "*;q=0.5;zz=1"},
		fields: []sfield{str("SetEncoding", "GetEncoding", vals{"gzip", "identity"}, vals{""}), q}, probes: []string{other}})
	add(shead{name: "Accept-Language", fresh: func() interface{} { return header.NewAcceptLanguage() }, need: []string{"SetAcceptLanguage"},
		bodies: []string{"da", "en-gb;q=0.5;zz=1"},
		fields: []sfield{
			{set: "SetAcceptLanguage", get: "GetAcceptLanguage", good: vals{"de"}, also: map[string]string{"GetLanguageRange": "$"}},
			{set: "SetLanguageRange", get: "GetLanguageRange", good: vals{"en-us"}, also: map[string]string{"GetAcceptLanguage": "$"}}, q}, probes: []string{other}})
	add(shead{name: "Alert-Info", fresh: func() interface{} { return header.NewAlertInfo() }, need: []string{"SetAlertInfo"}, bodies: []string{"<http://a/b>;zz=1"},
		fields: []sfield{str("SetAlertInfo", "GetAlertInfo", vals{aURI("http://x/y.wav"), aURI("sip:a@b")}, nil)}, probes: []string{other}})
	add(shead{name: "Call-Info", fresh: func() interface{} { return header.NewCallInfo() }, need: []string{"SetInfo"}, bodies: []string{"<http://a/b>;purpose=card;zz=1", "<http://a/b>"},
		fields: []sfield{str("SetInfo", "GetInfo", vals{aURI("http://x/y"), aURI("sip:a@b")}, nil), str("SetPurpose", "GetPurpose", vals{"icon", "info"}, vals{""})}, probes: []string{other}})
	add(shead{name: "Error-Info", fresh: func() interface{} { return header.NewErrorInfo() }, need: []string{"SetErrorInfo"}, bodies: []string{"<sip:a@b>;message=m;zz=1", "<sip:a@b>;message=\"m n\""},
		fields: []sfield{str("SetErrorInfo", "GetErrorInfo", vals{aURI("http://x/y"), aURI("sip:a@b")}, nil), str("SetErrorMessage", "GetErrorMessage", vals{"busy", "not; here, no"}, vals{""})}, probes: []string{other}})
	add(shead{name: "Allow", fresh: func() interface{} { return header.NewAllow() }, need: []string{"SetMethod"}, bodies: []string{"INVITE"},
		fields: []sfield{str("SetMethod", "GetMethod", vals{"BYE", "x-Foo"}, vals{""})}})
	add(shead{name: "Allow-Events", fresh: func() interface{} { return header.NewAllowEvents() }, need: []string{"SetEventType"}, bodies: []string{"a.b"},
		fields: []sfield{str("SetEventType", "GetEventType", vals{"presence", "x.winfo"}, vals{""})}})
	for _, n := range []string{"WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization"} {
		n := n
		fresh := map[string]func() interface{}{
			"WWW-Authenticate":    func() interface{} { return header.NewWWWAuthenticate() },
			"Proxy-Authenticate":  func() interface{} { return header.NewProxyAuthenticate() },
			"Authorization":       func() interface{} { return header.NewAuthorization() },
			"Proxy-Authorization": func() interface{} { return header.NewProxyAuthorization() },
		}[n]
		fs := []sfield{
			str("SetScheme", "GetScheme", vals{"Basic"}, nil),
			str("SetRealm", "GetRealm", vals{"r, 1", "r2"}, vals{"", "\"q\""}),
			str("SetNonce", "GetNonce", vals{"n=1"}, vals{"", "\"q\""}),
			str("SetOpaque", "GetOpaque", vals{"o"}, vals{"", "\"q\""}),
			str("SetDomain", "GetDomain", vals{"sip:a.b"}, vals{"", "\"q\""}),
			str("SetAlgorithm", "GetAlgorithm", vals{"MD5", "MD5-sess"}, vals{"", "\"q\""}),
			str("SetQop", "GetQop", vals{"auth"}, vals{"", "\"q\""}),
			str("SetURI", "GetURI", vals{aURI("sip:a@b:5;p=1"), aURI("sip:a@b")}, nil),
			str("SetResponse", "GetResponse", vals{"0123456789abcdef"}, vals{"", "\"q\""}),
			str("SetUsername", "GetUsername", vals{"bob b"}, vals{"\"q\""}),
			str("SetCNonce", "GetCNonce", vals{"c1"}, vals{"\"q\""}),
			num("SetNonceCount", "GetNonceCount", vals{0, 1, 0xabcdef01}, vals{-1, int64(1) << 32}),
			str("SetStale", "IsStale", vals{true, false}, nil),
		}
		add(shead{name: n, fresh: fresh, need: []string{"SetRealm"}, bodies: []string{"Digest realm=\"x\",nonce=\"y\",zz=1,nc=0000000a,stale=TRUE", "Digest username=\"u\",realm=\"x\",uri=\"sip:c\",response=\"z\",algorithm=MD5,qop=\"auth\""}, fields: fs, probes: []string{other}})
	}
	add(shead{name: "Authentication-Info", fresh: func() interface{} { return header.NewAuthenticationInfo() }, need: []string{"SetNextNonce"}, bodies: []string{"nextnonce=\"a\",zz=1", "qop=\"auth\",rspauth=\"b\",cnonce=\"c\",nc=00000002"},
		fields: []sfield{
			str("SetNextNonce", "GetNextNonce", vals{"n1", "n 2"}, vals{"\"q\""}), str("SetCNonce", "GetCNonce", vals{"c"}, vals{"\"q\""}),
			str("SetQop", "GetQop", vals{"auth-int"}, vals{"\"q\""}), str("SetResponse", "GetResponse", vals{"abc"}, vals{"\"q\""}),
			num("SetNonceCount", "GetNonceCount", vals{0, 1, 0xabcdef01}, vals{-1, int64(1) << 32}),
		}, probes: []string{other}})
	add(shead{name: "CSeq", bodies: []string{"1 INVITE", "2147483647 X"},
		fields: []sfield{num("SetSequenceNumber", "GetSequenceNumber", vals{0, 7, 2147483647}, vals{-1}), str("SetMethod", "GetMethod", vals{"BYE", "ACK"}, vals{""})}})
	add(shead{name: "Call-ID", bodies: []string{"a@b", "c"},
		fields: []sfield{str("SetCallId", "GetCallId", vals{"x", "y@z", "1@2.3"}, vals{"", "@", "a@", "@b"})}})
	add(shead{name: "In-Reply-To", fresh: func() interface{} { return header.NewInReplyTo() }, need: []string{"SetCallId"}, bodies: []string{"a@b", "c"},
		fields: []sfield{str("SetCallId", "GetCallId", vals{"x", "y@z", "1@2.3"}, vals{"", "@", "a@", "@b"})}})
	add(shead{name: "Contact", fresh: func() interface{} { return header.NewContact() }, need: []string{"SetAddress"}, bodies: []string{"<sip:x@y>;q=0.5;expires=60;zz=1", "\"N\" <sip:x@y>"},
		fields: []sfield{{set: "SetAddress", get: "GetAddress", good: addr.good, also: map[string]string{"GetWildCardFlag": "false"}}, num("SetExpires", "GetExpires", vals{0, 3600}, vals{-1}), q}, probes: []string{other}})
	for _, n := range []string{"Route", "Record-Route", "Reply-To", "Refer-To"} {
		fresh := map[string]func() interface{}{
			"Route":        func() interface{} { return header.NewRoute() },
			"Record-Route": func() interface{} { return header.NewRecordRoute() },
			"Reply-To":     func() interface{} { return header.NewReplyTo() },
			"Refer-To":     func() interface{} { return header.NewReferTo() },
		}[n]
		add(shead{name: n, fresh: fresh, need: []string{"SetAddress"}, bodies: []string{"<sip:x@y>;zz=1", "\"N\" <sip:x@y>"}, fields: []sfield{addr}, probes: []string{other}})
	}
	for _, n := range []string{"From", "To"} {
		fresh := func() interface{} { return header.NewFrom() }
		if n == "To" {
			fresh = func() interface{} { return header.NewTo() }
		}
		add(shead{name: n, fresh: fresh, need: []string{"SetAddress"}, bodies: []string{"<sip:x@y>;tag=u;zz=1", "\"N\" <sip:x@y>"}, fields: []sfield{addr, tag}, probes: []string{other}})
	}
	add(shead{name: "Content-Disposition", fresh: func() interface{} { return header.NewContentDisposition() }, need: []string{"SetDispositionType"}, bodies: []string{"session", "render;handling=optional;zz=1"},
		fields: []sfield{str("SetDispositionType", "GetDispositionType", vals{"icon", "x-y"}, vals{""}), str("SetHandling", "GetHandling", vals{"required", "optional"}, vals{""})}, probes: []string{other}})
	add(shead{name: "Content-Encoding", fresh: func() interface{} { return header.NewContentEncoding() }, need: []string{"SetEncoding"}, bodies: []string{"gzip"},
		fields: []sfield{str("SetEncoding", "GetEncoding", vals{"tar", "x.y"}, vals{""})}})
	add(shead{name: "Content-Language", fresh: func() interface{} { return header.NewContentLanguage() }, need: []string{"SetContentLanguage"}, bodies: []string{"fr"},
		fields: []sfield{
			{set: "SetContentLanguage", get: "GetContentLanguage", good: vals{"de"}, also: map[string]string{"GetLanguageTag": "$"}},
			{set: "SetLanguageTag", get: "GetLanguageTag", good: vals{"en-us"}, also: map[string]string{"GetContentLanguage": "$"}}}})
	add(shead{name: "Content-Length", fresh: func() interface{} { return header.NewContentLength() }, bodies: []string{"0", "17"},
		fields: []sfield{num("SetContentLength", "GetContentLength", vals{0, 5, 123456}, vals{-1})}})
	add(shead{name: "Content-Type", fresh: func() interface{} { return header.NewContentType() }, need: []string{"SetContentType", "SetContentSubType"}, bodies: []string{"text/plain", "application/sdp;charset=utf-8;zz=1"},
		fields: []sfield{str("SetContentType", "GetContentType", vals{"message", "text"}, vals{""}), str("SetContentSubType", "GetContentSubType", vals{"sipfrag", "html"}, vals{""})},
		extra: []sop{{name: "SetContentTypeSubType(a,b)", do: func(x interface{}) error { x.(*header.ContentType).SetContentTypeSubType("a", "b"); return nil }, sets: map[string]string{"GetContentType": "a", "GetContentSubType": "b", "GetMediaType": "a", "GetMediaSubType": "b"}},
			{name: "SetMediaRange(c/d)", do: func(x interface{}) error {
				m := header.NewMediaRange()
				m.SetType("c")
				m.SetSubtype("d")
				x.(*header.ContentType).SetMediaRange(m)
				return nil
			}, sets: map[string]string{"GetContentType": "c", "GetContentSubType": "d", "GetMediaType": "c", "GetMediaSubType": "d"}}}, probes: []string{other, "GetCharSet"}})
	for _, n := range []string{"Server", "User-Agent"} {
		fresh := func() interface{} { return header.NewServer() }
		if n == "User-Agent" {
			fresh = func() interface{} { return header.NewUserAgent() }
		}
		set := func(ss ...string) lazy {
			return lazy{fmt.Sprint(ss), func() interface{} {
				l := list.New()
				for _, s := range ss {
					l.PushBack(s)
				}
				return l
			}}
		}
		op := func(body string, ts ...string) sop {
			return sop{name: "SetProduct" + fmt.Sprint(ts), do: func(x interface{}) error { method(x, "SetProduct", set(ts...).f()); return nil }, sets: map[string]string{"EncodeBody": body}}
		}
		token := func(t string) sop {
			return sop{name: "AddProductToken(" + t + ")", do: func(x interface{}) error { method(x, "AddProductToken", t); return nil },
				then: func(m map[string]string) bool { m["EncodeBody"] += "/" + t; return false }}
		}
		add(shead{name: n, fresh: fresh, need: []string{"SetProduct"}, bodies: []string{"x/2", "y z/1.0 (w)"},
			fields: []sfield{{set: "SetProduct", good: vals{set("a")}, also: map[string]string{"EncodeBody": "a"}}}, extra: []sop{op("b/1", "b", "1"), op("c/2.0 (d)", "c/2.0 (d)"), token("q"), token("3")}})
	}
	add(shead{name: "Date", fresh: func() interface{} { return header.NewDate() }, need: []string{"SetDate"}, bodies: []string{"Sat, 13 Nov 2010 23:29:00 GMT"},
		fields: []sfield{str("SetDate", "GetDate", vals{aTime(0, time.UTC), aTime(951782400, time.UTC), aTime(1700000000, time.FixedZone("A", 5*3600+1800)), aTime(1704067199, time.FixedZone("B", -10*3600)), aTime(4102444800, time.FixedZone("C", 14*3600))}, nil)}})
	add(shead{name: "Event", fresh: func() interface{} { return header.NewEvent() }, need: []string{"SetEventType"}, bodies: []string{"presence", "a.b;id=1;zz=1"},
		fields: []sfield{str("SetEventType", "GetEventType", vals{"refer", "x.y.z"}, vals{""}), str("SetEventId", "GetEventId", vals{"7", "i-d"}, vals{""})}, probes: []string{other}})
	add(shead{name: "Expires", fresh: func() interface{} { return header.NewExpires() }, bodies: []string{"0", "3600"},
		fields: []sfield{num("SetExpires", "GetExpires", vals{0, 60, 2147483647}, vals{-1})}})
	add(shead{name: "Min-Expires", fresh: func() interface{} { return header.NewMinExpires() }, bodies: []string{"0", "3600"},
		fields: []sfield{num("SetExpires", "GetExpires", vals{0, 60, 2147483647}, vals{-1})}})
	add(shead{name: "Max-Forwards", fresh: func() interface{} { return header.NewMaxForwards() }, need: []string{"SetMaxForwards"}, bodies: []string{"70", "255"},
		fields: []sfield{
			{set: "SetMaxForwards", get: "GetMaxForwards", good: vals{70, 1, 255}, bad: vals{-1, 256}, also: map[string]string{"HasReachedZero": "false"}},
			{set: "SetMaxForwards", get: "GetMaxForwards", good: vals{0}, also: map[string]string{"HasReachedZero": "true"}}},
		extra: []sop{{name: "DecrementMaxForwards()", do: func(x interface{}) error { return x.(*header.MaxForwards).DecrementMaxForwards() }, then: func(m map[string]string) bool {
			n, _ := strconv.Atoi(m["GetMaxForwards"])
			if n == 0 {
				return true
			}
			m["GetMaxForwards"] = strconv.Itoa(n - 1)
			m["HasReachedZero"] = strconv.FormatBool(n == 1)
			return false
		}}}})
	add(shead{name: "MIME-Version", fresh: func() interface{} { return header.NewMimeVersion() }, bodies: []string{"1.0", "12.34"},
		fields: []sfield{num("SetMajorVersion", "GetMajorVersion", vals{0, 1, 12}, vals{-1}), num("SetMinorVersion", "GetMinorVersion", vals{0, 1, 34}, vals{-1})}})
	add(shead{name: "Organization", fresh: func() interface{} { return header.NewOrganization() }, need: []string{"SetOrganization"}, bodies: []string{"A b"},
		fields: []sfield{str("SetOrganization", "GetOrganization", vals{"x", "Boxes by Bob, Inc."}, vals{""})}})
	add(shead{name: "Subject", fresh: func() interface{} { return header.NewSubject() }, need: []string{"SetSubject"}, bodies: []string{"A b"},
		fields: []sfield{str("SetSubject", "GetSubject", vals{"x", "a: b; c"}, vals{""})}})
	add(shead{name: "Priority", fresh: func() interface{} { return header.NewPriority() }, need: []string{"SetPriority"}, bodies: []string{"normal"},
		fields: []sfield{str("SetPriority", "GetPriority", vals{"urgent", "non-urgent"}, vals{""})}})
	for _, n := range []string{"Supported", "Unsupported", "Require", "Proxy-Require"} {
		fresh := map[string]func() interface{}{
			"Supported":     func() interface{} { return header.NewSupported() },
			"Unsupported":   func() interface{} { return header.NewUnsupported() },
			"Require":       func() interface{} { return header.NewRequire() },
			"Proxy-Require": func() interface{} { return header.NewProxyRequire() },
		}[n]
		add(shead{name: n, fresh: fresh, need: []string{"SetOptionTag"}, bodies: []string{"foo"}, fields: []sfield{option}})
	}
	add(shead{name: "RAck", fresh: func() interface{} { return header.NewRAck() }, need: []string{"SetRSeqNumber", "SetCSeqNumber", "SetMethod"}, bodies: []string{"1 2 INVITE"},
		fields: []sfield{num("SetRSeqNumber", "GetRSeqNumber", vals{1, 776656}, vals{-1}), num("SetCSeqNumber", "GetCSeqNumber", vals{3, 0}, vals{-1}), str("SetMethod", "GetMethod", vals{"INVITE", "x"}, nil)}})
	add(shead{name: "RSeq", fresh: func() interface{} { return header.NewRSeq() }, need: []string{"SetSequenceNumber"}, bodies: []string{"1", "988789"},
		fields: []sfield{num("SetSequenceNumber", "GetSequenceNumber", vals{1, 42}, vals{-1})}})
	add(shead{name: "Reason", fresh: func() interface{} { return header.NewReason() }, need: []string{"SetProtocol"}, bodies: []string{"SIP;cause=200;text=\"Call completed\";zz=1", "Q.850"},
		fields: []sfield{str("SetProtocol", "GetProtocol", vals{"SIP", "Q.850"}, nil), num("SetCause", "GetCause", vals{0, 16, 603}, vals{-1}), str("SetText", "GetText", vals{"a", "Terminated; by, x"}, nil)}, probes: []string{other}})
	add(shead{name: "Retry-After", fresh: func() interface{} { return header.NewRetryAfter() }, bodies: []string{"18000;duration=3600;zz=1", "120 (I'm in a meeting)"},
		fields: []sfield{num("SetRetryAfter", "GetRetryAfter", vals{0, 9}, vals{-1}),
			{set: "SetComment", get: "GetComment", good: vals{"busy", "a b; c"}, bad: vals{""}, has: "HasComment", rm: "RemoveComment", none: ""},
			{set: "SetDuration", get: "GetDuration", good: vals{0, 60}, bad: vals{-1}, rm: "RemoveDuration", none: "0"}}, probes: []string{other}})
	add(shead{name: "Subscription-State", fresh: func() interface{} { return header.NewSubscriptionState() }, need: []string{"SetState"}, bodies: []string{"active;expires=600", "terminated;reason=rejected;retry-after=7;zz=1"},
		fields: []sfield{str("SetState", "GetState", vals{"pending", "active"}, vals{""}), str("SetReasonCode", "GetReasonCode", vals{"timeout", "noresource"}, vals{""}),
			num("SetExpires", "GetExpires", vals{0, 3600}, vals{-1}), num("SetRetryAfter", "GetRetryAfter", vals{0, 3600}, vals{-1})}, probes: []string{other}})
	add(shead{name: "Timestamp", fresh: func() interface{} { return header.NewTimeStamp() }, bodies: []string{"54", "54.5 0.25"},
		fields: []sfield{num("SetTimeStamp", "GetTimeStamp", vals{float32(0), float32(12.5), float32(70000), float32(1e-7), float32(1e22)}, vals{float32(-1), float32(-0.5), nan, inf, -inf}),
			{set: "SetDelay", get: "GetDelay", good: vals{float32(0), float32(0.125), float32(3), float32(1e-7), float32(1e22)}, bad: vals{float32(-0.5), float32(-2), nan, inf, -inf}, has: "HasDelay", rm: "RemoveDelay", none: "-1"}}})
	add(shead{name: "Via", fresh: func() interface{} { return header.NewVia() }, need: []string{"SetHostFromString"}, bodies: []string{"SIP/2.0/UDP a.b:5060;branch=z9hG4bKx;zz=1", "SIP/2.0/TCP [2001:db8::1];ttl=16;maddr=224.0.0.1;received=1.2.3.4"},
		fields: []sfield{
			str("SetHostFromString", "GetHost", vals{"x.y", "10.0.0.1"}, nil),
			{set: "SetPort", get: "GetPort", good: vals{1, 65535}, has: "HasPort", rm: "RemovePort", none: "-1"},
			str("SetProtocol", "GetProtocol", vals{"SIP"}, vals{""}),
			str("SetProtocolVersion", "GetProtocolVersion", vals{"2.0"}, nil),
			{set: "SetTTL", get: "GetTTL", good: vals{0, 255}, bad: vals{-2, 256}, also: map[string]string{"param ttl": "true $"}},
			{set: "SetTTL", get: "GetTTL", good: vals{-1}, also: map[string]string{"param ttl": "false "}},
			str("SetBranch", "GetBranch", vals{"z9hG4bK1", "b"}, vals{""}),
			str("SetReceived", "GetReceived", vals{"5.6.7.8"}, vals{""}),
			str("SetMAddr", "GetMAddr", vals{"224.0.0.2", "m.n"}, vals{""}),
		}, probes: []string{other, "GetTransport"}})
	add(shead{name: "Warning", fresh: func() interface{} { return header.NewWarning() }, need: []string{"SetCode", "SetAgent", "SetText"}, bodies: []string{"307 isi.edu \"Session parameter 'foo' not understood\""},
		fields: []sfield{num("SetCode", "GetCode", vals{300, 399}, vals{-1, 0, 299, 400}), str("SetAgent", "GetAgent", vals{"a.b", "h"}, vals{""}), str("SetText", "GetText", vals{"t", "a, b; c"}, vals{""})}})
	add(shead{name: "X-Unknown", bodies: []string{"v w"}, fields: []sfield{str("SetValue", "GetValue", vals{"x", "a;b,c: d"}, nil)}})
	add(shead{name: "request line", bodies: []string{"INVITE sip:a@b SIP/2.0"},
		parse: func(s string) (interface{}, error) {
			return parser.NewStringMsgParser().ParseSIPRequestLine(strings.TrimRight(s, "\r\n") + "\n")
		},
		fields: []sfield{str("SetMethod", "GetMethod", vals{"BYE", "x-y"}, nil), str("SetUri", "GetUri", vals{aURI("sip:c:5061"), aURI("sips:u:p@d")}, nil)}, probes: []string{"GetSipVersion"}})
	add(shead{name: "status line", bodies: []string{"SIP/2.0 200 OK"},
		parse: func(s string) (interface{}, error) {
			return parser.NewStringMsgParser().ParseSIPStatusLine(strings.TrimRight(s, "\r\n") + "\n")
		},
		fields: []sfield{num("SetStatusCode", "GetStatusCode", vals{100, 404, 699}, nil), str("SetReasonPhrase", "GetReasonPhrase", vals{"Ringing", "Not: here"}, nil)}, probes: []string{"GetSipVersion"}})
	add(shead{name: "address", fresh: func() interface{} { return address.NewAddressImpl() }, need: []string{"SetURI"}, bodies: []string{"<sip:a@b:5060;lr>", "\"N o\" <sip:a@b>", "<tel:+1-23>"},
		parse: func(s string) (interface{}, error) { return parser.NewStringMsgParser().ParseAddress(s) },
		fields: []sfield{
			{set: "SetURI", get: "GetURI", good: vals{aURI("sip:c.d"), aURI("sips:u@e:99;x=1")}},
			{set: "SetDisplayName", get: "GetDisplayName", good: vals{"Bob", "B, C <d>"}, has: "HasDisplayName", rm: "RemoveDisplayName", none: ""},
		}})
	_ = core.SIPSeparatorNames_SP
	return r
}
