package props

import (
	"container/list"
	"fmt"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

// kk is where a check reports to: a context and the failing case's key.
type kk struct {
	c   *mc.C
	key string
}

func (k kk) eq(what string, got, want interface{}) { k.c.Eq(k.key, what, got, want) }
func (k kk) ok(what string, cond bool) bool        { return k.c.Check(cond, k.key, "%s", what) }

type chk func(k kk, h header.Header)

// form is one way to write something: the text as written, the text the
// library must encode it to, and what the parsed value must say of it.
type form struct {
	in, out string
	chks    []chk
}

func f1(s string, chks ...chk) form       { return form{s, s, chks} }
func f2(in, out string, chks ...chk) form { return form{in, out, chks} }
func lits(ss ...string) (r []form) {
	for _, s := range ss {
		r = append(r, f1(s))
	}
	return
}

// alt writes one thing in several ways.
func alt(out string, ins ...string) (r []form) {
	for _, s := range ins {
		r = append(r, f2(s, out))
	}
	return
}

// seq is the cartesian product of the parts, joined.
func seq(parts ...[]form) []form {
	r := []form{{}}
	for _, p := range parts {
		var n []form
		for _, a := range r {
			for _, b := range p {
				n = append(n, form{a.in + b.in, a.out + b.out, append(append([]chk{}, a.chks...), b.chks...)})
			}
		}
		r = n
	}
	return r
}

func cat(parts ...[]form) (r []form) {
	for _, p := range parts {
		r = append(r, p...)
	}
	return
}

// each makes one form of every string, checked by f.
func each(ss []string, f func(s string) chk) (r []form) {
	for _, s := range ss {
		r = append(r, f1(s, f(s)))
	}
	return
}

// pick keeps every n-th form, so that products stay within bounds. It always
// keeps the first.
func pick(n int, fs []form) (r []form) {
	for i := range fs {
		if i%n == 0 {
			r = append(r, fs[i])
		}
	}
	return
}

// some keeps the first n.
func some(n int, fs []form) []form {
	if len(fs) < n {
		return fs
	}
	return fs[:n]
}

// hasParams is what every header with parameters offers.
type hasParams interface {
	GetParameter(name string) string
	HasParameter(name string) bool
	HasParameters() bool
}

func unq(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return s[1 : len(s)-1]
	}
	return s
}

// param is one header parameter: written form, canonical form, name, value.
type param struct {
	in, out, name, val string
	chks               []chk
}

func (p param) chk() chk {
	return func(k kk, h header.Header) {
		hp, ok := h.(hasParams)
		if !ok {
			k.ok(fmt.Sprintf("%T has no parameters", h), false)
			return
		}
		k.eq("has parameter "+p.name, hp.HasParameter(p.name), true)
		k.eq("parameter "+p.name, unq(hp.GetParameter(p.name)), p.val)
		k.eq("parameter "+strings.ToUpper(p.name), unq(hp.GetParameter(strings.ToUpper(p.name))), p.val)
	}
}

func absent(names ...string) chk {
	return func(k kk, h header.Header) {
		hp := h.(hasParams)
		for _, n := range names {
			k.eq("has parameter "+n, hp.HasParameter(n), false)
			k.eq("parameter "+n, hp.GetParameter(n), "")
		}
	}
}

// genericParams are header parameters any header may carry.
func genericParams(c *mc.C) []param {
	ps := []param{
		{in: "x=1", out: "x=1", name: "x", val: "1"},
		{in: "y", out: "y=", name: "y", val: ""},
		{in: `z = "a, b;c=<d>\"e\\"`, out: `z="a, b;c=<d>\"e\\"`, name: "z", val: `a, b;c=<d>\"e\\`},
	}
	ps = append(ps,
		param{in: "A-1.b!%*_+`'~=\t-.!%*_+`'~0", out: "A-1.b!%*_+`'~=-.!%*_+`'~0", name: "A-1.b!%*_+`'~", val: "-.!%*_+`'~0"},
		param{in: `q1=""`, out: `q1=""`, name: "q1", val: ""},
		param{in: "u=\"\xc3\xa9 \xff(\"", out: "u=\"\xc3\xa9 \xff(\"", name: "u", val: "\xc3\xa9 \xff("})
	return ps
}

// params enumerates all sequences of up to max distinct parameters, written
// with several kinds of white space around the separator.
func params(c *mc.C, max int, sep string, ps []param, chks ...chk) []form {
	var r []form
	ws := [][2]string{{sep, sep}, {" " + sep + "\t ", sep}}
	if sep == "," {
		ws = [][2]string{{",", ","}, {" ,\t ", ","}}
	}
	var rec func(used int, seq []param)
	rec = func(used int, s []param) {
		for wi, w := range ws {
			if len(s) == 0 && wi > 0 {
				break
			}
			var f form
			for i, p := range s {
				if i > 0 || sep == ";" {
					f.in += w[0]
					f.out += w[1]
				}
				f.in += p.in
				f.out += p.out
				f.chks = append(f.chks, p.chk())
				f.chks = append(f.chks, p.chks...)
			}
			n := len(s)
			f.chks = append(f.chks, func(k kk, h header.Header) {
				if hp, ok := h.(hasParams); ok {
					k.eq("has parameters", hp.HasParameters(), n > 0)
				}
				if hp, ok := h.(interface{ GetParameterNames() *list.List }); ok {
					k.eq("number of parameters", hp.GetParameterNames().Len(), n)
				}
			})
			f.chks = append(f.chks, chks...)
			r = append(r, f)
		}
		if len(s) == max {
			return
		}
		for i, p := range ps {
			dup := false
			for _, q := range s {
				dup = dup || strings.EqualFold(p.name, q.name)
			}
			if !dup {
				rec(used|1<<uint(i), append(append([]param{}, s...), p))
			}
		}
	}
	rec(0, nil)
	return r
}

// hspec describes one header of the library.
type hspec struct {
	name  string   // canonical name
	alts  []string // compact forms
	list  bool     // several values may be given, separated by commas
	ext   bool     // unknown to the library: its name is kept as written
	group string   // which property explores its values
	forms func(c *mc.C) []form
}

var hspecs []*hspec

func hs(group, name, compact string, list bool, forms func(c *mc.C) []form) {
	h := &hspec{name: name, list: list, group: group, forms: forms, ext: name[0] == 'X' || name[:2] == "P-"}
	if compact != "" {
		h.alts = []string{compact}
	}
	hspecs = append(hspecs, h)
}

// elements gives the single headers in a parsed header: itself, or the
// members of the list it is.
func elements(h header.Header) []header.Header {
	if l, ok := h.(header.SIPHeaderLister); ok {
		var r []header.Header
		for e := l.Front(); e != nil; e = e.Next() {
			if hh, ok := e.Value.(header.Header); ok {
				r = append(r, hh)
			}
		}
		return r
	}
	return []header.Header{h}
}

// value strips the name and line end off an encoded header line.
func value(line string) (name, val string) {
	i := strings.Index(line, ":")
	if i < 0 {
		return "", line
	}
	return line[:i], strings.TrimSpace(line[i+1:])
}

// groupRun explores every value form of the headers in a group: parse it,
// compare every accessor with the model, compare the encoding with the
// canonical text, and parse and compare that again.
func groupRun(group string) func(c *mc.C) {
	return func(c *mc.C) {
		for _, s := range hspecs {
			if s.group != group {
				continue
			}
			fs := s.forms(c)
			c.Bound(s.name+" values", "%d", len(fs))
			for _, f := range fs {
				if !c.Mine() {
					continue
				}
				oneHeader(c, s, s.name, ": ", f)
			}
			for _, n := range append(nameCases(s.name), s.alts...) {
				for _, sep := range []string{":", " : ", "\t:\t "} {
					f := fs[(len(n)*7+len(sep)*3)%len(fs)]
					if c.Mine() {
						oneHeader(c, s, n, sep, f)
					}
				}
			}
		}
	}
}

func nameCases(n string) []string {
	return []string{n, strings.ToLower(n), strings.ToUpper(n)}
}

func parseLine(line string) (header.Header, error) {
	v, err := entries["headernl"].f(line)
	if err != nil {
		return nil, err
	}
	if isNil(v) {
		return nil, fmt.Errorf("nil header")
	}
	return v.(header.Header), nil
}

func oneHeader(c *mc.C, s *hspec, name, sep string, f form) {
	line := name + sep + f.in + "\n"
	key := line
	outName := s.name
	if s.ext {
		outName = name
	}
	c.Run(key, func() {
		c.Step(1)
		h, err := parseLine(line)
		if !c.Check(err == nil, key, "%q is rejected: %v", line, err) {
			return
		}
		check := func(what string, h header.Header) {
			es := elements(h)
			if !c.Check(len(es) == 1, key, "%s%q gives %d headers", what, line, len(es)) {
				return
			}
			k := kk{c, key}
			k.eq(what+"name", es[0].GetName(), outName)
			for _, f := range f.chks {
				f(k, es[0])
			}
		}
		check("", h)
		enc := h.String()
		c.State(enc)
		want := outName + ": " + f.out + "\r\n"
		c.Check(enc == want, key, "%q is encoded as %q, not as %q", line, enc, want)
		c.Step(1)
		h2, err := parseLine(strings.TrimSuffix(enc, "\r\n") + "\n")
		if !c.Check(err == nil, key, "%q is encoded as %q, which is rejected: %v", line, enc, err) {
			return
		}
		check("encoded and parsed again: ", h2)
		c.Check(h2.String() == enc, key, "%q is encoded as %q, and that as %q", line, enc, h2.String())
		c.Trace()
		if c.CaseNo()%1499 == 0 {
			c.Sample("%q -> %q", line, enc)
		}
	})
}
