package props

import (
	"container/list"
	"fmt"
	"reflect"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C51", Rule: "all sequences, to a depth, of putting in front and behind, concatenating lists (other, empty, none, itself), taking out, moving, emptying and cloning, on a new and on a parsed list of every kind, in lock step with the sequence of values", Run: c51})
}

// c51: a header list is the sequence of headers that was put into it.
func c51(c *mc.C) {
	type kind struct {
		name  string
		fresh func() header.SIPHeaderLister
		lines bool // one line for each value
		vals  []string
		out   []string
	}
	var kinds []kind
	newList := func(t reflect.Type) func() header.SIPHeaderLister {
		for _, k := range ctors {
			f := k.f
			if x := f(); reflect.TypeOf(x) == t {
				return func() header.SIPHeaderLister { return f().(header.SIPHeaderLister) }
			}
		}
		return nil
	}
	for _, s := range hspecs {
		if !s.list && s.name != "WWW-Authenticate" && s.name != "Proxy-Authenticate" {
			continue
		}
		fs := s.forms(c)
		k := kind{name: s.name, lines: !s.list}
		for i := 0; i < len(fs) && len(k.vals) < 3; i += len(fs)/3 + 1 {
			k.vals = append(k.vals, fs[i].in)
			k.out = append(k.out, fs[i].out)
		}
		if len(k.vals) < 3 {
			k.vals, k.out = append(k.vals, fs[len(fs)-1].in), append(k.out, fs[len(fs)-1].out)
		}
		h, err := parseLine(s.name + ": " + k.vals[0] + "\n")
		if err != nil {
			continue
		}
		t := reflect.TypeOf(h)
		if _, ok := h.(header.SIPHeaderLister); !ok {
			if s.name == "WWW-Authenticate" {
				t = reflect.TypeOf(header.NewWWWAuthenticateList())
			} else {
				t = reflect.TypeOf(header.NewProxyAuthenticateList())
			}
		}
		if k.fresh = newList(t); k.fresh != nil {
			kinds = append(kinds, k)
		}
	}
	kinds = append(kinds, kind{name: "X-Any", lines: true, vals: []string{"a", "b, c", "d=\"e\""}, out: []string{"a", "b, c", "d=\"e\""},
		fresh: func() header.SIPHeaderLister { return header.NewExtensionHeaderList("X-Any") }})
	kinds = append(kinds, kind{name: "Subject", vals: []string{"a", "b", "c d"}, out: []string{"a", "b", "c d"},
		fresh: func() header.SIPHeaderLister { return header.NewSIPHeaderList("Subject") }})
	c.Bound("kinds of lists", "%d", len(kinds))
	depth := c.Pick(3, 4)

	type st struct {
		x    header.SIPHeaderLister
		m    []int // numbers of values
		kept []func() string
	}
	type op struct {
		name string
		do   func(k kind, s *st)
	}
	one := func(k kind, i int) header.Header {
		h, err := parseLine(k.name + ": " + k.vals[i] + "\n")
		if err != nil {
			panic(err)
		}
		if es := elements(h); len(es) == 1 {
			return es[0]
		}
		panic(k.name + " has no one element")
	}
	some := func(k kind, is ...int) header.SIPHeaderLister {
		l := k.fresh()
		for _, i := range is {
			l.PushBack(one(k, i))
		}
		return l
	}
	text := func(k kind, m []int) string {
		var r []string
		for _, i := range m {
			r = append(r, strings.TrimRight(k.out[i], " "))
		}
		return strings.Join(r, " | ")
	}
	says := func(l header.SIPHeaderLister) string {
		var r []string
		for e := l.Front(); e != nil; e = e.Next() {
			r = append(r, strings.TrimRight(e.Value.(header.Header).EncodeBody(), " "))
		}
		return strings.Join(r, " | ")
	}
	// keep watches that a list that was put into another one stays as it is.
	keep := func(k kind, s *st, what string, l header.SIPHeaderLister, m []int) {
		s.kept = append(s.kept, func() string {
			if g, w := says(l), text(k, m); g != w {
				return fmt.Sprintf("%s is %q now, and was %q", what, g, w)
			}
			return ""
		})
	}
	join := func(a, b []int) []int { return append(append([]int{}, a...), b...) }
	var ops []op
	for i := 0; i < 3; i++ {
		i := i
		ops = append(ops, op{fmt.Sprintf("push back %d", i), func(k kind, s *st) {
			if l, ok := s.x.(*header.ContactList); ok {
				if err := l.AddContact(one(k, i).(header.ContactHeader)); err != nil {
					panic(err)
				}
			} else {
				s.x.PushBack(one(k, i))
			}
			s.m = join(s.m, []int{i})
		}})
	}
	ops = append(ops,
		op{"push front 0", func(k kind, s *st) { s.x.PushFront(one(k, 0)); s.m = join([]int{0}, s.m) }},
		op{"concatenate 1 2 behind", func(k kind, s *st) {
			l := some(k, 1, 2)
			s.x.Concatenate(l, false)
			s.m = join(s.m, []int{1, 2})
			keep(k, s, "the list put behind", l, []int{1, 2})
		}},
		op{"concatenate 0 2 in front", func(k kind, s *st) {
			l := some(k, 0, 2)
			s.x.Concatenate(l, true)
			s.m = join([]int{0, 2}, s.m)
			keep(k, s, "the list put in front", l, []int{0, 2})
		}},
		op{"concatenate nothing", func(k kind, s *st) {
			s.x.Concatenate(nil, false)
			s.x.Concatenate(nil, true)
			s.x.Concatenate(k.fresh(), false)
			s.x.Concatenate(k.fresh(), true)
			s.x.Concatenate(s.x, false)
			s.x.Concatenate(s.x, true)
		}},
		op{"to an empty one", func(k kind, s *st) {
			l := k.fresh()
			l.Concatenate(s.x, len(s.m)%2 == 0)
			keep(k, s, "the list concatenated to an empty one", s.x, s.m)
			s.x = l
		}},
		op{"take the first", func(k kind, s *st) {
			if len(s.m) > 0 {
				s.x.Remove(s.x.Front())
				s.m = s.m[1:]
			}
		}},
		op{"take the last", func(k kind, s *st) {
			if len(s.m) > 0 {
				s.x.Remove(s.x.Back())
				s.m = s.m[:len(s.m)-1]
			}
		}},
		op{"last to front", func(k kind, s *st) {
			if n := len(s.m) - 1; n >= 0 {
				s.x.MoveToFront(s.x.Back())
				s.m = join(s.m[n:], s.m[:n])
			}
		}},
		op{"empty", func(k kind, s *st) { s.x.Init(); s.m = nil }},
		op{"clone", func(k kind, s *st) {
			keep(k, s, "the original of a clone", s.x, s.m)
			s.x = s.x.Clone().(header.SIPHeaderLister)
		}},
	)
	check := func(kk kk, k kind, s *st) {
		l := s.x
		kk.eq("number of values", l.Len(), len(s.m))
		kk.eq("values", says(l), text(k, s.m))
		kk.eq("name", l.GetName(), k.name)
		kk.eq("is a list", l.IsHeaderList(), true)
		var lines, bodies []string
		for _, i := range s.m {
			lines = append(lines, k.name+": "+k.out[i]+"\r\n")
			bodies = append(bodies, k.out[i])
		}
		var got []string
		for e := l.GetHeadersAsEncodedStrings().Front(); e != nil; e = e.Next() {
			got = append(got, e.Value.(string))
		}
		kk.eq("encoded headers", strings.Join(got, ""), strings.Join(lines, ""))
		kk.eq("number of encoded headers", len(got), len(s.m))
		whole := k.name + ": " + strings.Join(bodies, ",") + "\r\n"
		if k.lines {
			whole = strings.Join(lines, "")
		}
		if len(s.m) > 0 {
			kk.eq("encoding", l.String(), whole)
		}
		if !k.lines {
			kk.eq("body", l.EncodeBody(), strings.Join(bodies, ","))
			if v, ok := l.(interface{ GetHeaderValue() string }); ok {
				kk.eq("value", v.GetHeaderValue(), strings.TrimSpace(strings.Join(bodies, ",")))
			}
			if len(s.m) > 0 && k.name != "Subject" {
				p, err := parseLine(strings.TrimSuffix(l.String(), "\r\n") + "\n")
				if kk.ok(fmt.Sprintf("%q: %v", l.String(), err), err == nil) {
					kk.eq("values after parsing", says(p.(header.SIPHeaderLister)), text(k, s.m))
				}
			}
		}
		if x, ok := l.(*header.ContactList); ok {
			cs := x.GetContacts()
			kk.eq("number of contacts", len(cs), len(s.m))
			for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
				kk.ok(fmt.Sprintf("contact %d is another one", i), cs[i] == e.Value)
			}
		}
		if x, ok := l.(interface{ GetMethods() *list.List }); ok {
			var ms []string
			for e := x.GetMethods().Front(); e != nil; e = e.Next() {
				ms = append(ms, fmt.Sprint(e.Value))
			}
			kk.eq("methods", strings.Join(ms, " | "), text(k, s.m))
		}
		for _, f := range s.kept {
			if p := f(); p != "" {
				kk.ok(p, false)
			}
		}
	}
	c.Bound("operations", "all sequences of up to %d of %d, on two lists of each kind", depth, len(ops))
	for _, k := range kinds {
		for _, parsed := range []bool{false, true} {
			k, parsed := k, parsed
			if parsed && (k.lines || k.name == "Subject") {
				continue
			}
			sequences(len(ops), depth, func(h []int) {
				if !c.Mine() {
					return
				}
				key := k.name
				if parsed {
					key += " parsed"
				}
				for _, o := range h {
					key += " | " + ops[o].name
				}
				c.Run(key, func() {
					s := &st{x: k.fresh()}
					if parsed {
						p, err := parseLine(k.name + ": " + k.vals[2] + " , " + k.vals[0] + "\n")
						if err != nil {
							c.Fail(key, "%v", err)
							return
						}
						s.x, s.m = p.(header.SIPHeaderLister), []int{2, 0}
					}
					for _, o := range h {
						c.Step(1)
						ops[o].do(k, s)
					}
					check(kk{c, key}, k, s)
					c.State(k.name + text(k, s.m))
					c.Trace()
				})
			})
		}
	}
}
