package props

import (
	"container/list"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"verif/mc"
)

func init() {
	reg(&P{ID: "C26", Rule: "values of every kind of header, header list, address, URI, host and start line; every modifying method of the value, of its members and of every part its accessors give, with one or two arguments of each type, on the clone and on the original, one or two in sequence", Run: c26})
}

// digest is all that the accessors of a value, and of what they return, say.
type digester struct {
	b    strings.Builder
	seen map[interface{}]bool
}

func digest(x interface{}) string {
	d := &digester{seen: map[interface{}]bool{}}
	d.add(reflect.ValueOf(x), 4)
	return d.b.String()
}

func (d *digester) add(v reflect.Value, depth int) {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		d.b.WriteString("nil;")
		return
	}
	switch v.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		fmt.Fprintf(&d.b, "%v;", v.Interface())
		return
	case reflect.Slice:
		fmt.Fprintf(&d.b, "%v;", v.Interface())
		return
	case reflect.Map:
		fmt.Fprintf(&d.b, "map %d;", v.Len())
		return
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			d.b.WriteString(t.String() + ";")
		}
		return
	case reflect.Ptr:
	default:
		return
	}
	if v.IsNil() {
		d.b.WriteString("nil;")
		return
	}
	if t, ok := v.Interface().(*time.Time); ok {
		d.b.WriteString(t.String() + ";")
		return
	}
	if l, ok := v.Interface().(*list.List); ok {
		d.members(l.Front(), depth)
		return
	}
	if !ours(v.Type()) || depth == 0 || d.seen[v.Interface()] {
		return
	}
	d.seen[v.Interface()] = true
	d.b.WriteString(v.Type().String() + "{")
	if l, ok := v.Interface().(interface{ Front() *list.Element }); ok {
		d.members(l.Front(), depth)
	}
	p := planOf(v.Type())
	for k, i := range p.idx {
		if p.names[k] == "Clone" || v.Type().Method(i).Type.NumOut() == 0 {
			continue
		}
		d.b.WriteString(p.names[k] + "=")
		var out []reflect.Value
		if s := mc.Guard(func() { out = v.Method(i).Call(nil) }); s != "" {
			d.b.WriteString("panic;")
			continue
		}
		for _, o := range out {
			d.add(o, depth-1)
		}
	}
	d.b.WriteString("}")
	delete(d.seen, v.Interface())
}

func (d *digester) members(e *list.Element, depth int) {
	d.b.WriteString("[")
	for ; e != nil; e = e.Next() {
		d.add(reflect.ValueOf(e.Value), depth-1)
	}
	d.b.WriteString("]")
}

// part is a way to get at a part of a value: accessors and members to follow.
type part struct {
	name string
	get  func(v reflect.Value) reflect.Value
}

// mutation is one call that modifies a value.
type mutation struct {
	name string
	do   func(x interface{})
}

func isMutator(n string) bool {
	for _, p := range []string{"Set", "Remove", "Add", "Delete", "Push", "Init", "Concatenate", "Decrement", "Clear", "Append", "Move"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var unknownArgs = map[string]bool{}

// arguments gives values for a parameter type.
func arguments(t reflect.Type, self reflect.Value) []reflect.Value {
	vs := func(xs ...interface{}) (r []reflect.Value) {
		for _, x := range xs {
			if reflect.TypeOf(x).AssignableTo(t) {
				r = append(r, reflect.ValueOf(x))
			} else if t.Kind() != reflect.Interface && reflect.TypeOf(x).ConvertibleTo(t) {
				r = append(r, reflect.ValueOf(x).Convert(t))
			}
		}
		return
	}
	switch t.Kind() {
	case reflect.String:
		return vs("changed", "x")
	case reflect.Bool:
		return vs(true, false)
	case reflect.Int, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return vs(77)
	case reflect.Float32, reflect.Float64:
		return vs(0.25)
	}
	host := core.NewHost("changed.example")
	hp := core.NewHostPort()
	hp.SetHost(host)
	hp.SetPort(77)
	nl := core.NewNameValueList("c")
	nl.AddNameAndValue("changed", "77")
	now := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	var uri, addr, tel interface{}
	if x, err := entries["url"].f("sip:changed@example;x=77"); err == nil {
		uri = x
	}
	if x, err := entries["address"].f("\"Changed\" <sip:c@h>"); err == nil {
		addr = x
	}
	if x, err := entries["url"].f("tel:+777"); err == nil {
		tel = x
	}
	l := list.New()
	l.PushBack("changed")
	mr := header.NewMediaRange()
	mr.SetType("changed")
	pr := header.NewProtocol()
	pr.SetTransport("changed")
	cands := []interface{}{host, hp, nl, core.NewNameValue("changed", "77"), now, &now, l, mr, pr, []byte("changed"), uri, addr, tel}
	var r []reflect.Value
	for _, x := range cands {
		if x != nil && reflect.TypeOf(x).AssignableTo(t) {
			r = append(r, reflect.ValueOf(x))
			if t.NumMethod() == 0 || len(r) == 2 {
				break
			}
		}
	}
	if r == nil && t.Implements(reflect.TypeOf((*header.Header)(nil)).Elem()) {
		if h, err := parseLine("Subject: changed\n"); err == nil {
			r = vs(h)
		}
	}
	return r
}

// mutations lists every way to modify x through itself, its members and what
// its accessors return.
func mutations(x interface{}, depth int) []mutation {
	var r []mutation
	seen := map[interface{}]bool{}
	var walk func(v reflect.Value, path string, get func(v reflect.Value) reflect.Value, depth int)
	walk = func(v reflect.Value, path string, get func(v reflect.Value) reflect.Value, depth int) {
		for v.IsValid() && v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() || seen[v.Interface()] {
			return
		}
		getV := func(root reflect.Value) reflect.Value {
			o := get(root)
			for o.IsValid() && o.Kind() == reflect.Interface {
				o = o.Elem()
			}
			return o
		}
		if l, ok := v.Interface().(interface{ Front() *list.Element }); ok {
			if _, bare := v.Interface().(*list.List); bare {
				seen[v.Interface()] = true
				// a list of its own may be handed out
				return
			}
			i := 0
			for e := l.Front(); e != nil; e = e.Next() {
				i++
				n := i
				walk(reflect.ValueOf(e.Value), fmt.Sprintf("%s[%d]", path, n), func(root reflect.Value) reflect.Value {
					o := getV(root)
					if !o.IsValid() || o.Kind() != reflect.Ptr || o.IsNil() {
						return reflect.Value{}
					}
					e := o.Interface().(interface{ Front() *list.Element }).Front()
					for k := 1; k < n && e != nil; k++ {
						e = e.Next()
					}
					if e == nil {
						return reflect.Value{}
					}
					return reflect.ValueOf(e.Value)
				}, depth-1)
			}
		}
		if !ours(v.Type()) || depth < 0 {
			return
		}
		seen[v.Interface()] = true
		t := v.Type()
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if !isMutator(m.Name) || m.Type.IsVariadic() || m.Type.NumIn() > 4 {
				continue
			}
			var argSets [][]reflect.Value
			argSets = append(argSets, nil)
			ok := true
			for a := 1; a < m.Type.NumIn(); a++ {
				vals := arguments(m.Type.In(a), v)
				if vals == nil {
					unknownArgs[m.Type.In(a).String()] = true
					ok = false
					break
				}
				var n [][]reflect.Value
				for _, s := range argSets {
					for _, x := range vals {
						n = append(n, append(append([]reflect.Value{}, s...), x))
					}
				}
				argSets = n
			}
			if !ok {
				continue
			}
			if len(argSets) > 2 {
				argSets = argSets[:2]
			}
			for k := range argSets {
				i, k := i, k
				r = append(r, mutation{fmt.Sprintf("%s.%s #%d", path, m.Name, k), func(x interface{}) {
					o := getV(reflect.ValueOf(x))
					if !o.IsValid() || o.Type() != t || o.IsNil() {
						return
					}
					// arguments anew, so that nothing is shared through them
					args := []reflect.Value{}
					sets := [][]reflect.Value{nil}
					for a := 1; a < m.Type.NumIn(); a++ {
						var n [][]reflect.Value
						for _, s := range sets {
							for _, x := range arguments(m.Type.In(a), o) {
								n = append(n, append(append([]reflect.Value{}, s...), x))
							}
						}
						sets = n
					}
					args = sets[k]
					o.Method(i).Call(args)
				}})
			}
		}
		p := planOf(t)
		for k, i := range p.idx {
			if p.names[k] == "Clone" {
				continue
			}
			i := i
			var out []reflect.Value
			if mc.Guard(func() { out = v.Method(i).Call(nil) }) != "" || len(out) == 0 {
				continue
			}
			walk(out[0], path+"."+p.names[k]+"()", func(root reflect.Value) reflect.Value {
				o := getV(root)
				if !o.IsValid() || o.Type() != t || o.IsNil() {
					return reflect.Value{}
				}
				return o.Method(i).Call(nil)[0]
			}, depth-1)
		}
	}
	walk(reflect.ValueOf(x), "", func(v reflect.Value) reflect.Value { return v }, depth)
	return r
}

// cloneables gives makers of values to clone.
func cloneables(c *mc.C, f func(name string, mk func() interface{})) {
	n := c.Pick(4, 25)
	for _, s := range hspecs {
		fs := s.forms(c)
		step := len(fs)/n + 1
		for i := 0; i < len(fs); i += step {
			s, form := s, fs[i]
			line := s.name + ": " + form.in
			f(line, func() interface{} { h, _ := parseLine(line + "\n"); return h })
			f("member of "+line, func() interface{} {
				h, err := parseLine(line + "\n")
				if err != nil {
					return nil
				}
				if es := elements(h); len(es) > 0 {
					return es[0]
				}
				return nil
			})
			if s.list {
				two := line + " , " + fs[(i*7+3)%len(fs)].in
				f(two, func() interface{} { h, _ := parseLine(two + "\n"); return h })
			}
		}
	}
	for _, s := range hspecs {
		if s.name != "To" && s.name != "From" {
			continue
		}
		fs := s.forms(c)
		other := map[string]string{"To": "From", "From": "To"}[s.name]
		for i := 0; i < len(fs); i += len(fs)/n + 1 {
			line := s.name + ": " + fs[i].in
			f(line+" as a "+other, func() interface{} { h, _ := parseLine(line + "\n"); return h })
		}
	}
	for e, ts := range map[string][]string{
		"url":        {"sip:h", "sip:u:p@h:1;a=b;c;maddr=m?x=y&z=w", "sips:[::1]:2;lr", "tel:+1-2;isub=3;phone-context=a.b", "tel:12;phone-context=+1;x=y", "http://a/b?c", "sip:+12;isub=1;x=y@h;user=phone"},
		"address":    {"<sip:u@h>", "\"N M\" <sips:u:p@h:1;a=b?x=y>", "sip:u@h", "T <tel:+1;x=y>", "<http://a/b>"},
		"host":       {"h.example", "1.2.3.4", "[::1]"},
		"hostport":   {"h.example:1", "1.2.3.4", "[::1]:2"},
		"statusline": {"SIP/2.0 200 OK"},
		"tel":        {"+1-2;isub=3;x=y", "12;phone-context=a.b;postd=1"},
		"reqline":    {"INVITE sip:u@h:1;a=b SIP/2.0"},
	} {
		en, ok := entries[e]
		if !ok {
			continue
		}
		for _, t := range ts {
			t := t
			f(e+" "+t, func() interface{} { v, _ := en.f(t); return v })
		}
	}
	for _, k := range ctors {
		k := k
		f("fresh "+k.name, func() interface{} { return k.f() })
	}
	_ = address.NAME_ADDR
}

func c26(c *mc.C) {
	values, calls := 0, map[string]bool{}
	var all []struct {
		name string
		mk   func() interface{}
	}
	seenName := map[string]bool{}
	cloneables(c, func(name string, mk func() interface{}) {
		if seenName[name] {
			return
		}
		seenName[name] = true
		all = append(all, struct {
			name string
			mk   func() interface{}
		}{name, mk})
	})
	sort.SliceStable(all, func(i, j int) bool { return all[i].name < all[j].name })
	for _, v := range all {
		v := v
		if !c.Mine() {
			continue
		}
		values++
		key := v.name
		var muts []mutation
		var cl func(x interface{}) interface{}
		ok := false
		c.Run(key, func() {
			k := kk{c, key}
			x := v.mk()
			if isNil(x) {
				return
			}
			if strings.HasSuffix(key, " as a To") || strings.HasSuffix(key, " as a From") {
				// the address and the parameters of one in the other
				cl = func(x interface{}) interface{} {
					if t, ok := x.(*header.To); ok {
						f := header.NewFrom()
						f.CloneTo(t)
						return f
					}
					t := header.NewTo()
					t.CloneFrom(x.(*header.From))
					return t
				}
				c.Step(1)
				d := digest(x)
				y := cl(x)
				from, to := "From", "To"
				if strings.HasSuffix(key, " as a From") {
					from, to = to, from
				}
				k.eq(key, y.(fmt.Stringer).String(), to+strings.TrimPrefix(x.(fmt.Stringer).String(), from))
				k.eq("original after cloning", digest(x), d)
				c.State(d)
				muts = mutations(x, 3)
				ok = true
				c.Trace()
				return
			}
			m := reflect.ValueOf(x).MethodByName("Clone")
			if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
				return
			}
			cl = func(x interface{}) interface{} {
				return reflect.ValueOf(x).MethodByName("Clone").Call(nil)[0].Interface()
			}
			c.Step(1)
			d := digest(x)
			y := cl(x)
			k.eq("type of the clone", fmt.Sprintf("%T", y), fmt.Sprintf("%T", x))
			k.eq("clone", digest(y), d)
			k.eq("original after cloning", digest(x), d)
			k.ok("the clone is the original", x != y)
			c.State(d)
			muts = mutations(x, 3)
			ok = true
			c.Trace()
			if c.CaseNo()%97 == 0 {
				c.Sample("%s: %d ways to modify it", key, len(muts))
			}
		})
		if !ok {
			continue
		}
		for i, m := range muts {
			calls[m.name] = true
			seqs := [][]mutation{{m}}
			if c.Thorough() {
				// another one after it
				seqs = append(seqs, []mutation{m, muts[(i*31+7)%len(muts)]}, []mutation{m, muts[(i*17+3)%len(muts)]})
			}
			for _, seq := range seqs {
				for _, onClone := range []bool{true, false} {
					name := ""
					for _, m := range seq {
						name += m.name + "; "
					}
					seq := seq
					key := fmt.Sprintf("%s: %v %s", v.name, map[bool]string{true: "clone", false: "original"}[onClone], name)
					c.Run(key, func() {
						x := v.mk()
						y := cl(x)
						c.Step(len(seq))
						change, keep := y, x
						if !onClone {
							change, keep = x, y
						}
						before := digest(keep)
						for _, m := range seq {
							mc.Guard(func() { m.do(change) }) // what a setter does with odd arguments is not at issue here
						}
						after := digest(keep)
						if after != before {
							i := 0
							for i < len(after) && i < len(before) && after[i] == before[i] {
								i++
							}
							lo := i - 40
							if lo < 0 {
								lo = 0
							}
							end := func(s string) string {
								if len(s) > i+60 {
									return s[lo : i+60]
								}
								return s[lo:]
							}
							c.Fail(key, "%s changes what it was not made on: from %q to %q", key, end(before), end(after))
						}
						c.Check(true, key, "")
						c.Trace()
					})
				}
			}
		}
	}
	c.Bound("values", "%d in this shard", values)
	c.Bound("modifying calls", "%d different in this shard", len(calls))
	var u []string
	for n := range unknownArgs {
		u = append(u, n)
	}
	sort.Strings(u)
	c.Sample("no arguments of types: %s", strings.Join(u, " "))
}
