package props

import (
	"fmt"
	"reflect"
	"sort"

	"verif/mc"
)

func init() {
	reg(&P{ID: "C43", Rule: "values of every kind of header, header list, address, URI, host, start line and message, parsed and made by every constructor; every modifying method of the value, of its members and of every part its accessors give, with one or two arguments of each type, one or two in sequence; all others of its kind, made before and after, and a fresh value of every constructor, compared with the table of pristine values", Run: c43})
}

// diffAt cuts two strings to where they differ.
func diffAt(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	end := func(s string) string {
		if len(s) > i+60 {
			return s[lo : i+60]
		}
		return s[lo:]
	}
	return end(a), end(b)
}

// c43: nothing that is done to a value shows in another one that was made
// independently, before or after it.
func c43(c *mc.C) {
	type maker struct {
		name string
		mk   func() interface{}
	}
	var all []maker
	have := map[string]bool{}
	add := func(name string, mk func() interface{}) {
		if !have[name] {
			have[name] = true
			all = append(all, maker{name, mk})
		}
	}
	cloneables(c, add)
	for i, m := range msgSeeds {
		m := m
		add(fmt.Sprintf("message %d", i), func() interface{} { v, _ := entries["message"].f(m); return v })
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].name < all[j].name })

	// what each constructor gives before anything was done to any value
	pristine := map[string]string{}
	for _, k := range ctors {
		k := k
		mc.Guard(func() { pristine[k.name] = digest(k.f()) })
	}
	values, calls := 0, map[string]bool{}
	for _, k := range ctors {
		k := k
		if !c.Mine() {
			continue
		}
		c.Run("fresh "+k.name, func() {
			c.Step(1)
			// a part the table does not know is new, one it knows and that is
			// gone is no longer there to be asked
			got, want := sayings(k.f()), freshValues[k.name]
			for n, w := range want {
				if g, ok := got[n]; ok {
					c.Eq("fresh "+k.name, "fresh value: "+n, g, w)
				}
			}
			c.State(fmt.Sprint(want))
			c.Trace()
		})
	}
	rest := func(key string) {
		for _, k := range ctors {
			k := k
			mc.Guard(func() {
				if d := digest(k.f()); d != pristine[k.name] {
					x, y := diffAt(pristine[k.name], d)
					c.Fail(key, "%s changes what a new %s says: from %q to %q", key, k.name, x, y)
				}
			})
		}
	}
	for _, v := range all {
		v := v
		if !c.Mine() {
			continue
		}
		values++
		var muts []mutation
		first := ""
		c.Run(v.name, func() {
			a := v.mk()
			if isNil(a) {
				return
			}
			first = digest(a)
			muts = mutations(v.mk(), 3)
			c.Step(1)
			c.Eq(v.name, "the same made again", digest(v.mk()), first)
			c.State(first)
			c.Trace()
		})
		for i, m := range muts {
			calls[m.name] = true
			seqs := [][]mutation{{m}}
			if c.Thorough() {
				seqs = append(seqs, []mutation{m, muts[(i*31+7)%len(muts)]}, []mutation{m, muts[(i*17+3)%len(muts)]})
			}
			for _, seq := range seqs {
				seq, key := seq, v.name+": "
				for _, m := range seq {
					key += m.name + "; "
				}
				c.Run(key, func() {
					a, x := v.mk(), v.mk()
					c.Step(len(seq))
					before := digest(a)
					for _, m := range seq {
						mc.Guard(func() { m.do(x) })
					}
					if after := digest(a); after != before {
						p, q := diffAt(before, after)
						c.Fail(key, "%s changes one made before: from %q to %q", key, p, q)
					}
					if after := digest(v.mk()); after != first {
						p, q := diffAt(first, after)
						c.Fail(key, "%s changes one made after: from %q to %q", key, p, q)
					}
					c.Check(true, key, "")
					c.Trace()
				})
			}
		}
		if len(muts) > 0 {
			c.Run(v.name+": all others", func() { rest(v.name + ": the calls so far") })
		}
		if c.CaseNo()%97 == 0 {
			c.Sample("%s: %d ways to modify it", v.name, len(muts))
		}
	}
	c.Bound("values", "%d in this shard", values)
	c.Bound("modifying calls", "%d different in this shard", len(calls))
	c.Bound("constructors", "%d", len(ctors))
}

// say is what one accessor of a fresh value says, without the accessors of
// what it returns.
func say(v reflect.Value) string {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
		return "nil"
	}
	x := v.Interface()
	if _, ok := x.(error); ok {
		return "error"
	}
	if s, ok := x.(fmt.Stringer); ok && ours(v.Type()) {
		return v.Type().String() + " " + s.String()
	}
	if l, ok := x.(interface{ Len() int }); ok {
		return fmt.Sprintf("list of %d", l.Len())
	}
	if v.Kind() == reflect.Ptr {
		return v.Type().String()
	}
	if v.Kind() == reflect.Slice && v.Len() > 0 {
		if b, ok := x.([]byte); ok {
			return string(b)
		}
		r := ""
		for i := 0; i < v.Len(); i++ {
			r += say(v.Index(i)) + ";"
		}
		return r
	}
	return fmt.Sprintf("%v", x)
}

// sayings is what every accessor of a fresh value says; what it says of the
// ids and hash codes, and the members, of nothing is left open.
func sayings(x interface{}) map[string]string {
	r := map[string]string{}
	v := reflect.ValueOf(x)
	p := planOf(v.Type())
	for k, i := range p.idx {
		n := p.names[k]
		if n == "Clone" || n == "HashCode" || n == "GetTransactionId" || n == "GetDialogId" ||
			n == "GetFirst" || n == "GetLast" {
			continue
		}
		s := ""
		if e := mc.Guard(func() {
			for _, o := range v.Method(i).Call(nil) {
				if s != "" {
					s += ", "
				}
				s += say(o)
			}
		}); e != "" {
			s = "panic"
		}
		r[n] = s
	}
	return r
}
