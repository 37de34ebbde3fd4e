package props

import (
	"container/list"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/mc"
)

func init() {
	reg(&P{ID: "C02", Rule: "every public argument-less constructor, what it gives with what another gives set in it, and every input of the C01 enumeration that a parser accepts; on the value it gives, and on every value reachable from it, every exported argument-less accessor (Get*, Has*, Is*, Encode*, String, Clone)", Run: c02})
}

func isAccessor(name string) bool {
	for _, p := range []string{"Get", "Has", "Is", "Encode", "String", "Clone"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type accessPlan struct {
	names []string
	idx   []int
}

var plans = map[reflect.Type]*accessPlan{}

func planOf(t reflect.Type) *accessPlan {
	if p := plans[t]; p != nil {
		return p
	}
	p := &accessPlan{}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() == 1 && m.Type.NumOut() > 0 && isAccessor(m.Name) {
			p.names = append(p.names, m.Name)
			p.idx = append(p.idx, i)
		}
	}
	if !mc.Threads {
		plans[t] = p
	}
	return p
}

func ours(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return strings.HasPrefix(t.PkgPath(), "github.com/use-go/gosips/")
}

// walker calls every accessor of a value and of what they return.
type walker struct {
	c       *mc.C
	in      string
	seen    map[interface{}]bool
	nilOnly bool
	fail    func(site, detail string)
	visit   func(v interface{})
}

func (w *walker) walk(v reflect.Value, path string, depth int) {
	if !v.IsValid() || depth == 0 {
		return
	}
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	if l, ok := v.Interface().(*list.List); ok {
		if w.seen[l] {
			return
		}
		w.seen[l] = true
		for e := l.Front(); e != nil; e = e.Next() {
			w.walk(reflect.ValueOf(e.Value), path+"[]", depth)
		}
		return
	}
	if !ours(v.Type()) || v.Elem().Kind() != reflect.Struct {
		return
	}
	if w.seen[v.Interface()] {
		return
	}
	w.seen[v.Interface()] = true
	if w.visit != nil {
		w.visit(v.Interface())
	}
	// list headers hold their members in an embedded list
	if l, ok := v.Interface().(interface{ Front() *list.Element }); ok {
		for e := l.Front(); e != nil; e = e.Next() {
			if _, isElem := e.Value.(*list.Element); isElem {
				w.fail(fmt.Sprintf("%s members", v.Type().Elem().Name()), "a list holds list nodes instead of its members")
				break
			}
			w.walk(reflect.ValueOf(e.Value), path+"[]", depth-1)
		}
	}
	p := planOf(v.Type())
	for k, i := range p.idx {
		site := v.Type().Elem().Name() + "." + p.names[k]
		var out []reflect.Value
		w.c.Step(1)
		w.c.Evals++
		if d := mc.Guard(func() { out = v.Method(i).Call(nil) }); d != "" {
			w.fail(site, d)
			continue
		}
		for _, o := range out {
			if o.Kind() == reflect.Interface && !o.IsNil() && o.Elem().Kind() == reflect.Ptr && o.Elem().IsNil() {
				w.fail(site+" typed-nil", "reports something absent as a non-nil value")
				continue
			}
			w.walk(o, path+"."+p.names[k]+"()", depth-1)
		}
	}
}

func c02(c *mc.C) {
	depth := 6
	c.Bound("access path depth", "%d", depth)
	done := map[string]bool{}
	sites := map[string]bool{}
	c.Bound("constructors", "%d", len(ctors))
	for _, k := range ctors {
		if !c.Mine() {
			continue
		}
		c.Step(1)
		c.Outcome("constructed")
		c.Trace()
		w := &walker{c: c, in: k.name, seen: map[interface{}]bool{}, fail: func(site, d string) {
			c.Fail("fresh "+site, "%s on %s(): %s", site, k.name, d)
		}}
		w.walk(reflect.ValueOf(k.f()), "", depth)
	}
	// new values made of new values, each with nothing set
	made := 0
	for _, k := range ctors {
		x := reflect.ValueOf(k.f())
		if !x.IsValid() || x.Kind() != reflect.Ptr {
			continue
		}
		for i := 0; i < x.NumMethod(); i++ {
			m := x.Type().Method(i)
			if !isMutator(m.Name) || m.Type.NumIn() != 2 || m.Type.IsVariadic() || m.Type.In(1).Kind() == reflect.Interface && m.Type.In(1).NumMethod() == 0 {
				continue
			}
			for _, j := range ctors {
				y := reflect.ValueOf(j.f())
				if !y.IsValid() || y.Kind() != reflect.Ptr || !y.Type().AssignableTo(m.Type.In(1)) {
					continue
				}
				made++
				if !c.Mine() {
					continue
				}
				key := fmt.Sprintf("%s.%s(%s)", k.name, m.Name, j.name)
				c.Note(key)
				c.Step(2)
				x := reflect.ValueOf(k.f())
				if d := mc.Guard(func() { x.Method(i).Call([]reflect.Value{y}) }); d != "" {
					continue // what a setter does with odd arguments is not at issue here
				}
				c.Outcome("made of two")
				c.Trace()
				w := &walker{c: c, in: key, seen: map[interface{}]bool{}, fail: func(site, d string) {
					c.Fail("fresh "+site, "%s on %s: %s", site, key, d)
				}}
				w.walk(x, "", depth)
			}
		}
	}
	c.Bound("new values made of two", "%d", made)
	corpus(c, func(e entry, in string) {
		if !c.Mine() {
			return
		}
		key := e.name + " " + in
		var v interface{}
		var err error
		c.Note(key)
		if d := mc.Guard(func() { v, err = e.f(in) }); d != "" {
			return // C01's business
		}
		c.Step(1)
		if err != nil || isNil(v) {
			c.Outcome("rejected")
			return
		}
		c.Outcome("accepted")
		c.Trace()
		canon := ""
		if d := mc.Guard(func() { canon = fmt.Sprintf("%T|%s", v, render(v, nil)) }); d == "" {
			c.State(canon)
			if done[canon] {
				return // same value already walked by this shard
			}
			done[canon] = true
		}
		w := &walker{c: c, in: key, seen: map[interface{}]bool{}, fail: func(site, d string) {
			if !sites[site] {
				sites[site] = true
			}
			c.Fail(site, "%s on %s(%q): %s", site, e.name, in, d)
		}}
		w.walk(reflect.ValueOf(v), "", depth)
	})
	var s []string
	for t := range plans {
		s = append(s, t.Elem().Name())
	}
	sort.Strings(s)
	c.Sample("types walked: %s", strings.Join(s, " "))
}
