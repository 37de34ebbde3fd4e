package props

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"syscall"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
	"verif/mc"
)

// seedText is a text for an entry point, all of it but for tail a place for
// words.
type seedText struct {
	e          entry
	head, body string
	tail       string
}

func seedTexts(c *mc.C) (r []seedText) {
	add := func(e, head, body, tail string) {
		r = append(r, seedText{entries[e], head, body, tail})
	}
	for _, s := range hdrSeeds {
		i := strings.Index(s, ":")
		add("headernl", s[:i+1], s[i+1:], "\n")
	}
	for _, s := range uriSeeds {
		add("sipurl", "", s, "")
		add("url", "", s, "")
	}
	for _, s := range addrSeeds {
		add("address", "", s, "")
	}
	for _, h := range hosts {
		add("hostport", "", h+":5060", "")
	}
	for _, t := range []string{"+1-212;isub=1;x=2", "911;postdial=1"} {
		add("tel", "", t, "")
	}
	for _, s := range reqLineSeeds {
		add("reqline", "", s, "")
	}
	for _, s := range statusLineSeeds {
		add("statusline", "", s, "")
	}
	return
}

// runs are the maximal runs of letters, digits and token characters.
func runs(s string) (r [][2]int) {
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && (isAlpha(s[j]) || isDigit(s[j]) || strings.IndexByte("-_.+%", s[j]) >= 0) {
			j++
		}
		if j > i {
			r = append(r, [2]int{i, j})
			i = j
		} else {
			i++
		}
	}
	return
}

// withWords gives the seeds with one word in place of another: in a quick
// run a share of them, another for each word.
func withWords(c *mc.C, n int, w string, share int, f func(t seedText, in string)) {
	k := n
	for _, t := range seedTexts(c) {
		for _, r := range runs(t.body) {
			k++
			if share > 1 && k%share != 0 {
				continue
			}
			f(t, t.head+t.body[:r[0]]+w+t.body[r[1]:]+t.tail)
		}
	}
}

// traced runs f with tracing on and what it prints thrown away.
func traced(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	keep, err := syscall.Dup(2)
	if err != nil {
		panic(err)
	}
	syscall.Dup3(int(null.Fd()), 2, 0)
	core.Debug.ParserDebug = true
	defer func() {
		core.Debug.ParserDebug = false
		syscall.Dup3(keep, 2, 0)
		syscall.Close(keep)
		null.Close()
	}()
	f()
}

// wordTexts: what holds for any text, for those with words in them.
func wordTexts(c *mc.C, add adder) {
	ws := dict()
	var nos []int
	for i := range ws {
		nos = append(nos, i+1)
	}
	share := c.Pick(2, 1)
	add("C01", "word in place of one of a seed", nos, func(k kk, n int) {
		withWords(c, n, ws[n-1], share, func(t seedText, in string) {
			if d := mc.Guard(func() {
				x, err := t.e.f(in)
				if enc := render(x, err); err == nil && !isNil(x) {
					t.e.f(enc)
				}
			}); d != "" {
				k.ok(fmt.Sprintf("%s(%q): %s", t.e.name, in, d), false)
			}
		})
		k.ok("", true)
	})
	add("C02", "word in place of one of a seed", nos, func(k kk, n int) {
		withWords(c, n, ws[n-1], 4*share, func(t seedText, in string) {
			x, err := t.e.f(in)
			if err != nil || isNil(x) {
				return
			}
			w := &walker{c: c, in: in, seen: map[interface{}]bool{}, fail: func(site, detail string) {
				k.ok(fmt.Sprintf("%s(%q): %s: %s", t.e.name, in, site, detail), false)
			}}
			w.walk(reflect.ValueOf(x), "", 6)
		})
		k.ok("", true)
	})
	add("C26", "word in place of one of a seed", nos, func(k kk, n int) {
		withWords(c, n, ws[n-1], 4*share, func(t seedText, in string) {
			x, err := t.e.f(in)
			if err != nil || isNil(x) {
				return
			}
			cl, ok := x.(interface{ Clone() interface{} })
			if !ok {
				return
			}
			want := said(x, nil)
			if got := said(cl.Clone(), nil); got != want {
				k.eq(fmt.Sprintf("clone of %q", in), got, want)
			}
			if got := said(x, nil); got != want {
				k.eq(fmt.Sprintf("%q once cloned", in), got, want)
			}
		})
		k.ok("", true)
	})
	add("C39", "parameter named by a word", nos, func(k kk, n int) {
		w := ws[n-1]
		i := n
		for _, t := range seedTexts(c) {
			for p := 0; p <= len(t.body); p++ {
				if i++; i%share != 0 || strings.Contains(strings.ToLower(t.body), strings.ToLower(w)+"=") { // of two of a name one is kept
					continue
				}
				in := t.head + t.body[:p] + ";" + w + "=Zq9" + t.body[p:] + t.tail
				x, err := t.e.f(in)
				if err == nil && !strings.Contains(strings.ToLower(render(x, nil)), "zq9") {
					k.ok(fmt.Sprintf("%s %q is accepted as %q", t.e.name, in, render(x, nil)), false)
				}
			}
		}
		k.ok("", true)
	})
	add("C47", "word in place of one of a seed", nos, func(k kk, n int) {
		sayIt := func(t seedText, in string) string {
			x, err := t.e.f(in)
			if err != nil {
				return err.Error()
			}
			return said(x, nil)
		}
		var ins []string
		var ts []seedText
		var want []string
		withWords(c, n, ws[n-1], 2*share, func(t seedText, in string) {
			ins, ts, want = append(ins, in), append(ts, t), append(want, sayIt(t, in))
		})
		got := make([]string, len(ins))
		traced(func() {
			for i := range ins {
				got[i] = sayIt(ts[i], ins[i])
			}
		})
		for i := range ins {
			if got[i] != want[i] {
				k.eq(fmt.Sprintf("%q with tracing", ins[i]), got[i], want[i])
			}
			if i%5 == 0 {
				if s := sayIt(ts[i], ins[i]); s != want[i] {
					k.eq(fmt.Sprintf("%q after tracing", ins[i]), s, want[i])
				}
			}
		}
		k.ok("", true)
	})
	add("C46", "word in place of one of a seed", nos, func(k kk, n int) {
		i := n
		withWords(c, n, ws[n-1], 2*share, func(t seedText, in string) {
			if t.e.name != "headernl" {
				return
			}
			pn := parserOf(in)
			for _, hp := range headerParsers {
				if hp.name != pn {
					continue
				}
				p, err := parser.CreateParser(in)
				if err != nil {
					continue
				}
				want := said(p.Parse())
				if got := said(hp.text(in).Parse()); got != want {
					k.eq(fmt.Sprintf("%q, parser made from the text", in), got, want)
				}
				i++
				mode := lexerModes[i%len(lexerModes)]
				b := []string{"", "INVITE ", ws[i%len(ws)] + " ", ws[i%len(ws)] + ": "}[i%4]
				if got := said(hp.lex(lexerOn(mode, b, in)).Parse()); got != want {
					k.eq(fmt.Sprintf("%q, parser made from a %s after %q", in, mode, b), got, want)
				}
			}
		})
		k.ok("", true)
	})
	// scanning
	tails := []string{"", " x", ";y=z", ":1\n", "\"q\"", "(c)", "\n", "=v", "é", "0"}
	ps := prims()
	add("C30", "words scanned", nos, func(k kk, n int) {
		w := ws[n-1]
		for i, tail := range tails {
			for _, pre := range []string{"", "\"", "(", " ", "<"} {
				if !c.Thorough() && (n+i)%4 != 0 {
					continue
				}
				s := pre + w + tail
				if pre == "\"" {
					s = pre + w + pre + tail
				} else if pre == "(" {
					s = pre + w + ")" + tail
				}
				for _, p := range ps {
					for _, pos := range []int{0, len(pre), len(pre) + len(w)} {
						l := newLexer(s)
						l.ConsumeK(pos)
						p.step(k, l, s, pos)
					}
				}
				c30nv(k, s)
			}
		}
	})
	us := usteps()
	add("C03", "words scanned", nos, func(k kk, n int) {
		w := ws[n-1]
		for i, tail := range []string{"", " x", ";y=z", ":1@", "?a=b", "&c", "=v", "@", ">", "%41", "[::1]"} {
			if !c.Thorough() && (n+i)%3 != 0 {
				continue
			}
			s := w + tail
			for _, p := range us {
				for _, pos := range []int{0, len(w)} {
					u := parser.NewURLParser(s)
					u.GetLexer().ConsumeK(pos)
					ustepAt(k, u, p, s, pos)
				}
			}
		}
	})
	// Events and media types
	add("C44", "words as events and media types", nos, func(k kk, n int) {
		w := ws[n-1]
		if !isTokenText(w) {
			return
		}
		ev := func(t, id string) *header.Event {
			e := header.NewEvent()
			e.SetEventType(t)
			if id != "" {
				e.SetEventId(id)
			}
			return e
		}
		for i, o := range ws {
			if !isTokenText(o) || !c.Thorough() && (i+n)%7 != 0 && !strings.EqualFold(w, o) {
				continue
			}
			same := strings.EqualFold(w, o)
			if ev(w, "").Match(ev(o, "")) != same || ev(w, "i").Match(ev(o, "I")) != same || ev("p", w).Match(ev("P", o)) != same || ev(w, "").Match(ev(w, o)) || ev(w, o).Match(ev(w, "")) {
				k.ok(fmt.Sprintf("Events %q and %q match or not", w, o), false)
			}
			ct := header.NewContentTypeFromString(w, o)
			if !ct.CompareMediaRange(strings.ToUpper(w)+"/"+o) || !ct.CompareMediaRange(w+"/"+strings.ToLower(o)) || ct.CompareMediaRange(o+"/"+w) != same || ct.CompareMediaRange(w+"/"+o+"x") {
				k.ok(fmt.Sprintf("media range of %q and %q", w, o), false)
			}
		}
		k.ok("", true)
	})
	// setters
	if c.Prop != "C27" {
		return
	}
	const short = "a0Bc1"
	for _, ctor := range ctors {
		ctor := ctor
		t := reflect.TypeOf(ctor.f())
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			get := strings.Replace(m.Name, "Set", "Get", 1)
			g, ok := t.MethodByName(get)
			if m.Name == "SetMessageContent" || !strings.HasPrefix(m.Name, "Set") || m.Type.NumIn() != 2 || m.Type.In(1).Kind() != reflect.String ||
				!ok || g.Type.NumIn() != 1 || g.Type.NumOut() < 1 || g.Type.Out(0).Kind() != reflect.String {
				continue
			}
			set := func(v string) (got, text string, refused bool) {
				x := ctor.f()
				for _, r := range method(x, m.Name, v) {
					if err, ok := r.Interface().(error); ok && err != nil {
						refused = true
					}
				}
				if s, ok := x.(fmt.Stringer); ok {
					text = s.String()
				}
				return method(x, get)[0].String(), text, refused
			}
			got, text, refused := set(short)
			add("C27", ctor.name+" "+m.Name+": words", nos, func(k kk, n int) {
				w := ws[n-1]
				if !isHostName(w) || sipScheme(w) && m.Name == "SetScheme" {
					return
				}
				g, t, r := set(w)
				if r != refused {
					k.ok(fmt.Sprintf("%s.%s: %q is refused, %q is not, or the other way round", ctor.name, m.Name, w, short), false)
				}
				if want := strings.ReplaceAll(got, short, w); g != want && !strings.EqualFold(g, strings.ReplaceAll(strings.ToLower(got), strings.ToLower(short), w)) {
					k.ok(fmt.Sprintf("%s.%s: %q is read back as %q", ctor.name, m.Name, w, g), false)
				}
				if want := strings.ReplaceAll(text, short, w); !strings.EqualFold(t, want) && !strings.EqualFold(t, strings.ReplaceAll(strings.ToLower(text), strings.ToLower(short), w)) {
					k.ok(fmt.Sprintf("%s.%s: with %q the text is %q", ctor.name, m.Name, w, t), false)
				}
			})
		}
	}
}
