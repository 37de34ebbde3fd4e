// harness explores the real use-go/gosips code exhaustively within bounds and
// compares every execution with a reference model.
//
//	harness check  -prop C01 -tier quick        (parent: forks shards, merges)
//	harness shard  ...                          (child)
//	harness replay FILE                         (re-runs one recorded case)
//	harness list
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/use-go/gosips/vhook"
	"verif/mc"
	"verif/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|shard|replay|list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "shard":
		shard(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "cold":
		props.Cold(os.Args[2:])
	case "list":
		for _, p := range props.All() {
			fmt.Println(p.ID, p.Mode)
		}
	default:
		os.Exit(3)
	}
}

func shard(args []string) {
	fs := flag.NewFlagSet("shard", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	i := fs.Int("i", 0, "")
	n := fs.Int("n", 1, "")
	only := fs.Int64("only", -1, "")
	secs := fs.Int("secs", 0, "")
	out := fs.String("out", "", "")
	crumb := fs.String("crumb", "", "")
	fs.Parse(args)
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	c := mc.New(*prop, *tier, *i, *n)
	c.Only = *only
	if *secs > 0 {
		c.Deadline = time.Now().Add(time.Duration(*secs) * time.Second)
	}
	if *crumb != "" {
		f, err := os.Create(*crumb)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		c.SetCrumb(f)
	}
	props.Sizes(c)
	if os.Getenv("VERIF_SIZES") == "" { // only the growing families, while working on them
		p.Run(c)
	}
	if d := os.Getenv("VERIF_COVER"); d != "" {
		f, _ := os.OpenFile(d, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		var b strings.Builder
		for n, hit := range vhook.Hits {
			if hit {
				fmt.Fprintln(&b, *prop, n)
			}
		}
		f.WriteString(b.String())
		f.Close()
	}
	if *out != "" {
		if err := c.Write(*out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if *only >= 0 {
		for _, v := range c.Violations {
			fmt.Printf("reproduced: %s: %s\n", v.Key, v.Detail)
		}
		fmt.Println("violations:", c.NViol)
		if c.NViol > 0 {
			os.Exit(1)
		}
	}
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v struct {
		mc.Violation
		Tier string `json:"tier"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	shard([]string{"-prop", v.Property, "-tier", v.Tier, "-only", strconv.FormatInt(v.Case, 10)})
}

func check(args []string) {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	n := fs.Int("n", runtime.NumCPU(), "")
	kf := fs.String("kf", "", "")
	evidence := fs.String("evidence", "", "")
	cexdir := fs.String("cex", "", "")
	secs := fs.Int("secs", 0, "")
	fs.Parse(args)
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	if *secs == 0 {
		*secs = 200
		if *tier == "thorough" {
			*secs = 660
		}
	}
	if p.Single {
		*n = 1
	}
	tmp, err := os.MkdirTemp("", "gosips-mc-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmp)
	reports := make([]*mc.Report, *n)
	died := make([]string, *n)
	var wg sync.WaitGroup
	for i := 0; i < *n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("r%d.json", i))
			crumb := filepath.Join(tmp, fmt.Sprintf("c%d", i))
			cmd := exec.Command(os.Args[0], "shard", "-prop", *prop, "-tier", *tier,
				"-i", strconv.Itoa(i), "-n", strconv.Itoa(*n), "-secs", strconv.Itoa(*secs),
				"-out", out, "-crumb", crumb)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single",
				"GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(tmp, fmt.Sprintf("race%d", i)))
			errf, _ := os.Create(filepath.Join(tmp, fmt.Sprintf("e%d", i)))
			cmd.Stderr = errf
			cmd.Stdout = errf
			if err := cmd.Start(); err != nil {
				died[i] = "cannot start: " + err.Error()
				return
			}
			timer := time.AfterFunc(time.Duration(*secs+60)*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			timedout := !timer.Stop()
			errf.Close()
			if err != nil {
				eb, _ := os.ReadFile(errf.Name())
				cb, _ := os.ReadFile(crumb)
				at := ""
				if len(cb) >= 4 {
					l := int(binary.LittleEndian.Uint32(cb))
					if 4+l <= len(cb) {
						at = string(cb[4 : 4+l])
					}
				}
				tail := string(eb)
				if len(tail) > 1500 {
					tail = tail[:1500]
				}
				if timedout {
					died[i] = "TIMEOUT\x00" + at
				} else {
					died[i] = "DIED\x00" + at + "\x00" + err.Error() + "\n" + tail
				}
				return
			}
			b, err := os.ReadFile(out)
			if err != nil {
				died[i] = "no report: " + err.Error()
				return
			}
			r := &mc.Report{}
			if err := json.Unmarshal(b, r); err != nil {
				died[i] = "bad report: " + err.Error()
				return
			}
			reports[i] = r
		}(i)
	}
	wg.Wait()

	distinct := map[uint64]bool{}
	outcomes := map[string]int64{}
	bounds := map[string]string{}
	var cases, total, steps, evals, traces, nviol int64
	truncated := false
	var viol []mc.Violation
	var samples []string
	var longest int64
	var longestKey string
	for i, r := range reports {
		if r == nil {
			parts := strings.SplitN(died[i], "\x00", 3)
			switch {
			case parts[0] == "DIED" && len(parts) == 3 && parts[1] != "" && !strings.Contains(parts[2], "signal: killed"):
				viol = append(viol, mc.Violation{Property: *prop, Key: parts[1], Detail: "the process died while running this case: " + parts[2]})
				nviol++
			default:
				// not a verdict: the exploration is incomplete
				fmt.Fprintf(os.Stderr, "shard %d gave no report: %q\n", i, died[i])
			}
			truncated = true
			continue
		}
		cases += r.Cases
		if r.Total > total {
			total = r.Total
		}
		steps += r.Steps
		if r.Longest > longest {
			longest, longestKey = r.Longest, r.LongestKey
		}
		evals += r.Evals
		traces += r.Traces
		nviol += r.NViol
		truncated = truncated || r.Truncated
		for _, d := range r.Distinct {
			distinct[d] = true
		}
		for k, v := range r.Outcomes {
			outcomes[k] += v
		}
		for k, v := range r.Bounds {
			bounds[k] = v
		}
		viol = append(viol, r.Violations...)
		if len(samples) < 8 {
			samples = append(samples, r.Samples...)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Case < viol[j].Case })
	if len(samples) > 8 {
		samples = samples[:8]
	}

	if d := os.Getenv("VERIF_DUMP"); d != "" {
		f, _ := os.Create(d)
		for _, v := range viol {
			fmt.Fprintf(f, "%q\t%s\n", v.Key, v.Detail)
		}
		f.Close()
	}
	known := map[string]string{}
	if *kf != "" {
		b, _ := os.ReadFile(*kf)
		for _, l := range strings.Split(string(b), "\n") {
			// finding: property=C01 key="..." what fails
			if !strings.HasPrefix(l, "finding: property="+*prop+" key=") {
				continue
			}
			rest := strings.TrimPrefix(l, "finding: property="+*prop+" key=")
			q, err := strconv.QuotedPrefix(rest)
			if err != nil {
				continue
			}
			k, _ := strconv.Unquote(q)
			known[k] = strings.TrimSpace(rest[len(q):])
		}
	}
	shown := map[string]bool{}
	nnew := 0
	for _, v := range viol {
		if w, ok := known[v.Key]; ok {
			if !shown[v.Key] {
				shown[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, w)
			}
			continue
		}
		if nnew < 10 {
			os.MkdirAll(*cexdir, 0o755)
			path := filepath.Join(*cexdir, fmt.Sprintf("%s-%d.json", *prop, nnew))
			b, _ := json.MarshalIndent(struct {
				mc.Violation
				Tier   string `json:"tier"`
				Replay string `json:"replay_cmd"`
			}{v, *tier, "bash /verif/check.sh replay " + path}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			d := v.Detail
			if len(d) > 600 {
				d = d[:600] + "..."
			}
			fmt.Printf("  case %q\n  %s\n", v.Key, d)
		}
		nnew++
	}

	cov := map[string]interface{}{
		"states":                        len(distinct),
		"transitions":                   steps,
		"traces_validated_against_impl": traces,
		"samples":                       samples,
		"exhaustive":                    !truncated,
		"cases_enumerated":              cases,
		"oracle_comparisons":            evals,
		"bounds":                        bounds,
		"rule":                          p.Rule,
		"longest_execution_steps":       longest,
	}
	if len(outcomes) > 0 {
		cov["outcomes"] = outcomes
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed(), "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nnew,
		"assumptions": append([]string{"the enumeration is complete only within the bounds given", "a panic in, or more than 400,000 loop iterations and calls of, one guarded execution count as a failure of it"}, p.Assume...),
	}
	if *evidence != "" {
		os.MkdirAll(filepath.Dir(*evidence), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct states, %d transitions, %d traces, %d comparisons, exhaustive=%v, %d violations (%d failing comparisons), %.1fs\n",
		*prop, *tier, cases, len(distinct), steps, traces, evals, !truncated, nnew, nviol, time.Since(t0).Seconds())
	_ = total
	if os.Getenv("VERIF_DUMP") != "" {
		if len(longestKey) > 100 {
			longestKey = longestKey[:100]
		}
		fmt.Printf("longest %d: %q\n", longest, longestKey)
	}
	if nnew > 0 {
		os.RemoveAll(tmp)
		os.Exit(1)
	}
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}
