package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// Outcome is what one process found.
type Outcome struct {
	Findings []Finding
	Counts   map[string]int
	Lines    []string
	Funcs    []string
}

type options struct {
	prop, load, only, onlyCase, tier, out, findings string
	verbose                                         bool
	shard, shards                                   int
	limit                                           time.Duration
}

func main() {
	var o options
	flag.StringVar(&o.prop, "prop", "", "property id")
	flag.StringVar(&o.load, "load", "/verif/load", "module that loads the program")
	flag.StringVar(&o.only, "only", "", "restrict to obligations with this prefix")
	flag.StringVar(&o.onlyCase, "case", "", "restrict to the case with this label")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.out, "evidence", "", "directory of the evidence file")
	flag.StringVar(&o.findings, "known", "", "known-findings file")
	flag.BoolVar(&o.verbose, "v", false, "print progress")
	flag.IntVar(&o.shard, "shard", -1, "worker number")
	flag.IntVar(&o.shards, "shards", 0, "number of workers")
	flag.DurationVar(&o.limit, "limit", 800*time.Second, "time limit")
	cpuprof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetMemoryLimit(20 << 30)
	debug.SetGCPercent(400)
	if o.shard >= 0 {
		debug.SetMemoryLimit(20 << 30 / int64(max(1, o.shards)))
		json.NewEncoder(os.Stdout).Encode(runGuarded(o))
		return
	}
	if code := top(o); code != 0 {
		pprof.StopCPUProfile()
		os.Exit(code)
	}
}

// runGuarded never panics and never runs past the limit: what could not be
// decided is a finding.
func runGuarded(o options) *Outcome {
	done := make(chan *Outcome, 1)
	go func() {
		c := newCtx(o)
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if f, ok := r.(failure); ok {
					msg = f.msg
				} else if os.Getenv("VERIF_DEBUG") != "" {
					msg += "\n" + string(debug.Stack())
				}
				c.report(o.prop, "analysis", c.posOf(curPos), "undecided: %s", msg)
			}
			done <- c.outcome()
		}()
		runProp(c, o)
	}()
	undecided := func(why string) *Outcome {
		return &Outcome{Findings: []Finding{{o.prop, "analysis", "", "undecided: " + why}}}
	}
	deadline := time.After(o.limit)
	tick := time.NewTicker(time.Second)
	for {
		select {
		case r := <-done:
			return r
		case <-deadline:
			return undecided("time limit reached")
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 24<<30 {
				return undecided("memory limit reached")
			}
		}
	}
}

func newCtx(o options) *Ctx {
	return &Ctx{known: readKnown(o.findings, o.prop), tier: o.tier, only: o.only, onlyCase: o.onlyCase, verbose: o.verbose,
		shard: o.shard, shards: o.shards, counts: map[string]int{}, funcs: map[string]bool{}}
}

func (c *Ctx) outcome() *Outcome {
	r := &Outcome{Findings: c.findings, Counts: c.counts, Lines: c.lines}
	for f := range c.funcs {
		r.Funcs = append(r.Funcs, f)
	}
	sort.Strings(r.Funcs)
	return r
}

func runProp(c *Ctx, o options) {
	p := props[o.prop]
	if p == nil {
		c.report(o.prop, "property", "", "unknown property")
		return
	}
	initTerms()
	w, err := loadWorld(o.load, p.root, p.repl)
	if err != nil {
		c.report(o.prop, "load", "", "the program does not type-check: %v", err)
		return
	}
	c.w = w
	p.run(o.prop)(c)
}

func top(o options) int {
	t0 := time.Now()
	p := props[o.prop]
	if p == nil {
		fmt.Println("unknown property", o.prop)
		return 1
	}
	var r *Outcome
	if p.shards > 1 && o.only == "" && o.onlyCase == "" {
		r = workers(o, p.shards)
	} else {
		r = runGuarded(o)
	}
	known := readKnown(o.findings, o.prop)
	var open []Finding
	hit := map[string]bool{}
	for _, f := range r.Findings {
		if k := matchKnown(known, f); k != nil {
			hit[k.key] = true
			continue
		}
		open = append(open, f)
	}
	if len(open) == 0 && p.min != nil && o.only == "" && o.onlyCase == "" {
		for k, n := range p.min {
			if r.Counts[k] < n {
				open = append(open, Finding{o.prop, "coverage " + k, "", fmt.Sprintf("only %d instances analysed, expected at least %d", r.Counts[k], n)})
			}
		}
	}
	for _, l := range r.Lines {
		if !o.verbose {
			fmt.Println(l)
		}
	}
	for _, k := range known {
		if hit[k.key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.what)
		}
	}
	for _, f := range open {
		fmt.Printf("%s: %s: %s: %s\n", f.Prop, f.Rule, f.Where, f.Msg)
	}
	replay := ""
	if o.out != "" {
		os.MkdirAll(o.out, 0o755)
		replay = filepath.Join(o.out, o.prop+".replay.txt")
		os.Remove(replay)
		if len(open) > 0 {
			var sb strings.Builder
			fmt.Fprintf(&sb, "# replay: /verif/run.sh %s %s\n", o.prop, o.tier)
			for _, f := range open {
				fmt.Fprintf(&sb, "property %s\nrule %s\nwhere %s\n%s\n\n", f.Prop, f.Rule, f.Where, f.Msg)
			}
			os.WriteFile(replay, []byte(sb.String()), 0o644)
		}
		evidence(o, p, r, known, hit, open, time.Since(t0))
	}
	if len(open) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, replay)
		return 1
	}
	fmt.Printf("%s: property held on everything analysed (%d functions) in %v\n", o.prop, len(r.Funcs), time.Since(t0).Round(time.Millisecond))
	return 0
}

// workers splits the cases of every obligation over processes.
func workers(o options, n int) *Outcome {
	rs := make([]*Outcome, n)
	known := readKnown(o.findings, o.prop)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, "/proc/self/exe", "-prop", o.prop, "-load", o.load, "-tier", o.tier,
				"-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-known", o.findings, "-limit", (o.limit - 20*time.Second).String())
			out, err := cmd.Output()
			r := &Outcome{}
			if ctx.Err() != nil {
				rs[i] = r // another worker already found a violation
				return
			}
			if err == nil {
				err = json.Unmarshal(out, r)
			}
			if err != nil {
				r = &Outcome{Findings: []Finding{{o.prop, "analysis", "", fmt.Sprintf("undecided: worker %d: %v", i, err)}}}
			}
			rs[i] = r
			for _, f := range r.Findings {
				if matchKnown(known, f) == nil {
					cancel()
				}
			}
		}(i)
	}
	wg.Wait()
	all := &Outcome{Counts: map[string]int{}}
	fs, seen := map[string]bool{}, map[string]bool{}
	for i, r := range rs {
		for _, f := range r.Findings {
			if k := f.Rule + f.Where + f.Msg; !seen[k] {
				seen[k] = true
				all.Findings = append(all.Findings, f)
			}
		}
		for k, v := range r.Counts {
			all.Counts[k] += v
		}
		for _, l := range r.Lines {
			all.Lines = append(all.Lines, fmt.Sprintf("worker %d: %s", i, l))
		}
		for _, f := range r.Funcs {
			fs[f] = true
		}
	}
	for f := range fs {
		all.Funcs = append(all.Funcs, f)
	}
	sort.Strings(all.Funcs)
	return all
}

type knownFinding struct{ key, what string }

// readKnown reads lines "known: property=<id> key=<rule> | <what fails>".
func readKnown(file, prop string) []*knownFinding {
	if file == "" {
		return nil
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []*knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + prop + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		k, w, ok := strings.Cut(strings.TrimPrefix(l, pre), " | ")
		if ok {
			out = append(out, &knownFinding{strings.TrimSpace(k), strings.TrimSpace(w)})
		}
	}
	return out
}

func matchKnown(ks []*knownFinding, f Finding) *knownFinding {
	for _, k := range ks {
		if f.Rule == k.key {
			return k
		}
	}
	return nil
}

func evidence(o options, p *Prop, r *Outcome, known []*knownFinding, hit map[string]bool, open []Finding, d time.Duration) {
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	bad := map[string]bool{}
	for _, f := range r.Findings {
		bad[f.Rule+"|"+f.Where+"|"+f.Msg] = true
	}
	total := 0
	for _, n := range r.Counts {
		total += n
	}
	cov := map[string]any{
		"explanation":        p.explain,
		"rule":               p.explain,
		"functions_analysed": r.Funcs,
		"functions":          len(r.Funcs),
		"instances":          r.Counts,
		"obligations":        total,
		"discharged":         max(0, total-len(bad)),
		"log":                r.Lines,
		"findings":           r.Findings,
	}
	var ks []string
	for _, k := range known {
		if hit[k.key] {
			ks = append(ks, k.key+": "+k.what)
		}
	}
	cov["known_findings"] = ks
	e := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": d.Seconds(), "violations": len(open),
		"assumptions": append([]string{
			"go/types, go/ssa and the models of standard library functions in /verif/checker/lib.go describe the compiled program",
			"the logging package does not change program behaviour (it is replaced by a stub)",
		}, p.assume...),
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(o.out, o.prop+".json"), append(b, '\n'), 0o644)
}
