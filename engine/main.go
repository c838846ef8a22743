package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	verbose := flag.Bool("v", false, "")
	only := flag.String("only", "", "only harnesses containing this")
	budget := flag.Int("budget", 0, "exploration seconds")
	workers := flag.Int("workers", 0, "")
	noev := flag.Bool("noev", false, "do not write evidence")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(14 << 30)
	t0 := time.Now()
	e := &Engine{repo: *repo, verif: *verif, prop: *prop, tier: *tier, seed: seed, verbose: *verbose, only: *only,
		funcs: map[*ssa.Function]bool{}, notes: map[string]int{}, maxSteps: 20_000_000, solverTimeoutMs: 20000}
	e.start = t0.UTC().Truncate(time.Second)
	e.workers = *workers
	if e.workers == 0 {
		e.workers = min(8, runtime.NumCPU())
	}
	secs := 60
	if e.tier == "thorough" {
		secs = 480
		e.solverTimeoutMs = 60000
		e.maxSteps = 100_000_000
	}
	if *budget > 0 {
		secs = *budget
	}
	sc, err := os.MkdirTemp("", "vx-"+*prop+"-")
	if err != nil {
		fatal(err)
	}
	e.scratch = sc
	defer os.RemoveAll(sc)
	if err := e.load(); err != nil {
		// the tree does not load: nothing can be decided
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		os.RemoveAll(sc)
		os.Exit(2)
	}
	tLoad := time.Since(t0)
	nb := make(chan error, 1)
	bin := filepath.Join(sc, "replay")
	go func() {
		cmd := exec.Command("go", "build", "-overlay", e.overlayFile, "-o", bin, "./vxh/"+e.prop)
		cmd.Path = goRoot + "/go"
		cmd.Dir = e.repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v: %s", err, out)
		}
		nb <- err
	}()
	e.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	e.explore()
	tExp := time.Since(t0) - tLoad
	if err := <-nb; err != nil {
		fmt.Fprintln(os.Stderr, "cannot build replay binary:", err)
		os.RemoveAll(sc)
		os.Exit(2)
	}
	known := loadKnown(filepath.Join(*verif, "known-findings.txt"), *prop)
	exit := 0
	repdir := filepath.Join(*verif, "evidence", "replays")
	os.MkdirAll(repdir, 0o755)
	nviol := 0
	var unrep []string
	seenKnown := map[string]bool{}
	var vsum []map[string]any
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].name < e.harnesses[j].name })
	for _, h := range e.harnesses {
		sort.SliceStable(h.viols, func(i, j int) bool { return h.viols[i].Label < h.viols[j].Label })
		done := map[string]bool{}
		for i, v := range h.viols {
			key := v.Label + "|" + v.Msg
			if v.Panic {
				key = v.Msg
			} else {
				key = labelKey(v.Label)
			}
			if done[key] || v.Case == nil {
				continue
			}
			rp := filepath.Join(repdir, fmt.Sprintf("%s-%s-%d.json", *prop, h.name, i))
			writeJSON(rp, []*Case{v.Case})
			res := runCases(bin, rp, sc, 40)
			ok := false
			if len(res) == 1 {
				ok = res[0].Status == "assert" && labelKey(res[0].Label) == labelKey(v.Label) || v.Panic && res[0].Status == "panic"
			}
			if !ok {
				st := "no result"
				if len(res) == 1 {
					st = res[0].Status + " " + res[0].Label + " " + res[0].Msg
				}
				unrep = append(unrep, fmt.Sprintf("%s %q: native replay gave %s", h.name, v.Label, st))
				if e.verbose {
					fmt.Printf("UNREPRODUCED %s %s (%s): native: %s\n  %v\n", h.name, v.Label, v.Msg, st, v.Stack)
				}
				continue
			}
			done[key] = true
			v.Status = "reproduced"
			msg := res[0].Msg
			if k := matchKnown(known, h.name, v.Label, msg); k != nil {
				if !seenKnown[k.text] {
					seenKnown[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
				}
				vsum = append(vsum, map[string]any{"harness": h.name, "label": v.Label, "known": k.text})
				continue
			}
			nviol++
			exit = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
			fmt.Printf("  harness %s: %s (%s) %s\n", h.name, v.Label, v.Msg, msg)
			for _, s := range v.Stack {
				fmt.Println("    ", s)
			}
			for _, in := range v.Case.Inputs {
				fmt.Printf("     input %s = %s\n", in.Name, clip(in.Val, 120))
			}
			vsum = append(vsum, map[string]any{"harness": h.name, "label": v.Label, "msg": msg, "replay": rp})
		}
	}
	// labels that some input must reach
	for _, h := range e.harnesses {
		complete := len(h.queue)+h.dropped+h.aborted+h.unsupported+h.inconcl+h.diverged+h.boundCut == 0
		var ls []string
		for l := range h.expect {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			if h.reach[l] > 0 {
				continue
			}
			if !complete {
				unrep = append(unrep, fmt.Sprintf("%s: %q not reached, exploration incomplete", h.name, l))
				continue
			}
			c := &Case{Harness: h.name, Tier: e.tier, Label: "expect:" + l}
			if len(h.samples) > 0 {
				c.Inputs = h.samples[0].Inputs
			}
			rp := filepath.Join(repdir, fmt.Sprintf("%s-%s-unreached.json", *prop, h.name))
			writeJSON(rp, []*Case{c})
			res := runCases(bin, rp, sc, 4000)
			if len(res) != 1 || res[0].Status != "unreached" {
				unrep = append(unrep, fmt.Sprintf("%s: %q unreachable for the solver but reached natively", h.name, l))
				continue
			}
			if k := matchKnown(known, h.name, l, ""); k != nil {
				if !seenKnown[k.text] {
					seenKnown[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
				}
				continue
			}
			nviol++
			exit = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n  harness %s: no input reaches %q\n", *prop, rp, h.name, l)
			vsum = append(vsum, map[string]any{"harness": h.name, "label": l, "msg": "unreachable", "replay": rp})
		}
	}
	// validate sampled paths natively
	validated, mismatched := 0, 0
	var mism []string
	var all []*Case
	var samples []any
	for _, h := range e.harnesses {
		all = append(all, h.samples...)
		for i, c := range h.samples {
			if i < 2 {
				samples = append(samples, c)
			}
		}
	}
	if len(all) > 0 {
		res := runAll(bin, all, sc)
		missing := 0
		for i, r := range res {
			switch {
			case r.Status == "":
				missing++
			case r.Status == "ok" && strings.Join(r.Obs, "\n") == strings.Join(all[i].Obs, "\n"):
				validated++
			case r.Status == "assert":
				// the real code fails where the model passed: report it, it is a failing input of the real code
				rp := filepath.Join(repdir, fmt.Sprintf("%s-%s-s%d.json", *prop, all[i].Harness, i))
				writeJSON(rp, []*Case{all[i]})
				if k := matchKnown(known, all[i].Harness, r.Label, r.Msg); k != nil {
					if !seenKnown[k.text] {
						seenKnown[k.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
					}
					continue
				}
				rr := runCases(bin, rp, sc, 1)
				if len(rr) == 1 && rr[0].Status == "assert" {
					fmt.Printf("VIOLATION property=%s replay=%s\n  harness %s: %s fails natively on a solver model of a path\n", *prop, rp, all[i].Harness, r.Label)
					exit = 1
					nviol++
				}
			default:
				mismatched++
				if len(mism) < 20 {
					mism = append(mism, fmt.Sprintf("%s: %s %s %s; native %v, model %v; inputs %s", all[i].Harness, r.Status, r.Label, r.Msg, diffObs(r.Obs, all[i].Obs), len(all[i].Obs), clip(jsonStr(all[i].Inputs), 300)))
				}
			}
		}
		if missing > 0 {
			mism = append(mism, fmt.Sprintf("native runs returned %d of %d results", len(all)-missing, len(all)))
		}
	}
	// summary
	totalPaths, totalDecs := 0, int64(0)
	reduced := []string{}
	perH := []map[string]any{}
	oblig, disch := 0, 0
	var totalSteps int64
	for _, h := range e.harnesses {
		totalPaths += h.paths + h.assumeCut
		totalDecs += h.decs
		totalSteps += h.steps
		as := map[string]string{}
		for l, s := range h.asserts {
			as[l] = fmt.Sprintf("proved=%d trivially=%d violated=%d undecided=%d", s.proved, s.trivial, s.violated, s.unknown)
			oblig += s.proved + s.violated + s.unknown + s.trivial
			disch += s.proved + s.trivial
		}
		left := len(h.queue) + h.dropped
		if left > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d unexplored branches at the time budget", h.name, left))
		}
		for r, n := range h.reasons {
			reduced = append(reduced, fmt.Sprintf("%s: %s (%d paths)", h.name, clip(r, 400), n))
		}
		perH = append(perH, map[string]any{"harness": h.name, "paths": h.paths, "cut_by_assumption": h.assumeCut, "cut_by_bound": h.boundCut, "aborted": h.aborted, "unsupported": h.unsupported, "inconclusive": h.inconcl,
			"unexplored": left, "max_decisions": h.maxDecs, "instructions": h.steps, "assertions": as, "reached": h.reach, "bounds": h.bounds, "cpu_s": h.busy.Seconds()})
	}
	sort.Strings(reduced)
	reduced = append(reduced, mism...)
	for _, u := range unrep {
		reduced = append(reduced, "unreproduced model counterexample: "+u)
	}
	for _, s := range e.solverErrs {
		reduced = append(reduced, "solver error: "+clip(s, 200))
	}
	printForks()
	if e.verbose || os.Getenv("VX_REDUCED") != "" {
		for _, r := range reduced {
			fmt.Println("  reduced:", r)
		}
	}
	if e.verbose {
		for k, n := range e.notes {
			fmt.Println("  note:", n, clip(k, 200))
		}
		for _, h := range perH {
			fmt.Println("  ", jsonStr(h))
		}
	}
	fmt.Printf("%s %s: %d paths, %d decisions, %d instr, %d queries (%d sat %d unsat %d unknown) solver %.1fs, load %.1fs explore %.1fs, %d/%d paths validated natively, %d violation(s), %d known, reduced=%d\n",
		*prop, *tier, totalPaths, totalDecs, totalSteps, e.queries, e.nsat, e.nunsat, e.nunk, e.solverTime.Seconds(), tLoad.Seconds(), tExp.Seconds(), validated, len(all), nviol, len(seenKnown), len(reduced))
	if len(samples) == 0 {
		samples = append(samples, "no completed path was sampled")
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": assumptionsOf(e),
		"coverage": map[string]any{
			"states": totalPaths, "transitions": totalDecs, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":           "states = symbolic paths decided to the end (each covers every input satisfying its path condition); transitions = symbolic decisions taken (branches, value splits, choices); traces validated = solver models of completed paths re-run natively against the compiled repository with equal observations",
			"functions_encoded":     e.funcNames(),
			"instructions_executed": totalSteps,
			"queries":               map[string]any{"total": e.queries, "sat": e.nsat, "unsat": e.nunsat, "unknown": e.nunk, "solver": "z3-new", "solver_s": e.solverTime.Seconds(), "max_query_s": e.maxQ.Seconds()},
			"obligations":           oblig, "discharged": disch,
			"harnesses":         perH,
			"reduced_coverage":  reduced,
			"native_mismatches": mismatched,
			"findings":          vsum,
		},
	}
	if !*noev {
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		writeJSON(filepath.Join(*verif, "evidence", *prop+".json"), ev)
	}
	os.RemoveAll(sc)
	os.Exit(exit)
}

func assumptionsOf(e *Engine) []string {
	s := map[string]bool{}
	for _, h := range e.harnesses {
		for a := range h.assumptions {
			s[a] = true
		}
	}
	r := []string{
		"ideal crypto on symbolic data: hashes and HMACs are injective, a signature or AEAD box is accepted only if it was produced with the matching key over the same data",
		"random source, clock, key-value store, HTTP transport and logging are replaced by models (see DESIGN.md)",
	}
	for a := range s {
		r = append(r, a)
	}
	sort.Strings(r)
	return r
}

func diffObs(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "-", "-"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("obs %d: native %s / model %s", i, clip(x, 160), clip(y, 160))
		}
	}
	return "same"
}

type caseResult struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// runAll runs the cases natively, in a few processes at a time.
func runAll(bin string, all []*Case, scratch string) []caseResult {
	res := make([]caseResult, len(all))
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		var l []*Case
		var at []int
		for i := w; i < len(all); i += n {
			l, at = append(l, all[i]), append(at, i)
		}
		if len(l) == 0 {
			continue
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			d := filepath.Join(scratch, fmt.Sprintf("val%d", w))
			os.MkdirAll(d, 0o755)
			cf := filepath.Join(d, "cases.json")
			writeJSON(cf, l)
			for j, r := range runCases(bin, cf, d, 1) {
				if j < len(at) {
					res[at[j]] = r
				}
			}
		}(w)
	}
	wg.Wait()
	return res
}

func runCases(bin, file, scratch string, tries int) []caseResult {
	var last []caseResult
	if tries > 1 {
		last = runCasesTries(bin, file, scratch, tries)
	} else {
		last = runCasesTries(bin, file, scratch, 1)
	}
	return last
}

func runCasesTries(bin, file, scratch string, tries int) []caseResult {
	out := filepath.Join(scratch, "out.json")
	wd := filepath.Join(scratch, "cwd")
	os.RemoveAll(wd)
	os.MkdirAll(wd, 0o755)
	os.Remove(out)
	cmd := exec.Command("timeout", "-k", "5", "120", bin, file, out, strconv.Itoa(tries))
	cmd.Dir = wd
	cmd.Env = append(goEnv(), "HOME="+wd, "TMPDIR="+wd)
	o, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		s := string(o)
		if len(s) > 2000 {
			s = s[len(s)-2000:]
		}
		if err != nil && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")) {
			return []caseResult{{Status: "panic", Msg: s}}
		}
		return nil
	}
	var r []caseResult
	json.Unmarshal(b, &r)
	return r
}

type knownFinding struct {
	harness, label, msg *regexp.Regexp
	text                string
}

// lines: known: property=C01 harness=<re> label=<re> [msg=<re>] :: text
func loadKnown(file, prop string) []*knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []*knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		head, text, ok := strings.Cut(l, " :: ")
		if !ok {
			continue
		}
		k := &knownFinding{text: text}
		match := false
		for _, f := range splitQuoted(strings.TrimPrefix(head, "known:")) {
			key, val, _ := strings.Cut(f, "=")
			val = strings.Trim(val, "\"")
			re := regexp.MustCompile("^(?:" + val + ")$")
			switch key {
			case "property":
				match = val == prop
			case "harness":
				k.harness = re
			case "label":
				k.label = re
			case "msg":
				k.msg = regexp.MustCompile(val)
			}
		}
		if match && k.harness != nil && k.label != nil {
			r = append(r, k)
		}
	}
	return r
}

func splitQuoted(s string) []string {
	var r []string
	cur := ""
	q := false
	for _, c := range s {
		if c == '"' {
			q = !q
		}
		if c == ' ' && !q {
			if cur != "" {
				r = append(r, cur)
			}
			cur = ""
			continue
		}
		cur += string(c)
	}
	if cur != "" {
		r = append(r, cur)
	}
	return r
}

func matchKnown(ks []*knownFinding, h, label, msg string) *knownFinding {
	for _, k := range ks {
		if k.harness.MatchString(h) && k.label.MatchString(label) && (k.msg == nil || k.msg.MatchString(msg)) {
			return k
		}
	}
	return nil
}

func writeJSON(f string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal(err)
	}
}
func jsonStr(v any) string { b, _ := json.Marshal(v); return string(b) }
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
func fatal(err error) { fmt.Fprintln(os.Stderr, err); os.Exit(2) }

// labelKey leaves out the text of a runtime error, which the model words otherwise.
func labelKey(l string) string {
	l, _, _ = strings.Cut(l, "runtime error:")
	return l
}
