package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"
var repoDir = "/repo"

// pkgSpec maps a harness directory to a repository package.
type pkgSpec struct {
	name, module, dir, path string
}

var pkgSpecs = []pkgSpec{
	{"streams", "/repo/streams", "/repo/streams", "github.com/aws/go-kafka-event-source/streams"},
	{"sak", "/repo/streams", "/repo/streams/sak", "github.com/aws/go-kafka-event-source/streams/sak"},
	{"stores", "/repo/streams", "/repo/streams/stores", "github.com/aws/go-kafka-event-source/streams/stores"},
	{"msk", "/repo/msk", "/repo/msk", "github.com/aws/go-kafka-event-source/msk"},
}

type hfile struct {
	pkg       pkgSpec
	path      string
	uses      []string
	harnesses []*harness
}

func parseOpts(h *harness, s, tier string) {
	for _, f := range strings.Fields(s) {
		if strings.HasPrefix(f, "thorough:") {
			if tier != "thorough" {
				continue
			}
			f = strings.TrimPrefix(f, "thorough:")
		}
		k, v, _ := strings.Cut(f, "=")
		n, _ := strconv.Atoi(v)
		switch k {
		case "prop":
			h.prop = v
		case "delays":
			h.opt.delays = n
		case "selects":
			h.opt.selects = n
		case "maporder":
			h.opt.mapOrders = n
		case "steps":
			h.opt.maxSteps = int64(n)
		case "visible":
			h.opt.maxVisible = n
		case "fires":
			h.opt.maxFires = n
		case "paths":
			h.opt.maxPaths = int64(n)
		case "spin":
			h.opt.spin = n
		case "solver":
			h.opt.solverMs = n
		case "timeout":
			d, err := time.ParseDuration(v)
			if err != nil {
				panic(err)
			}
			h.opt.timeout = d
		case "horizon":
			d, err := time.ParseDuration(v)
			if err != nil {
				panic(err)
			}
			h.opt.horizon = int64(d)
		case "early":
			h.opt.earlyTimers = true
		case "nopost":
			h.opt.post = false
		case "nonterm":
			h.opt.nonterm = true
		case "nonative":
			h.opt.slow = true
		case "sched":
			h.opt.noNative = true
		default:
			panic("unknown harness option " + f)
		}
	}
}

func defaultOpts(tier string) hopts {
	o := hopts{post: true, spin: 200, maxSteps: 5_000_000, maxVisible: 20000, maxFires: 3000, horizon: int64(600e9), timeout: 60 * time.Second, solverMs: 20000}
	if tier == "thorough" {
		o.timeout = 400 * time.Second
		o.solverMs = 60000
	}
	return o
}

var reDirective = regexp.MustCompile(`^//vp:(\w+)\s*(.*)$`)
var reFunc = regexp.MustCompile(`^func (vpH\w+)\(\)`)

func parseHarnessFiles(tier string) []*hfile {
	var out []*hfile
	for _, ps := range pkgSpecs {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", ps.name, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			hf := &hfile{pkg: ps, path: f}
			var pend string
			var doc []string
			sc := bufio.NewScanner(strings.NewReader(string(b)))
			sc.Buffer(nil, 1<<20)
			for sc.Scan() {
				l := sc.Text()
				if m := reDirective.FindStringSubmatch(l); m != nil {
					switch m[1] {
					case "use":
						hf.uses = append(hf.uses, strings.Fields(m[2])...)
					case "harness":
						pend = m[2]
					}
					continue
				}
				if m := reFunc.FindStringSubmatch(l); m != nil && pend != "" {
					h := &harness{fn: m[1], opt: defaultOpts(tier), doc: strings.Join(doc, " ")}
					parseOpts(h, pend, tier)
					hf.harnesses = append(hf.harnesses, h)
					pend = ""
				}
				if strings.HasPrefix(l, "// ") {
					doc = append(doc, strings.TrimPrefix(l, "// "))
				} else if !strings.HasPrefix(l, "//") {
					doc = nil
				}
			}
			out = append(out, hf)
		}
	}
	// uses are transitive
	for changed := true; changed; {
		changed = false
		for _, a := range out {
			for _, u := range append([]string{}, a.uses...) {
				for _, b := range out {
					if b.pkg.name != a.pkg.name || filepath.Base(b.path) != u {
						continue
					}
					for _, x := range b.uses {
						have := false
						for _, y := range a.uses {
							have = have || x == y
						}
						if !have {
							a.uses = append(a.uses, x)
							changed = true
						}
					}
				}
			}
		}
	}
	return out
}

func overlayName(ps pkgSpec, f string) string {
	return filepath.Join(ps.dir, "zz_verif_"+filepath.Base(f))
}

func apiSource(ps pkgSpec) []byte {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "api.go.txt"))
	if err != nil {
		panic(err)
	}
	return []byte(strings.Replace(string(b), "package PKG", "package "+ps.name, 1))
}

// overlayFor builds the overlay of a set of harness files of one package.
func overlayFor(ps pkgSpec, files []string) map[string][]byte {
	ov := map[string][]byte{filepath.Join(ps.dir, "zz_verif_api.go"): apiSource(ps)}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ov[overlayName(ps, f)] = b
	}
	return ov
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check PROP | run HARNESS | list")
		os.Exit(2)
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" { // development only: another checkout
		repoDir = d
		for i := range pkgSpecs {
			pkgSpecs[i].module = d + strings.TrimPrefix(pkgSpecs[i].module, "/repo")
			pkgSpecs[i].dir = d + strings.TrimPrefix(pkgSpecs[i].dir, "/repo")
		}
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		only := fs.String("only", "", "only this harness")
		debug := fs.Bool("debug", false, "")
		trace := fs.Bool("trace", false, "")
		nw := fs.Int("j", runtime.NumCPU(), "")
		noreplay := fs.Bool("noreplay", false, "")
		extra := fs.String("opt", "", "extra harness options")
		prop := os.Args[2]
		fs.Parse(os.Args[3:])
		os.Exit(runCheck(prop, *only, *debug, *trace, *nw, !*noreplay, *extra))
	case "list":
		for _, f := range parseHarnessFiles("quick") {
			for _, h := range f.harnesses {
				fmt.Println(h.prop, f.pkg.name, h.fn, h.doc)
			}
		}
	case "prep":
		if err := prepareDeps(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

type hreport struct {
	h       *harness
	ex      *explorer
	wall    float64
	skipped string
}

func runCheck(prop, only string, debug, trace bool, nw int, replay bool, extra string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err := prepareDeps(); err != nil {
		fmt.Println("INCONCLUSIVE: dependencies could not be prepared:", err)
	}
	files := parseHarnessFiles(tier)
	var reports []*hreport
	fnsEncoded := map[string]int{}
	var notes []string
	byPkg := map[string][]*hfile{}
	for _, f := range files {
		for _, h := range f.harnesses {
			if h.prop == prop && (only == "" || strings.Contains(h.fn, only)) {
				byPkg[f.pkg.name] = append(byPkg[f.pkg.name], f)
				break
			}
		}
	}
	if len(byPkg) == 0 {
		fmt.Println("no harness for", prop)
	dumpForks()
	writeEvidence(prop, tier, seed, reports, fnsEncoded, []string{"no harness"}, time.Since(t0).Seconds())
		return 0
	}
	total := 0
	for _, fl := range byPkg {
		for _, f := range fl {
			for _, h := range f.harnesses {
				if h.prop == prop {
					total++
				}
			}
		}
	}
	exit := 0
	validated = 0
	budgetEnd := t0.Add(780 * time.Second)
	for _, ps := range pkgSpecs {
		fl := byPkg[ps.name]
		if len(fl) == 0 {
			continue
		}
		fl = append([]*hfile{}, fl...)
		var pr *program
		for len(fl) > 0 {
			set := map[string]bool{}
			var srcs []string
			addf := func(p string) {
				if !set[p] {
					set[p] = true
					srcs = append(srcs, p)
				}
			}
			for _, f := range fl {
				for _, u := range f.uses {
					addf(filepath.Join(filepath.Dir(f.path), u))
				}
				addf(f.path)
			}
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("load: %v", r)
					}
				}()
				pr, err = loadProgram(loadCfg{dir: ps.module, modfile: modfileFor(ps), overlay: overlayFor(ps, srcs), patterns: []string{ps.path}})
			}()
			if err == nil {
				break
			}
			// drop the harness files that no longer compile
			pr = nil
			var keep []*hfile
			for _, f := range fl {
				bad := strings.Contains(err.Error(), "zz_verif_"+filepath.Base(f.path))
				for _, u := range f.uses {
					if strings.Contains(err.Error(), "zz_verif_"+u) {
						bad = true
					}
				}
				if bad {
					for _, h := range f.harnesses {
						if h.prop == prop {
							reports = append(reports, &hreport{h: h, skipped: "harness does not compile against the current tree: " + err.Error()})
						}
					}
				} else {
					keep = append(keep, f)
				}
			}
			if len(keep) == len(fl) {
				for _, f := range fl {
					for _, h := range f.harnesses {
						if h.prop == prop {
							reports = append(reports, &hreport{h: h, skipped: err.Error()})
						}
					}
				}
				keep = nil
			}
			fmt.Println("INCONCLUSIVE:", err)
			fl = keep
		}
		if pr == nil {
			continue
		}
		if debug {
			fmt.Fprintf(os.Stderr, "loaded %s in %.1fs\n", ps.name, time.Since(t0).Seconds())
		}
		for _, f := range fl {
			for _, h := range f.harnesses {
				if h.prop != prop || (only != "" && !strings.Contains(h.fn, only)) {
					continue
				}
				if extra != "" {
					parseOpts(h, extra, tier)
				}
				if left := time.Until(budgetEnd); left < h.opt.timeout {
					h.opt.timeout = max(left, time.Second)
				}
				ex := newExplorer(pr, h, nw)
				ex.debug, ex.trace = debug, trace
				h0 := time.Now()
				ex.run()
				ex.decide()
				rep := &hreport{h: h, ex: ex, wall: time.Since(h0).Seconds()}
				reports = append(reports, rep)
				fmt.Printf("%s %s: paths=%d ok=%d infeasible=%d verifies=%d discharged=%d steps=%d violations=%d verdict=%s/%d/%.1fs %.1fs\n", prop, h.fn, ex.paths.Load(), ex.okPaths.Load(), ex.infeasible.Load(), ex.verifies.Load(), ex.discharged.Load(), ex.steps.Load(), len(ex.violations), ex.verdict.res, ex.verdict.nodes, ex.verdict.secs, rep.wall)
				for _, s := range topN(ex.incomplete, 6) {
					fmt.Println("  INCOMPLETE:", s)
				}
				for k := range ex.known {
					if isKnown(prop, k) {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownText(prop, k))
					} else {
						ex.violations = append(ex.violations, violation{Harness: h.fn, Msg: "finding not listed: " + k, Kind: "assertion"})
					}
				}
				for i := range ex.violations {
					v := &ex.violations[i]
					file, ok := handleViolation(prop, ps, f, h, pr, v, replay)
					if ok {
						fmt.Printf("  violation in %s: %s\n", h.fn, v.Msg)
						fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
						exit = 1
						break
					}
					notes = append(notes, fmt.Sprintf("%s: counterexample did not reproduce on the real code, not reported: %s", h.fn, v.Msg))
					fmt.Printf("  INCONCLUSIVE: counterexample not reproduced natively: %s (%s)\n", v.Msg, file)
				}
				if exit == 1 {
					break
				}
			}
			if exit == 1 {
				break
			}
		}
		pr.fns.Range(func(k, v any) bool {
			fi := v.(*fnInfo)
			if fi.touched.Load() {
				fnsEncoded[fi.name] += fi.ninstr
			}
			return true
		})
		if exit == 1 {
			break
		}
		if replay && time.Until(budgetEnd) > 2*time.Minute {
			n, bad := validateNative(ps, fl, reports)
			validated += n
			for _, b := range bad {
				notes = append(notes, "engine and native run differ: "+b)
				fmt.Println("  NOTE: engine and native run differ:", b)
			}
		}
	}
	dumpForks()
	writeEvidence(prop, tier, seed, reports, fnsEncoded, notes, time.Since(t0).Seconds())
	return exit
}

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Text     string `json:"text"`
	Status   string `json:"status"`
}

func loadKnown() []knownFinding {
	var l []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var d struct {
		Findings []knownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &d) == nil {
		l = d.Findings
	}
	return l
}
func isKnown(prop, id string) bool { return knownText(prop, id) != "" }
func knownText(prop, id string) string {
	for _, k := range loadKnown() {
		if k.Property == prop && k.ID == id {
			return k.ID + ": " + k.Text
		}
	}
	return ""
}

func writeEvidence(prop, tier string, seed int, reps []*hreport, fns map[string]int, notes []string, wall float64) {
	var paths, steps, verifies, discharged, concrete, infeas, queries, sat, unsat, unknown, switches int64
	var sdur float64
	var hs []map[string]any
	var samples []any
	viol := 0
	assumptions := []string{
		"bounds per harness are listed under coverage.harnesses; nothing outside them is claimed",
		"goroutines are interleaved at synchronisation operations (channels, locks, atomics, timers) up to the stated number of scheduling delays; unsynchronised data races are not modelled",
		"Kafka client, broker, clock, randomness and logging are replaced by nondeterministic stubs",
	}
	exhaustive := len(reps) > 0
	for _, r := range reps {
		if r.skipped != "" {
			hs = append(hs, map[string]any{"harness": r.h.fn, "skipped": r.skipped})
			exhaustive = false
			continue
		}
		e := r.ex
		paths += e.paths.Load()
		steps += e.steps.Load()
		verifies += e.verifies.Load()
		discharged += e.discharged.Load()
		concrete += e.concreteOK.Load()
		infeas += e.infeasible.Load()
		switches += e.switches.Load()
		var hq, hsat, huns, hunk int64
		var hd float64
		for _, w := range e.workers {
			hq += w.sol.queries
			hsat += w.sol.sat
			huns += w.sol.unsat
			hunk += w.sol.unknown
			hd += w.sol.dur.Seconds()
		}
		if e.verdict.res != "" {
			hq++
			hd += e.verdict.secs
			switch e.verdict.res {
			case "sat":
				hsat++
			case "unsat":
				huns++
			default:
				hunk++
			}
		}
		queries += hq
		sat += hsat
		unsat += huns
		unknown += hunk
		sdur += hd
		viol += len(e.violations)
		comp := len(e.incomplete) == 0 && len(e.violations) == 0
		if !comp {
			exhaustive = false
		}
		m := map[string]any{
			"harness": r.h.fn, "claim": r.h.doc, "paths": e.paths.Load(), "paths_completed": e.okPaths.Load(), "paths_infeasible": e.infeasible.Load(),
			"assertions_checked": e.verifies.Load(), "assertions_discharged_by_solver": e.discharged.Load(), "assertions_true_on_path": e.concreteOK.Load(),
			"solver_queries": hq, "answers_reused": e.cache.hits.Load(), "sat": hsat, "unsat": huns, "unknown": hunk, "solver_s": round3(hd), "wall_s": round3(r.wall),
			"bounds":                 map[string]any{"scheduling_delays": r.h.opt.delays, "select_choices": r.h.opt.selects, "map_orders": r.h.opt.mapOrders, "early_timers": r.h.opt.earlyTimers, "points_after_unlock": r.h.opt.post, "steps_per_path": r.h.opt.maxSteps, "timeout_s": r.h.opt.timeout.Seconds()},
			"complete_within_bounds": comp,
			"verdict":                map[string]any{"formula": "some assignment of the decision variables leads to a violated assertion, or to a case which was not explored", "answer": e.verdict.res, "nodes": e.verdict.nodes, "variables": e.verdict.vars, "solver_s": round3(e.verdict.secs)},
			"reached":                e.reached,
			"thread_switches":        e.switches.Load(),
		}
		if len(e.incomplete) > 0 {
			m["incomplete"] = topN(e.incomplete, 10)
		}
		if len(e.known) > 0 {
			m["known_findings"] = e.known
		}
		if len(e.violations) > 0 {
			m["violation"] = e.violations[0].Msg
		}
		hs = append(hs, m)
		for i, s := range e.samples {
			if i >= 2 {
				break
			}
			s["harness"] = r.h.fn
			samples = append(samples, s)
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var fl []string
	for k, n := range fns {
		fl = append(fl, fmt.Sprintf("%s [%d ssa instructions]", k, n))
	}
	sort.Strings(fl)
	var ri []string
	initNotes.Range(func(k, v any) bool { ri = append(ri, fmt.Sprint(k, ": ", v)); return true })
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round3(wall), "violations": viol,
		"assumptions": assumptions,
		"coverage": map[string]any{
			"states": steps, "transitions": switches + paths, "traces_validated_against_impl": validated, "samples": samples,
			"evaluations": paths, "distinct_nontrivial": paths - infeas,
			"rule":              "each evaluation is one symbolic path (a distinct sequence of branch, data-choice and scheduling decisions); non-trivial: its path condition is satisfiable",
			"functions_encoded": fl, "functions_encoded_count": len(fl),
			"paths": paths, "solver_queries": queries, "sat": sat, "unsat": unsat, "unknown": unknown, "solver_s": round3(sdur),
			"assertions_checked": verifies, "assertions_discharged_by_solver": discharged, "assertions_true_on_path": concrete,
			"harnesses": hs, "exhaustive": exhaustive, "notes": notes,
			"explanation": "states = executed SSA instructions over all symbolic paths; transitions = goroutine switches plus path ends",
		},
	}
	if len(ri) > 0 {
		ev["coverage"].(map[string]any)["init_not_modelled"] = ri
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

// handleViolation writes the replay file and replays the counterexample.
func handleViolation(prop string, ps pkgSpec, f *hfile, h *harness, pr *program, v *violation, replay bool) (string, bool) {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, prop+"_"+h.fn+".json")
	var order []string
	for _, x := range v.Vars {
		order = append(order, x.name)
	}
	doc := map[string]any{"property": prop, "harness": h.fn, "package": ps.path, "message": v.Msg, "kind": v.Kind, "Values": v.Model, "Order": order, "vars": describeVars(v), "trace": v.Trace}
	save := func() {
		b, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(file, b, 0o644)
	}
	save()
	if !replay {
		return file, true
	}
	// 1. independent concrete re-execution in the engine, driven by the model alone
	func() {
		defer func() {
			if r := recover(); r != nil {
				doc["engine_replay"] = fmt.Sprint("failed: ", r)
			}
		}()
		ex := newExplorer(pr, h, 1)
		ex.trace = true
		ex.deadline = time.Now().Add(time.Minute)
		p := ex.workers[0].runPath(workItem{nil, v.Model}, true)
		ex.workers[0].sol.stop()
		doc["engine_replay"] = map[string]any{"outcome": fmt.Sprint(p.out.kind), "message": p.out.msg}
		tr := p.tr
		if len(tr) > 400 {
			tr = tr[len(tr)-400:]
		}
		doc["schedule"] = tr
	}()
	// 2. native replay of the real build
	out, ok := nativeReplay(ps, f, h, file)
	if ok {
		validated++
	}
	doc["native_replay"] = map[string]any{"reproduced": ok, "output": tail(out, 3000)}
	save()
	if !ok && !h.opt.noNative {
		return file, false
	}
	return file, true
}

func describeVars(v *violation) []string {
	var r []string
	for _, x := range v.Vars {
		val := v.Model[x.name]
		if x.kind == "data" {
			r = append(r, fmt.Sprintf("%s (%d bit) = %d (0x%x)", x.name, x.w, sx(val, max(x.w, 1)), val))
		} else {
			r = append(r, fmt.Sprintf("%s %s %d of %d", x.name, x.kind, val, x.lim))
		}
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// validated counts the engine paths and counterexamples which a native run of the real code confirmed.
var validated int

const replayTest = `package %s

import (
	vpjson "encoding/json"
	vpfmt "fmt"
	vpos "os"
	"testing"
	"testing/synctest"
	vptime "time"
)

var vpHarnesses = map[string]func(){%s}

func vpVerdict(r any) bool {
	if s, ok := r.(vpStop); ok {
		vpfmt.Println("VERIF-STOP", s.why)
		if len(vpR.fails) > 0 {
			vpfmt.Println("VERIF-REPRODUCED", vpR.fails[0])
			return true
		}
		return false
	}
	if r != nil {
		vpfmt.Println("VERIF-REPRODUCED panic:", r)
		return true
	}
	vpfmt.Println("VERIF-PASSED")
	return false
}

func TestVerifReplay(t *testing.T) {
	vpLoadReplay(vpos.Getenv("VERIF_REPLAY"))
	vpNativeQuiesce = func(d vptime.Duration) {
		synctest.Wait()
		if d > 0 {
			vptime.Sleep(d)
			synctest.Wait()
		}
	}
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if vpVerdict(recover()) {
				vpos.Exit(3)
			}
			vpos.Exit(0)
		}()
		vpHarnesses[vpos.Getenv("VERIF_HARNESS")]()
	})
}

func TestVerifValidate(t *testing.T) {
	b, err := vpos.ReadFile(vpos.Getenv("VERIF_REPLAY"))
	if err != nil {
		t.Fatal(err)
	}
	var l []struct {
		Fn       string
		Values   map[string]uint64
		Order    []string
		Reach    []string
		Verifies int64
	}
	if err := vpjson.Unmarshal(b, &l); err != nil {
		t.Fatal(err)
	}
	for i, x := range l {
		vpR = &vpReplayT{Values: x.Values, Order: x.Order}
		func() {
			defer func() {
				r := recover()
				if r == nil && vpfmt.Sprint(vpR.reach) == vpfmt.Sprint(x.Reach) && vpR.nverify == x.Verifies {
					vpfmt.Println("\nVERIF-SAME", i)
				} else {
					vpfmt.Println("\nVERIF-DIFF", i, x.Fn, r, vpR.reach, x.Reach, vpR.nverify, x.Verifies, x.Values)
				}
			}()
			vpHarnesses[x.Fn]()
		}()
	}
}
`

// validateNative runs sampled single-threaded paths natively and compares what happened.
func validateNative(ps pkgSpec, fl []*hfile, reps []*hreport) (int, []string) {
	var l []validTrace
	used := map[string]bool{}
	fns := map[string]bool{}
	for _, r := range reps {
		if r.ex == nil {
			continue
		}
		for _, v := range r.ex.valid {
			l = append(l, v)
			fns[v.Fn] = true
		}
	}
	var srcs []string
	var names []string
	for _, f := range fl {
		any := false
		for _, h := range f.harnesses {
			if fns[h.fn] {
				names = append(names, h.fn)
				any = true
			}
		}
		if any {
			for _, u := range append(append([]string{}, f.uses...), filepath.Base(f.path)) {
				if !used[u] {
					used[u] = true
					srcs = append(srcs, filepath.Join(filepath.Dir(f.path), u))
				}
			}
		}
	}
	var mine []validTrace
	ok := map[string]bool{}
	for _, n := range names {
		ok[n] = true
	}
	for _, v := range l {
		if ok[v.Fn] {
			mine = append(mine, v)
		}
	}
	if len(mine) == 0 {
		return 0, nil
	}
	tmp, err := os.MkdirTemp("", "vpvalid")
	if err != nil {
		return 0, nil
	}
	defer os.RemoveAll(tmp)
	b, _ := json.Marshal(mine)
	file := filepath.Join(tmp, "traces.json")
	os.WriteFile(file, b, 0o644)
	out := runNative(ps, srcs, names, "TestVerifValidate", file, "", tmp)
	n := 0
	var bad []string
	for _, s := range strings.Split(out, "\n") {
		if strings.HasPrefix(s, "VERIF-SAME") {
			n++
		}
		if strings.HasPrefix(s, "VERIF-DIFF") {
			bad = append(bad, s)
		}
	}
	if n+len(bad) < len(mine) {
		bad = append(bad, fmt.Sprintf("native run of %d traces stopped early: %s", len(mine), tail(out, 600)))
	}
	if len(bad) > 5 {
		bad = bad[:5]
	}
	return n, bad
}

func runNative(ps pkgSpec, srcs, names []string, test, file, harness, tmp string) string {
	repl := map[string]string{}
	n := 0
	put := func(target string, b []byte) {
		n++
		p := filepath.Join(tmp, fmt.Sprintf("f%d_%s", n, filepath.Base(target)))
		os.WriteFile(p, b, 0o644)
		repl[target] = p
	}
	for k, b := range overlayFor(ps, srcs) {
		put(k, b)
	}
	// the repository's own tests are left out so that their TestMain does not run
	ents, _ := filepath.Glob(filepath.Join(ps.dir, "*_test.go"))
	for _, e := range ents {
		repl[e] = ""
	}
	var tab []string
	for _, f := range names {
		tab = append(tab, fmt.Sprintf("%q: %s", f, f))
	}
	put(filepath.Join(ps.dir, "zz_verif_replay_test.go"), []byte(fmt.Sprintf(replayTest, ps.name, strings.Join(tab, ", "))))
	ovf := filepath.Join(tmp, "overlay.json")
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ovf, ob, 0o644)
	args := []string{"test", "-short", "-vet=off", "-count=1", "-v", "-timeout=60s", "-overlay", ovf}
	if m := modfileFor(ps); m != "" {
		args = append(args, "-modfile="+m)
	}
	args = append(args, "-run", "^"+test+"$", ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = ps.dir
	cmd.Env = append(append([]string{}, goEnv...), "VERIF_REPLAY="+file, "VERIF_HARNESS="+harness, "GODEBUG=asynctimerchan=0")
	out, _ := cmd.CombinedOutput()
	return string(out)
}

// nativeReplay runs the harness natively with the counterexample's values.
func nativeReplay(ps pkgSpec, f *hfile, h *harness, file string) (string, bool) {
	tmp, err := os.MkdirTemp("", "vpreplay")
	if err != nil {
		return err.Error(), false
	}
	defer os.RemoveAll(tmp)
	// a copy of its own: another run of the check may write the same file
	if b, err := os.ReadFile(file); err == nil {
		file = filepath.Join(tmp, "replay.json")
		os.WriteFile(file, b, 0o644)
	}
	srcs := []string{f.path}
	for _, u := range f.uses {
		srcs = append(srcs, filepath.Join(filepath.Dir(f.path), u))
	}
	// Go iterates over maps in random orders, which no replay can force: when a run passes, others may not
	attempts := 8
	if h.opt.noNative {
		attempts = 1
	} else if h.opt.mapOrders > 0 {
		attempts = 32
	}
	var out string
	for ; attempts > 0; attempts-- {
		out = runNative(ps, srcs, []string{h.fn}, "TestVerifReplay", file, h.fn, tmp)
		if strings.Contains(out, "VERIF-REPRODUCED") {
			return out, true
		}
		if strings.Contains(out, "VERIF-PASSED") {
			continue
		}
		if strings.Contains(out, "VERIF-STOP") {
			return out, false
		}
		return out, strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "deadlock")
	}
	return out, false
}
