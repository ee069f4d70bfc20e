package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type config struct {
	prop, tier  string
	repo, verif string
	only        string
	seed        int64
	scratch     string
	strict      bool
	verbose     bool
	noNative    bool
	budget      time.Duration
	total       time.Duration
}

type hinfo struct {
	name         string // function
	pkg          string // import path
	file         string
	race         bool
	thoroughOnly bool
	real         bool // runs natively on the machine's clock, sockets included
}

var modFuncRe = regexp.MustCompile(`(?m)^((?://.*\n)*)func (([A-Z][0-9]{2})_\w+)\(\) \{`)

// inPkgDir: harness/in/<dir with __ for />/ holds files overlaid into the
// package itself.
func (c *config) discover() (overlay map[string]string, hs []hinfo) {
	overlay = map[string]string{}
	base := filepath.Join(c.verif, "harness")
	dirs, _ := os.ReadDir(base)
	type src struct{ virt, real, pkg string }
	var srcs []src
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "models" {
			continue
		}
		if d.Name() == "in" {
			subs, _ := os.ReadDir(filepath.Join(base, "in"))
			for _, sd := range subs {
				rel := strings.ReplaceAll(sd.Name(), "__", "/")
				fs, _ := filepath.Glob(filepath.Join(base, "in", sd.Name(), "*.go"))
				for _, f := range fs {
					srcs = append(srcs, src{filepath.Join(c.repo, rel, "zz_"+filepath.Base(f)), f, modPath0 + "/" + rel})
				}
			}
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(base, d.Name(), "*.go"))
		for _, f := range fs {
			srcs = append(srcs, src{filepath.Join(c.repo, "internal/zzverif", d.Name(), filepath.Base(f)), f, modPath0 + "/internal/zzverif/" + d.Name()})
		}
	}
	for _, s := range srcs {
		overlay[s.virt] = s.real
		b, err := os.ReadFile(s.real)
		if err != nil {
			continue
		}
		for _, m := range modFuncRe.FindAllSubmatch(b, -1) {
			if string(m[3]) != c.prop {
				continue
			}
			n := string(m[2])
			if c.only != "" && !strings.Contains(n, c.only) {
				continue
			}
			hs = append(hs, hinfo{name: n, pkg: s.pkg, file: s.real, race: strings.Contains(string(m[1]), "//sym:race"),
				thoroughOnly: strings.Contains(string(m[1]), "//sym:thorough"), real: strings.Contains(string(m[1]), "//sym:real")})
		}
	}
	return
}

// modelSrc finds the models: harness/models/<import path with __ for />/<file>.
func (c *config) modelSrc() map[string]string {
	m := map[string]string{}
	base := filepath.Join(c.verif, "harness", "models")
	fs, _ := filepath.Glob(filepath.Join(base, "*", "*.go"))
	for _, f := range fs {
		m[strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "__", "/")+"/"+filepath.Base(f)] = f
	}
	return m
}

const modPath0 = "code.cloudfoundry.org/log-cache"

// prune keeps the overlay of packages a property does not need out of the
// load: files of the harness packages it uses, sym and models.
func pruneOverlay(repo string, ov map[string]string, hs []hinfo) map[string]string {
	need := map[string]bool{}
	var add func(pkg string)
	add = func(pkg string) {
		if need[pkg] {
			return
		}
		need[pkg] = true
		for v, r := range ov {
			if pkgOfVirt(repo, v) != pkg {
				continue
			}
			b, _ := os.ReadFile(r)
			for _, m := range regexp.MustCompile(`"(code\.cloudfoundry\.org/log-cache/[^"]*)"`).FindAllSubmatch(b, -1) {
				add(string(m[1]))
			}
		}
	}
	for _, h := range hs {
		add(h.pkg)
	}
	add(modPath0 + "/internal/zzverif/sym")
	// in-package files come along with their package
	out := map[string]string{}
	for v, r := range ov {
		p := pkgOfVirt(repo, v)
		if need[p] {
			out[v] = r
		}
	}
	return out
}

func pkgOfVirt(repo, v string) string {
	return modPath0 + "/" + strings.TrimPrefix(filepath.Dir(v), repo+"/")
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // finding or fixed
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path, prop string) (out []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var all struct {
		Findings []known `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fatal("known findings: %v", err)
	}
	for _, k := range all.Findings {
		if k.Property == prop && k.Status == "finding" {
			out = append(out, k)
		}
	}
	return
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func goEnv(name string) string {
	cmd := exec.Command("go", "env", name)
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOTOOLCHAIN=local")
	o, err := cmd.Output()
	if err != nil {
		fatal("go env: %v", err)
	}
	return strings.TrimSpace(string(o))
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gosym run|replay ...")
	}
	c := &config{repo: "/repo", verif: "/verif", tier: "quick", seed: 1}
	args := os.Args[2:]
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-prop":
			i++
			c.prop = args[i]
		case "-tier":
			i++
			c.tier = args[i]
		case "-repo":
			i++
			c.repo = args[i]
		case "-verif":
			i++
			c.verif = args[i]
		case "-only":
			i++
			c.only = args[i]
		case "-budget":
			i++
			d, err := time.ParseDuration(args[i])
			if err != nil {
				fatal("%v", err)
			}
			c.budget = d
		case "-strict":
			c.strict = true
		case "-v":
			c.verbose = true
		case "-nonative":
			c.noNative = true
		default:
			fatal("unknown argument %s", args[i])
		}
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		c.seed, _ = strconv.ParseInt(s, 10, 64)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	switch os.Args[1] {
	case "run":
		os.Exit(c.run())
	case "replay":
		os.Exit(c.replayFile(os.Getenv("REPLAY")))
	}
	fatal("unknown command")
}

func (c *config) setup() {
	os.Setenv("GOSYM_GOROOT", goEnv("GOROOT"))
	os.Setenv("GOSYM_MODCACHE", goEnv("GOMODCACHE"))
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	c.scratch = d
	// The server core needs modules this sandbox does not have: stand-ins.
	mod := "mod"
	if !strings.HasPrefix(c.prop, "C") && c.prop != "" {
		mod = "mod/stub"
		if out, err := exec.Command("bash", filepath.Join(c.verif, "tools/stubs.sh")).CombinedOutput(); err != nil {
			fatal("stubs: %v %s", err, out)
		}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(c.verif, mod, f))
		if err != nil {
			fatal("%v", err)
		}
		b = []byte(strings.ReplaceAll(string(b), "/verif/", c.verif+"/"))
		os.WriteFile(filepath.Join(d, f), b, 0o644)
	}
}

func (c *config) run() int {
	t0 := time.Now()
	c.setup()
	defer os.RemoveAll(c.scratch)
	ov, hs := c.discover()
	if len(hs) == 0 {
		fatal("no harness for %s", c.prop)
	}
	ov = pruneOverlay(c.repo, ov, hs)
	if _, err := os.Stat(filepath.Join(c.repo, "go.mod")); err != nil {
		ov[filepath.Join(c.repo, "go.mod")] = filepath.Join(c.verif, "mod/go.mod")
	}
	pk := map[string]bool{}
	for _, h := range hs {
		pk[h.pkg] = true
	}
	e, err := load(loadOpts{repo: c.repo, modfile: filepath.Join(c.scratch, "go.mod"), overlay: ov, patterns: sortedKeys(pk), modelSrc: c.modelSrc()})
	if err != nil {
		fatal("load: %v", err)
	}
	e.tier = c.tier
	e.quoteSym = !strings.HasPrefix(c.prop, "C")
	if len(e.typeErrs) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(e.typeErrs, "\n"))
		// The tree does not compile the way the harness uses it: no answer.
		c.writeFail(t0, "type errors: "+e.typeErrs[0])
		return 2
	}
	loadWall := time.Since(t0)
	if c.verbose {
		fmt.Fprintf(os.Stderr, "loaded %d packages in %v\n", len(e.pkgs), loadWall)
	}
	kn := loadKnown(filepath.Join(c.verif, "known_findings.json"), c.prop)

	total := 400 * time.Second
	if c.tier == "thorough" {
		total = 600 * time.Second
	}
	if c.budget > 0 {
		total = c.budget
	}
	// build the native runner meanwhile
	nat := &native{c: c, ov: ov, hs: hs}
	natDone := make(chan error, 1)
	if !c.noNative {
		go func() { natDone <- nat.build("") }()
	} else {
		natDone <- nil
	}

	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	ws := make([]*W, nw)
	for i := range ws {
		ws[i] = e.newW(i)
		ws[i].solver.timeout = 20000
	}
	defer func() {
		for _, w := range ws {
			w.solver.Close()
			if w.solver2 != nil {
				w.solver2.Close()
			}
		}
	}()
	var runs []*hrun
	left := total
	for i, h := range hs {
		if h.thoroughOnly && c.tier != "thorough" {
			continue
		}
		sp := e.ssaPkgs[h.pkg]
		if sp == nil {
			fatal("package %s was not loaded", h.pkg)
		}
		e.buildPkg(sp)
		fn := sp.Func(h.name)
		if fn == nil {
			fatal("no function %s in %s", h.name, h.pkg)
		}
		hr := newHrun(e, h.name, fn)
		hr.known = func(msg string) bool {
			for _, k := range kn {
				if (k.Harness == "" || k.Harness == h.name) && strings.Contains(msg, k.Match) {
					return true
				}
			}
			return false
		}
		share := left / time.Duration(len(hs)-i)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		hr.explore(ws, share)
		left -= hr.wall
		runs = append(runs, hr)
		if c.verbose {
			fmt.Fprintf(os.Stderr, "%s: %d paths, %d infeasible, %d incomplete, ends %v, %d asserts (%d trivial, %d obligations, %d discharged), %.1fs, pending %d, timeUp %v\n",
				h.name, hr.paths, hr.infeasible, hr.incomplete, hr.ends, hr.asserts, hr.trivial, hr.obligations, hr.discharged, hr.wall.Seconds(), hr.pending(), hr.timeUp)
			for m, n := range hr.notes {
				fmt.Fprintf(os.Stderr, "  note: %s (%d)\n", m, n)
			}
			for m, n := range hr.unsup {
				fmt.Fprintf(os.Stderr, "  unsupported: %s (%d)\n%s\n", m, n, indent(hr.unsupTrace[m]))
			}
			for _, x := range hr.cexs {
				b, _ := json.Marshal(x.Inputs)
				fmt.Fprintf(os.Stderr, "  counterexample (%s): %s\n    %s\n", x.Kind, x.Msg, b)
			}
		}
	}
	if err := <-natDone; err != nil {
		fmt.Fprintln(os.Stderr, "native runner:", err)
		c.writeFail(t0, "native runner does not build: "+err.Error())
		return 2
	}
	return c.report(e, ws, runs, hs, kn, nat, t0, loadWall)
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ")
}

func (c *config) writeFail(t0 time.Time, why string) {
	c.writeEvidence(map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{}, "failure": why}, t0, 0)
}

func (c *config) writeEvidence(cov map[string]any, t0 time.Time, viol int) {
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"wall_s": round2(time.Since(t0).Seconds()), "violations": viol, "assumptions": assumptions}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

var assumptions = []string{
	"the engine's SSA interpreter, its term simplifier and its models of runtime, sync, time, fmt, strconv, encoding/json, protobuf JSON and net/http intrinsics (engine/intr_*.go) behave as the Go toolchain's code does; every run replays path witnesses natively to check this",
	"z3 answers correctly",
	"nothing outside the bounds listed in coverage.bounds is covered",
}

type violationRec struct {
	Property string     `json:"property"`
	Harness  string     `json:"harness"`
	Msg      string     `json:"msg"`
	Kind     string     `json:"kind"`
	Inputs   []cexInput `json:"inputs"`
	Native   string     `json:"native_outcome"`
	Trace    string     `json:"trace,omitempty"`
	Schedule bool       `json:"schedule,omitempty"` // found natively by trying schedules
}

func (c *config) report(e *Engine, ws []*W, runs []*hrun, hs []hinfo, kn []known, nat *native, t0 time.Time, loadWall time.Duration) int {
	touched := map[string]bool{}
	var q2, hits, q, sat, unsat, unk int
	var st, mx time.Duration
	for _, w := range ws {
		for k := range w.touched {
			touched[k] = true
		}
		q += w.solver.Queries
		hits += w.qhits
		sat += w.solver.SatN
		unsat += w.solver.UnsatN
		unk += w.solver.UnkN
		st += w.solver.Time
		if w.solver.MaxQ > mx {
			mx = w.solver.MaxQ
		}
		if s := w.solver2; s != nil {
			q2 += s.Queries
			unk -= s.SatN + s.UnsatN
			st += s.Time
		}
	}
	raceOf := map[string]bool{}
	for _, h := range hs {
		raceOf[h.name] = h.race
	}

	var viols []violationRec
	knownSeen := map[string]bool{}
	unconfirmed := []string{}
	isKnown := func(h, msg string) *known {
		for i := range kn {
			if (kn[i].Harness == "" || kn[i].Harness == h) && strings.Contains(msg, kn[i].Match) {
				return &kn[i]
			}
		}
		return nil
	}
	addViol := func(v violationRec) {
		if k := isKnown(v.Harness, v.Msg); k != nil {
			knownSeen[k.What] = true
			return
		}
		viols = append(viols, v)
	}

	// counterexamples, replayed natively
	validated, agreed := 0, 0
	if c.noNative {
		for _, r := range runs {
			for _, x := range r.cexs {
				addViol(violationRec{Property: c.prop, Harness: x.Harness, Msg: x.Msg, Kind: x.Kind, Inputs: x.Inputs, Native: "not replayed"})
			}
		}
	} else {
		confirmedMsg := map[string]bool{}
		for _, r := range runs {
			for _, x := range r.cexs {
				key := x.Harness + "\x00" + firstLine(x.Msg)
				if confirmedMsg[key] {
					continue
				}
				if x.Kind == "race" {
					if !nat.raceBuilt {
						if err := nat.build("race"); err != nil {
							unconfirmed = append(unconfirmed, x.Msg+": race build failed: "+err.Error())
							continue
						}
					}
				}
				reps := 1
				if r.sawConc() && x.Kind != "race" {
					// a schedule: try many
					if !nat.yieldBuilt {
						if err := nat.build("yield"); err != nil {
							unconfirmed = append(unconfirmed, x.Msg+": build with switches failed: "+err.Error())
							continue
						}
					}
					res := nat.tries(x.Harness, x.Inputs, 4000)
					if res.bad() {
						addViol(violationRec{Property: c.prop, Harness: x.Harness, Msg: x.Msg, Kind: x.Kind, Inputs: x.Inputs, Native: res.outcome + ": " + res.msg, Trace: x.Trace, Schedule: true})
						confirmedMsg[key] = true
					} else {
						unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: %s (native: 4000 schedules tried)", x.Harness, x.Kind, x.Msg))
					}
					continue
				}
				if r.sawConc() || r.sawRandom() || x.Kind == "race" {
					reps = 40
				}
				confirmed := false
				var last string
				for i := 0; i < reps && !confirmed; i++ {
					res := nat.runOne(x.Harness, x.Inputs, x.Kind == "race")
					last = res.outcome + ": " + res.msg
					if res.bad() {
						confirmed = true
						addViol(violationRec{Property: c.prop, Harness: x.Harness, Msg: x.Msg, Kind: x.Kind, Inputs: x.Inputs, Native: last, Trace: x.Trace})
						confirmedMsg[key] = true
					}
				}
				if !confirmed {
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: %s (native: %s)", x.Harness, x.Kind, x.Msg, last))
				}
			}
		}
		// witnesses of explored paths
		limit := 240
		if c.tier == "thorough" {
			limit = 2000
		}
		var jobs []job
		for _, r := range runs {
			n := limit / len(runs)
			if n < 12 {
				n = 12
			}
			// those the engine could not finish come first
			sort.SliceStable(r.witness, func(i, j int) bool { return r.witness[i].End == "unsupported" && r.witness[j].End != "unsupported" })
			step := 1
			if len(r.witness) > n {
				step = len(r.witness) / n
			}
			nu := 0
			for i := 0; i < len(r.witness); i++ {
				wt := r.witness[i]
				if wt.End == "unsupported" {
					nu++
					if nu > n {
						continue
					}
				} else if i%step != 0 {
					continue
				}
				jobs = append(jobs, job{Harness: r.name, Inputs: wt.Inputs, covers: wt.Covers, end: wt.End, conc: wt.conc || wt.random})
			}
		}
		res := nat.runAll(jobs)
		for i, rr := range res {
			if rr.outcome == "skipped" {
				continue
			}
			validated++
			if rr.bad() {
				addViol(violationRec{Property: c.prop, Harness: jobs[i].Harness, Msg: rr.msg, Kind: "native " + rr.outcome, Inputs: jobs[i].Inputs, Native: rr.outcome + ": " + rr.msg})
				if jobs[i].end == "done" && !jobs[i].conc {
					unconfirmed = append(unconfirmed, "engine and native run disagree: native "+rr.outcome+" "+rr.msg)
				}
				continue
			}
			if rr.outcome == "ok" && jobs[i].end == "done" {
				if jobs[i].conc || sameSet(rr.covers, jobs[i].covers) {
					agreed++
				} else {
					b, _ := json.Marshal(jobs[i].Inputs)
					unconfirmed = append(unconfirmed, fmt.Sprintf("engine and native run disagree on covered situations of %s: engine %v native %v inputs %s", jobs[i].Harness, jobs[i].covers, rr.covers, b))
				}
			} else if jobs[i].end == "done" && !jobs[i].conc {
				b, _ := json.Marshal(jobs[i].Inputs)
				unconfirmed = append(unconfirmed, fmt.Sprintf("engine and native run disagree: %s ends %s natively (%s) inputs %s", jobs[i].Harness, rr.outcome, rr.msg, b))
			}
		}
	}

	cov := map[string]any{}
	states := 0
	var trans, ob, dis, ass, triv int64
	bounds := map[string]any{}
	var limits []string
	var samples []any
	complete := true
	vacuous := []string{}
	per := []any{}
	for _, r := range runs {
		states += r.paths
		trans += r.decisions
		ob += r.obligations
		dis += r.discharged
		ass += r.asserts
		triv += r.trivial
		for k, v := range r.bounds {
			bounds[k] = v
		}
		if r.timeUp {
			complete = false
			limits = append(limits, fmt.Sprintf("%s: time budget ended with %d branches unexplored", r.name, r.pending()))
		}
		for k, n := range r.unsup {
			complete = false
			limits = append(limits, fmt.Sprintf("%s: %d paths not followed symbolically: %s (their inputs were run natively)", r.name, n, k))
		}
		for k, n := range r.notes {
			complete = false
			limits = append(limits, fmt.Sprintf("%s: %s (%d)", r.name, k, n))
		}
		for k, n := range r.ends {
			switch k {
			case "done", "assume", "assert", "panic", "deadlock", "fatal", "unsupported":
			default:
				complete = false
				limits = append(limits, fmt.Sprintf("%s: %d paths ended by %s", r.name, n, k))
			}
		}
		if len(r.witness) > 0 && len(samples) < 6 {
			samples = append(samples, map[string]any{"harness": r.name, "inputs": r.witness[len(r.witness)/2].Inputs, "end": r.witness[len(r.witness)/2].End})
		}
		for k := range r.expect {
			if r.covers[k] == 0 {
				vacuous = append(vacuous, r.name+": "+k)
			}
		}
		per = append(per, map[string]any{"harness": r.name, "paths": r.paths, "infeasible": r.infeasible, "incomplete": r.incomplete, "decisions": r.decisions,
			"assertions": r.asserts, "obligations_sent_to_solver": r.obligations, "discharged": r.discharged, "decided_by_simplification": r.trivial, "wall_s": round2(r.wall.Seconds()), "covered": r.covers})
	}
	sort.Strings(limits)
	sort.Strings(vacuous)
	if samples == nil {
		samples = []any{}
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = agreed
	cov["native_runs"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = complete
	cov["bounds"] = bounds
	cov["not_covered"] = limits
	cov["functions_encoded"] = sortedKeys(touched)
	cov["assertions_checked"] = ass
	cov["assertions_decided_by_simplification"] = triv
	cov["obligations_sent_to_solver"] = ob
	cov["obligations_discharged_by_solver"] = dis
	cov["solver"] = map[string]any{"name": e.solverName, "queries": q, "answered_from_cache": hits, "passed_on_to_z3": q2, "sat": sat, "unsat": unsat, "unknown": unk, "time_s": round2(st.Seconds()), "max_query_s": round2(mx.Seconds())}
	cov["harnesses"] = per
	cov["situations_not_reached"] = vacuous
	cov["unconfirmed"] = unconfirmed
	cov["load_s"] = round2(loadWall.Seconds())
	cov["explanation"] = "states are execution paths of the real code followed to their end, each standing for every input that satisfies its path condition; transitions are the branch and scheduling decisions taken; every assertion on every path was decided by the solver (or by rewriting to a constant)."
	known := []string{}
	for k := range knownSeen {
		known = append(known, k)
	}
	sort.Strings(known)
	cov["known_findings_seen"] = known
	c.writeEvidence(cov, t0, len(viols))

	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
	}
	fmt.Printf("%s %s: %d paths, %d decisions, %d assertions (%d by the solver), %d queries, %.1fs solver time, %d path witnesses agree natively, %.1fs\n",
		c.prop, c.tier, states, trans, ass, ob, q, st.Seconds(), agreed, time.Since(t0).Seconds())
	for _, l := range limits {
		fmt.Println("limit:", l)
	}
	for _, l := range vacuous {
		fmt.Println("not reached:", l)
	}
	for _, l := range unconfirmed {
		fmt.Println("unconfirmed:", l)
	}
	if len(viols) == 0 {
		if c.strict && (len(unconfirmed) > 0 || len(vacuous) > 0 || !complete) {
			return 3
		}
		return 0
	}
	dir := filepath.Join(c.verif, "build", "replay")
	os.MkdirAll(dir, 0o755)
	seen := map[string]bool{}
	for _, v := range viols {
		k := v.Harness + firstLine(v.Msg)
		if seen[k] {
			continue
		}
		seen[k] = true
		b, _ := json.MarshalIndent(v, "", " ")
		sum := sha256.Sum256([]byte(k))
		p := filepath.Join(dir, fmt.Sprintf("%s-%x.json", c.prop, sum[:5]))
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: %s\n  native replay: %s\n", v.Harness, v.Msg, v.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
	}
	return 1
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[:i]
	}
	return s
}

func sameSet(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := map[string]bool{}
	for _, x := range b {
		n[x] = true
		if !m[x] {
			return false
		}
	}
	return len(m) == len(n)
}

func (h *hrun) sawRandom() bool {
	for _, w := range h.witness {
		if w.random {
			return true
		}
	}
	return false
}

func (h *hrun) sawConc() bool {
	for _, w := range h.witness {
		if w.conc {
			return true
		}
	}
	return h.conc
}
