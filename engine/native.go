package main

// Native runs: the harness functions compiled by the Go compiler together
// with the tree under test, driven by recorded inputs.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
)

type native struct {
	c  *config
	ov map[string]string
	hs []hinfo

	bin, raceBin, yieldBin string
	raceBuilt, yieldBuilt  bool
}

type job struct {
	Harness string     `json:"harness"`
	Inputs  []cexInput `json:"inputs"`
	covers  []string
	end     string
	conc    bool
	Seed    uint64 `json:"seed,omitempty"`
}

type nres struct {
	outcome string // ok, fail, crash, race, deadlock, hang, assume, diverged, skipped
	msg     string
	covers  []string
}

func (r nres) bad() bool {
	switch r.outcome {
	case "fail", "crash", "race", "deadlock", "hang":
		return true
	}
	return false
}

const runnerSrc = `package zzrun

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"testing"
	"testing/synctest"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
%s
)

var funcs = map[string]func(){
%s}

var real = map[string]bool{%[4]s}

type job struct {
	Harness string   %[3]cjson:"harness"%[3]c
	Inputs  []sym.In %[3]cjson:"inputs"%[3]c
	Seed    uint64   %[3]cjson:"seed"%[3]c
}

func TestRun(t *testing.T) {
	f, err := os.Open(os.Getenv("ZZ_JOBS"))
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(os.Getenv("ZZ_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	sym.Tier = os.Getenv("ZZ_TIER")
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	i := -1
	var skip int
	fmt.Sscan(os.Getenv("ZZ_SKIP"), &skip)
	line := func(outcome, msg string) {
		b, _ := json.Marshal(map[string]any{"i": i, "o": outcome, "m": msg, "c": sym.Covered()})
		out.Write(append(b, '\n'))
	}
	sym.OnFail = func(msg string) {
		if sym.Diverged {
			line("diverged", msg)
		} else {
			line("fail", msg)
		}
		os.Exit(3)
	}
	for sc.Scan() {
		i++
		if i < skip {
			continue
		}
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			t.Fatal(err)
		}
		line("start", "")
		sym.Reset(j.Inputs)
		if j.Seed != 0 {
			runtime.GOMAXPROCS(1)
			sym.Seed = j.Seed
		}
		one(t, funcs[j.Harness], real[j.Harness], line)
	}
}

func one(t *testing.T, f func(), real bool, line func(string, string)) {
	if real {
		line(run(f), "")
		return
	}
	// The bubble is left blocked on something outside it, so that its clock
	// stands still: goroutines may outlive the harness.
	ended, never := make(chan bool), make(chan bool)
	go func() {
		defer close(ended)
		synctest.Test(t, func(t *testing.T) {
			line(run(f), "")
			ended <- true
			<-never
		})
	}()
	<-ended
}

func run(f func()) string {
	outcome := "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(sym.AssumeFailed); ok {
					outcome = "assume"
					return
				}
				panic(r)
			}
		}()
		f()
	}()
	if sym.Diverged {
		outcome = "diverged"
	}
	return outcome
}
`

func (n *native) build(mode string) error {
	race := mode == "race"
	dir := filepath.Join(n.c.scratch, "native")
	os.MkdirAll(dir, 0o755)
	var imp, tab, realTab strings.Builder
	pkgs := map[string]string{}
	var order []string
	for _, h := range n.hs {
		if pkgs[h.pkg] == "" {
			pkgs[h.pkg] = fmt.Sprintf("p%d", len(pkgs))
			order = append(order, h.pkg)
		}
		fmt.Fprintf(&tab, "\t%q: %s.%s,\n", h.name, pkgs[h.pkg], h.name)
		if h.real {
			fmt.Fprintf(&realTab, "%q: true, ", h.name)
		}
	}
	sort.Strings(order)
	for _, p := range order {
		fmt.Fprintf(&imp, "\t%s %q\n", pkgs[p], p)
	}
	src := fmt.Sprintf(runnerSrc, imp.String(), tab.String(), '`', realTab.String())
	rf := filepath.Join(dir, "run_test.go")
	if err := os.WriteFile(rf, []byte(src), 0o644); err != nil {
		return err
	}
	rep := map[string]string{}
	for v, r := range n.ov {
		rep[v] = r
	}
	rep[filepath.Join(n.c.repo, "internal/zzverif/zzrun/run_test.go")] = rf
	// a package needs a non-test file for some tools; an empty one does
	df := filepath.Join(dir, "doc.go")
	os.WriteFile(df, []byte("package zzrun\n"), 0o644)
	rep[filepath.Join(n.c.repo, "internal/zzverif/zzrun/doc.go")] = df
	if mode == "yield" {
		files, err := n.repoFiles(order, rep)
		if err != nil {
			return err
		}
		for i, f := range files {
			y, err := withPoints(f)
			if err != nil {
				return err
			}
			if y == nil {
				continue
			}
			yf := filepath.Join(dir, fmt.Sprintf("yield%d.go", i))
			os.WriteFile(yf, y, 0o644)
			rep[f] = yf
		}
	}
	if err := n.nativeModels(dir, rep); err != nil {
		return err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay"+mode+".json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return err
	}
	bin := filepath.Join(dir, "run.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-modfile", n.c.modfile("native"), "-o"}
	cgo := "0"
	if race {
		bin = filepath.Join(dir, "race.test")
		args = append(args, bin, "-race")
		cgo = "1"
	} else {
		if mode == "yield" {
			bin = filepath.Join(dir, "yield.test")
		}
		args = append(args, bin)
	}
	args = append(args, modPath0+"/internal/zzverif/zzrun")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.c.repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED="+cgo, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
	o, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, o)
	}
	switch mode {
	case "race":
		n.raceBin, n.raceBuilt = bin, true
	case "yield":
		n.yieldBin, n.yieldBuilt = bin, true
	default:
		n.bin = bin
	}
	return nil
}

// nativeModels puts the models that say so ("//zz:native ID...", with the
// properties) in the place of what they stand for in native runs too.
func (n *native) nativeModels(dir string, rep map[string]string) error {
	i := 0
	for at, mf := range n.c.modelSrc() {
		m, err := os.ReadFile(mf)
		if err != nil {
			return err
		}
		mark := regexp.MustCompile(`(?m)^//zz:native (.*)$`).FindSubmatch(m)
		if mark == nil || !slices.Contains(strings.Fields(string(mark[1])), n.c.prop) {
			continue
		}
		file := filepath.Join(goEnv("GOROOT"), "src", at)
		if strings.Contains(strings.SplitN(at, "/", 2)[0], ".") {
			cmd := exec.Command("go", "list", "-modfile", n.c.modfile("model"), "-f", "{{.Dir}}", filepath.Dir(at))
			cmd.Dir = n.c.repo
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
			o, err := cmd.Output()
			if err != nil {
				return err
			}
			file = filepath.Join(strings.TrimSpace(string(o)), filepath.Base(at))
		}
		src, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		_, decls, _ := strings.Cut(string(m), "\n// model\n")
		for _, f := range regexp.MustCompile(`(?m)^func `+modelPrefix+`(\w+)\(`).FindAllStringSubmatch(decls, -1) {
			src = regexp.MustCompile(`(?m)^func `+f[1]+`\(`).ReplaceAll(src, []byte("func zz_orig_"+f[1]+"("))
		}
		i++
		of := filepath.Join(dir, fmt.Sprintf("model%d.go", i))
		if err := os.WriteFile(of, append(src, "\n"+strings.ReplaceAll(decls, modelPrefix, "")...), 0o644); err != nil {
			return err
		}
		rep[file] = of
	}
	return nil
}

// repoFiles lists the repository's own files the harnesses depend on.
func (n *native) repoFiles(pkgs []string, rep map[string]string) ([]string, error) {
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(n.c.scratch, "native", "overlay-list.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("go", append([]string{"list", "-deps", "-overlay", of, "-modfile", n.c.modfile("list"), "-f", "{{$d := .Dir}}{{$p := .ImportPath}}{{range .GoFiles}}{{$p}} {{$d}}/{{.}}\n{{end}}"}, pkgs...)...)
	cmd.Dir = n.c.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
	o, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var files []string
	for _, l := range strings.Split(string(o), "\n") {
		p, f, ok := strings.Cut(l, " ")
		if ok && strings.HasPrefix(p, modPath0+"/") && !strings.Contains(p, "/zzverif/") && !strings.HasSuffix(f, ".pb.go") {
			files = append(files, f)
		}
	}
	return files, nil
}

// withPoints is the source of a file with a possible switch to another
// goroutine before every statement.
func withPoints(file string) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		return nil, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			at = append(at, fs.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			list(b.List)
		}
		return true
	})
	// the clauses of a switch or select are not statements to stand before
	clause := map[int]bool{}
	ast.Inspect(f, func(x ast.Node) bool {
		switch c := x.(type) {
		case *ast.CaseClause:
			clause[fs.Position(c.Pos()).Offset] = true
			list(c.Body)
		case *ast.CommClause:
			clause[fs.Position(c.Pos()).Offset] = true
			list(c.Body)
		}
		return true
	})
	sort.Ints(at)
	var out bytes.Buffer
	name := fs.Position(f.Name.End()).Offset
	out.Write(src[:name])
	out.WriteString("; import zzsym \"" + modPath0 + "/internal/zzverif/sym\"")
	prev := name
	n := 0
	for i, o := range at {
		if clause[o] || i > 0 && at[i-1] == o {
			continue
		}
		out.Write(src[prev:o])
		out.WriteString("zzsym.Point(); ")
		prev = o
		n++
	}
	out.Write(src[prev:])
	if n == 0 {
		return nil, nil
	}
	return out.Bytes(), nil
}

// tries runs one harness natively again and again, switching between
// goroutines at other places each time, until it goes wrong.
func (n *native) tries(h string, in []cexInput, k int) nres {
	const parts = 8
	var mu sync.Mutex
	var wg sync.WaitGroup
	r := nres{outcome: "ok"}
	for p := 0; p < parts; p++ {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			for lo := p * k / parts; lo < (p+1)*k/parts; lo += 100 {
				mu.Lock()
				stop := r.bad()
				mu.Unlock()
				if stop {
					return
				}
				var jobs []job
				for i := lo; i < lo+100; i++ {
					jobs = append(jobs, job{Harness: h, Inputs: in, Seed: uint64(i+1) * 0x9E3779B97F4A7C15})
				}
				for _, x := range n.runBatch(jobs, "yield", 20*time.Second) {
					if x.bad() {
						mu.Lock()
						r = x
						mu.Unlock()
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	return r
}

// modfile gives each go command its own copy: -mod=mod may rewrite it.
func (c *config) modfile(tag string) string {
	d := filepath.Join(c.scratch, "mod-"+tag)
	os.MkdirAll(d, 0o755)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(c.scratch, f))
		os.WriteFile(filepath.Join(d, f), b, 0o644)
	}
	return filepath.Join(d, "go.mod")
}

func (n *native) runOne(h string, in []cexInput, race bool) nres {
	mode := ""
	if race {
		mode = "race"
	}
	return n.runBatch([]job{{Harness: h, Inputs: in}}, mode, 20*time.Second)[0]
}

func (n *native) runAll(jobs []job) []nres {
	out := make([]nres, len(jobs))
	const parts = 8
	var wg sync.WaitGroup
	for p := 0; p < parts; p++ {
		var idx []int
		for i := range jobs {
			if i%parts == p {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			js := make([]job, len(idx))
			for k, i := range idx {
				js[k] = jobs[i]
			}
			for k, r := range n.runBatch(js, "", 20*time.Second) {
				out[idx[k]] = r
			}
		}()
	}
	wg.Wait()
	return out
}

func (n *native) runBatch(jobs []job, mode string, quiet time.Duration) []nres {
	race, most := mode == "race", 12
	if mode == "yield" {
		most = 1
	}
	res := make([]nres, len(jobs))
	for i := range res {
		res[i].outcome = "skipped"
	}
	dir, err := os.MkdirTemp(n.c.scratch, "nat")
	if err != nil {
		return res
	}
	defer os.RemoveAll(dir)
	jf := filepath.Join(dir, "jobs")
	var jb bytes.Buffer
	for _, j := range jobs {
		b, _ := json.Marshal(j)
		jb.Write(b)
		jb.WriteByte('\n')
	}
	os.WriteFile(jf, jb.Bytes(), 0o644)
	skip := 0
	bad := 0
	for skip < len(jobs) && bad < most {
		of := filepath.Join(dir, "out")
		os.Remove(of)
		bin := n.bin
		if race {
			bin = n.raceBin
		} else if mode == "yield" {
			bin = n.yieldBin
		}
		cmd := exec.Command(bin, "-test.run=^TestRun$", "-test.timeout=0")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "ZZ_JOBS="+jf, "ZZ_OUT="+of, "ZZ_TIER="+n.c.tier, fmt.Sprintf("ZZ_SKIP=%d", skip),
			"GODEBUG=asynctimerchan=0", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+dir)
		var eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &eb, &eb
		if err := cmd.Start(); err != nil {
			return res
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		hang := false
		lastSize := int64(-1)
		lastT := time.Now()
		var werr error
	wait:
		for {
			select {
			case werr = <-done:
				break wait
			case <-time.After(100 * time.Millisecond):
				if fi, err := os.Stat(of); err == nil && fi.Size() != lastSize {
					lastSize = fi.Size()
					lastT = time.Now()
				}
				if time.Since(lastT) > quiet {
					hang = true
					cmd.Process.Kill()
					werr = <-done
					break wait
				}
			}
		}
		cur := -1
		if f, err := os.Open(of); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 1<<26)
			for sc.Scan() {
				var l struct {
					I int      `json:"i"`
					O string   `json:"o"`
					M string   `json:"m"`
					C []string `json:"c"`
				}
				if json.Unmarshal(sc.Bytes(), &l) != nil {
					continue
				}
				if l.O == "start" {
					cur = l.I
					continue
				}
				if l.I < len(res) {
					res[l.I] = nres{outcome: l.O, msg: l.M, covers: l.C}
				}
				if cur == l.I {
					cur = -1
				}
				skip = l.I + 1
			}
			f.Close()
		}
		if werr == nil && !hang && cur < 0 {
			if skip < len(jobs) && lastSize <= 0 {
				return res
			}
			if skip >= len(jobs) {
				break
			}
			return res
		}
		bad++
		if cur >= 0 {
			o := eb.String()
			r := nres{outcome: "crash", msg: crashMsg(o)}
			if hang {
				r = nres{outcome: "hang", msg: "no progress"}
			} else if strings.Contains(o, "WARNING: DATA RACE") {
				r = nres{outcome: "race", msg: raceMsg(o)}
			} else if strings.Contains(o, "deadlock: ") || strings.Contains(o, "all goroutines are asleep") {
				r.outcome = "deadlock"
			} else if !strings.Contains(o, "panic:") && !strings.Contains(o, "fatal error:") && !strings.Contains(o, "goroutine ") {
				r = nres{outcome: "skipped", msg: "runner ended: " + o}
				if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 1 {
					r = nres{outcome: "crash", msg: "the program exits: " + o}
				}
			}
			res[cur] = r
			skip = cur + 1
		} else if lastSize <= 0 && skip == 0 && !hang {
			// it ends before the first run: an initialisation fails
			if ee, ok := werr.(*exec.ExitError); ok && ee.Exited() {
				for i := range res {
					res[i] = nres{outcome: "crash", msg: "the program fails to start: " + crashMsg(eb.String())}
				}
			}
			return res
		} else if race && strings.Contains(eb.String(), "WARNING: DATA RACE") && skip > 0 {
			res[skip-1] = nres{outcome: "race", msg: raceMsg(eb.String())}
		}
	}
	return res
}

func crashMsg(o string) string {
	for _, l := range strings.Split(o, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "deadlock") {
			return l
		}
	}
	if len(o) > 600 {
		o = o[:600]
	}
	return o
}

func raceMsg(o string) string {
	i := strings.Index(o, "WARNING: DATA RACE")
	o = o[i:]
	if len(o) > 1500 {
		o = o[:1500]
	}
	return o
}

func (c *config) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v violationRec
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	c.prop = v.Property
	c.setup()
	defer os.RemoveAll(c.scratch)
	ov, hs := c.discover()
	ov = pruneOverlay(c.repo, ov, hs)
	n := &native{c: c, ov: ov, hs: hs}
	mode := ""
	if v.Kind == "race" {
		mode = "race"
	} else if v.Schedule {
		mode = "yield"
	}
	if err := n.build(mode); err != nil {
		fatal("%v", err)
	}
	var r nres
	if v.Schedule {
		r = n.tries(v.Harness, v.Inputs, 4000)
	} else {
		r = n.runOne(v.Harness, v.Inputs, v.Kind == "race")
	}
	fmt.Println(r.outcome, r.msg)
	if r.bad() {
		return 1
	}
	return 0
}
