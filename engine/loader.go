package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	modPath   string
	prog      *ssa.Program
	fset      *token.FileSet
	sizes     types.Sizes
	ssaMu     sync.Mutex
	quoteSym  bool // %q of symbolic text runs strconv.Quote
	noInit    map[string]bool
	rtErrType types.Type

	maxDecisions int
	maxCex       int
	maxSteps     int
	conMax       int
	seed         uint64
	solverName   string
	solverMS     int

	pkgs     map[string]*packages.Package
	ssaPkgs  map[string]*ssa.Package
	built    map[*ssa.Package]bool
	strip    map[string]bool // packages loaded without bodies
	models   map[string]*ssa.Function
	harness  []*ssa.Package
	typeErrs []string
	tier     string
}

// Packages of the standard library and of dependencies whose code is
// executed. Everything else is loaded for its types only; calling into it is
// reported as unsupported unless an intrinsic stands for it.
var execExact = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`
errors bytes strings strconv unicode unicode/utf8 unicode/utf16 sort slices maps iter cmp math math/bits
time context io io/ioutil bufio net/url path path/filepath encoding encoding/base64 encoding/hex encoding/binary encoding/pem
regexp regexp/syntax container/heap container/list container/ring hash hash/crc64 hash/crc32 hash/fnv net/textproto internal/bytealg internal/stringslite
internal/oserror internal/itoa internal/bisect sync sync/atomic fmt text/tabwriter internal/byteorder math/rand internal/fmtsort
github.com/blang/semver
code.cloudfoundry.org/go-orchestrator github.com/prometheus/prometheus/promql github.com/prometheus/prometheus/storage github.com/prometheus/prometheus/pkg/labels
github.com/prometheus/prometheus/pkg/value github.com/prometheus/prometheus/pkg/timestamp github.com/prometheus/prometheus/util/stats github.com/prometheus/prometheus/util/strutil
github.com/prometheus/common/model github.com/go-kit/kit/log github.com/go-kit/kit/log/level github.com/opentracing/opentracing-go github.com/cespare/xxhash
github.com/gorilla/mux github.com/dvsekhvalnov/jose2go github.com/influxdata/go-syslog github.com/influxdata/go-syslog/octetcounting github.com/influxdata/go-syslog/rfc5424 github.com/influxdata/go-syslog/rfc5425
golang.org/x/net/context net/http/internal/ascii
code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2 code.cloudfoundry.org/go-loggregator/conversion code.cloudfoundry.org/go-loggregator/metrics
google.golang.org/grpc/status google.golang.org/grpc/codes google.golang.org/grpc/metadata google.golang.org/grpc/internal
google.golang.org/genproto/googleapis/rpc/status google.golang.org/genproto/googleapis/api/httpbody
github.com/grpc-ecosystem/grpc-gateway/runtime github.com/grpc-ecosystem/grpc-gateway/utilities github.com/grpc-ecosystem/grpc-gateway/internal
code.cloudfoundry.org/go-batching code.cloudfoundry.org/go-diodes code.cloudfoundry.org/rfc5424
code.cloudfoundry.org/tlsconfig github.com/cloudfoundry/gosigar google.golang.org/grpc/internal/grpcsync
github.com/golang/protobuf/ptypes github.com/golang/protobuf/ptypes/any github.com/golang/protobuf/ptypes/duration github.com/golang/protobuf/ptypes/timestamp
github.com/emirpasic/gods/trees/avltree github.com/emirpasic/gods/utils

`) {
		execExact[p] = true
	}
}

// Files of partially executed packages.
var execFiles = map[string]map[string]bool{
	"net/http":                           set("clone.go", "responsecontroller.go", "header.go", "request.go", "status.go", "http.go", "method.go", "cookie.go", "server.go", "response.go", "client.go", "servemux121.go", "pattern.go", "mapping.go", "routing_tree.go", "routing_index.go"),
	"google.golang.org/grpc":             set("rpc_util.go", "interceptor.go", "codec.go", "server.go", "dialoptions.go", "call.go"),
	"net/http/httptest":                  set("recorder.go"),
	"net/http/httputil":                  set("reverseproxy.go"),
	"net/http/httptrace":                 set("trace.go"),
	"mime":                               set("mediatype.go", "grammar.go"),
	"golang.org/x/net/http/httpguts":     set("httplex.go", "guts.go"),
	"github.com/golang/protobuf/proto":   set("lib.go"),
	"crypto/tls":                         set("common.go", "tls.go"),
	"crypto/x509":                        set("cert_pool.go"),
	"google.golang.org/grpc/credentials": set("credentials.go", "tls13.go", "go12.go"),
	"google.golang.org/grpc/credentials/internal": set("syscallconn.go"),
	"io/fs": set("fs.go"),
}

func set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

func (e *Engine) isExec(path string) bool {
	path = strings.TrimPrefix(path, "vendor/")
	return execExact[path] || path == e.modPath || strings.HasPrefix(path, e.modPath+"/") || strings.HasPrefix(path, "zzmodels/")
}

type loadOpts struct {
	repo     string
	modfile  string
	overlay  map[string]string // virtual path -> real file
	patterns []string
	modelSrc map[string]string // import path/file -> file whose declarations are added
}

// modelPrefix starts the name of a function that stands for another of its
// package: zz_model_F for F, zz_model_T__M for method M of *T.
const modelPrefix = "zz_model_"

func (o *loadOpts) modelPkgs() map[string]bool {
	m := map[string]bool{}
	for k := range o.modelSrc {
		m[filepath.Dir(k)] = true
	}
	return m
}

func pkgOfDir(dir string, goroot, modcache, repo, modPath string) string {
	switch {
	case strings.HasPrefix(dir, goroot+"/src/"):
		p := strings.TrimPrefix(dir, goroot+"/src/")
		return strings.TrimPrefix(p, "vendor/")
	case strings.HasPrefix(dir, repo+"/"):
		return modPath + "/" + strings.TrimPrefix(dir, repo+"/")
	case strings.HasPrefix(dir, modcache+"/"):
		p := strings.TrimPrefix(dir, modcache+"/")
		if i := strings.Index(p, "@"); i >= 0 {
			j := strings.Index(p[i:], "/")
			if j < 0 {
				return p[:i]
			}
			return p[:i] + p[i+j:]
		}
	}
	if i := strings.Index(dir, "/stubs/"); i >= 0 {
		return dir[i+len("/stubs/"):]
	}
	return dir
}

func load(o loadOpts) (*Engine, error) {
	e := &Engine{modPath: "code.cloudfoundry.org/log-cache", noInit: map[string]bool{}, pkgs: map[string]*packages.Package{},
		ssaPkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, strip: map[string]bool{}, models: map[string]*ssa.Function{},
		solverName: "cvc5", solverMS: 20000, maxDecisions: 4000, maxCex: 4, maxSteps: 3_000_000, conMax: 600}
	goroot := os.Getenv("GOSYM_GOROOT")
	modcache := os.Getenv("GOSYM_MODCACHE")
	fset := token.NewFileSet()
	ov := map[string][]byte{}
	for v, r := range o.overlay {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     o.repo,
		Fset:    fset,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off"),
	}
	if o.modfile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+o.modfile)
	}
	cfg.ParseFile = func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
		dir := filepath.Dir(filename)
		path := pkgOfDir(dir, goroot, modcache, o.repo, e.modPath)
		keep := e.isExec(path)
		if !keep {
			if m := execFiles[path]; m != nil && m[filepath.Base(filename)] {
				keep = true
			}
		}
		modelAt := -1
		if mf := o.modelSrc[path+"/"+filepath.Base(filename)]; mf != "" {
			// models are written as further declarations of the file
			m, err := os.ReadFile(mf)
			if err != nil {
				return nil, err
			}
			if src == nil {
				if src, err = os.ReadFile(filename); err != nil {
					return nil, err
				}
			}
			_, decls, _ := strings.Cut(string(m), "\n// model\n")
			modelAt = len(src)
			src = append(append([]byte{}, src...), ("\n" + decls)...)
		}
		f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		if f != nil && !keep {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && (modelAt < 0 || fset.Position(fd.Pos()).Offset < modelAt) {
					fd.Body = nil
				}
			}
		}
		return f, err
	}
	initial, err := packages.Load(cfg, o.patterns...)
	if err != nil {
		return nil, err
	}
	e.fset = fset
	// topological order
	var order []*packages.Package
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		order = append(order, p)
	}
	for _, p := range initial {
		visit(p)
	}
	e.prog = ssa.NewProgram(fset, ssa.InstantiateGenerics)
	for _, p := range order {
		if p.Types == nil {
			continue
		}
		e.pkgs[p.PkgPath] = p
		exec := e.isExec(p.PkgPath) || execFiles[strings.TrimPrefix(p.PkgPath, "vendor/")] != nil || o.modelPkgs()[p.PkgPath]
		if e.isExec(p.PkgPath) {
			for _, er := range p.Errors {
				e.typeErrs = append(e.typeErrs, er.Error())
			}
		}
		if p.PkgPath == "unsafe" {
			e.ssaPkgs["unsafe"] = e.prog.CreatePackage(p.Types, nil, nil, true)
			continue
		}
		if exec {
			e.ssaPkgs[p.PkgPath] = e.prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			e.strip[p.PkgPath] = true
			e.noInit[p.PkgPath] = true
			sp := e.prog.CreatePackage(p.Types, nil, nil, true)
			e.ssaPkgs[p.PkgPath] = sp
			e.built[sp] = true
		}
		if e.sizes == nil && p.TypesSizes != nil {
			e.sizes = p.TypesSizes
		}
	}
	for _, p := range initial {
		if sp := e.ssaPkgs[p.PkgPath]; sp != nil {
			e.harness = append(e.harness, sp)
		}
	}
	if e.sizes == nil {
		e.sizes = types.SizesFor("gc", "amd64")
	}
	// run-time errors are values of runtime.errorString-like type
	tn := types.NewTypeName(token.NoPos, types.NewPackage("runtime", "runtime"), "Error", nil)
	nt := types.NewNamed(tn, types.Typ[types.String], nil)
	e.rtErrType = nt
	if rp := e.pkgs["runtime"]; rp != nil {
		if o := rp.Types.Scope().Lookup("plainError"); o != nil {
			e.rtErrType = o.Type()
		}
		if o := rp.Types.Scope().Lookup("errorString"); o != nil {
			e.rtErrType = o.Type()
		}
	}
	e.loadModels()
	return e, nil
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.ssaMu.Lock()
	defer e.ssaMu.Unlock()
	if e.built[p] {
		return
	}
	e.built[p] = true
	p.Build()
}

// buildFor makes sure fn's body exists.
func (e *Engine) buildFor(fn *ssa.Function) {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		p = e.prog.Package(fn.Object().Pkg())
	}
	if p != nil {
		e.buildPkg(p)
	}
}

// stripped reports whether fn's body was removed on purpose.
func (e *Engine) stripped(fn *ssa.Function) bool { return fn.Blocks == nil }

// loadModels finds replacement functions.
func (e *Engine) loadModels() {
	for path, sp := range e.ssaPkgs {
		for name, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, modelPrefix) {
				continue
			}
			t, meth, ok := strings.Cut(name[len(modelPrefix):], "__")
			if ok {
				e.models["(*"+path+"."+t+")."+meth] = f
			} else {
				e.models[path+"."+t] = f
			}
		}
	}
}

func (e *Engine) redirect(name string) *ssa.Function { return e.models[name] }

func (e *Engine) noop(name string) bool {
	for _, p := range noopPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return noopFuncs[name]
}

func (e *Engine) findFunc(pkg, name string) *ssa.Function {
	p := e.ssaPkgs[pkg]
	if p == nil {
		unsup("package %s is not loaded", pkg)
	}
	e.buildPkg(p)
	f := p.Func(name)
	if f == nil {
		unsup("no function %s.%s", pkg, name)
	}
	return f
}

func (e *Engine) typ(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		unsup("package %s is not loaded", pkg)
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		unsup("no type %s.%s", pkg, name)
	}
	return o.Type()
}

func (e *Engine) newW(id int) *W {
	w := &W{eng: e, id: id, tt: NewTermTab(), globals: map[*ssa.Global]*Value{}, pkgSt: map[*ssa.Package]int{},
		mcache: map[mkey]*ssa.Function{}, icache: map[ikey]bool{}, tids: map[types.Type]string{}, touched: map[string]bool{},
		maxSteps: e.maxSteps, conMax: e.conMax, names: map[string]int{}, shadows: map[*Value]*shadow{}, syncVC: map[any]VC{}, side: map[any]any{}}
	var err error
	if w.solver, err = NewSolver(e.solverName, e.solverMS); err != nil {
		panic(err)
	}
	w.now = mkInt(clockStart)
	return w
}
