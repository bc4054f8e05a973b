package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/xlab/c-for-go"

type Engine struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	main    *ssa.Package
	cfuncs  sync.Map
	methods sync.Map
	impls   sync.Map
	rxCache sync.Map
	encoded sync.Map
	ssaMu   sync.Mutex

	base     *baseState
	shared   *sharedSet
	initT    *template
	ccOnce   sync.Once
	ccInfo   *ccNodeInfo
	onceMu   sync.Mutex
	onces    map[string]*onceEntry
	initNote []string

	runtimeErrType types.Type
	errorStringT   types.Type
	wrapErrorT     types.Type
	timeT          types.Type
	randSrcT       types.Type
	pathErrorT     types.Type
	errnoT         types.Type
	fileStatT      types.Type
	fileStatElem   types.Type
}

type baseState struct {
	globals map[*ssa.Global]ptr
}

type onceEntry struct {
	once   sync.Once
	t      *template
	err    any
	instrs int64
}

func (e *Engine) isRepoPkg(path string) bool {
	return path == repoPath || strings.HasPrefix(path, repoPath+"/")
}

func (e *Engine) perPath(pkg *ssa.Package) bool { return e.isRepoPkg(pkg.Pkg.Path()) }

func (e *Engine) buildFn(fn *ssa.Function) {
	if fn.Blocks != nil {
		return
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
		return
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

var initStd = map[string]bool{"io": true, "io/fs": true, "bytes": true, "strings": true, "strconv": true, "internal/strconv": true, "unicode": true,
	"unicode/utf8": true, "unicode/utf16": true, "sort": true, "slices": true, "path": true, "path/filepath": true, "math": true, "math/big": true,
	"math/bits": true, "bufio": true, "internal/oserror": true, "encoding/binary": true, "internal/filepathlite": true, "internal/stringslite": true, "text/tabwriter": true}

func initAllowed(path string) bool {
	if initStd[path] {
		return true
	}
	if i := strings.IndexByte(path, '/'); i > 0 {
		path = path[:i]
	}
	return path == "modernc.org" || path == "github.com"
}

func (e *Engine) skipInit(fn *ssa.Function) bool {
	if fn.Pkg != nil && fn.Pkg == e.main && !strings.Contains(fn.Pkg.Pkg.Path(), "/verifharness/") && strings.HasPrefix(fn.Name(), "init#") {
		return true // of the command: it reads the command line
	}
	if fn.Synthetic != "package initializer" || fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	if strings.HasPrefix(p, "github.com/dlclark/") || strings.HasPrefix(p, "github.com/tj/") {
		return true
	}
	return !initAllowed(p) && !e.isRepoPkg(p)
}

func load(dir, pattern string, overlay map[string][]byte) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: pkgs, onces: map[string]*onceEntry{}}
	for _, p := range pkgs {
		if p != nil {
			e.main = p
		}
	}
	if e.main == nil {
		return nil, fmt.Errorf("no package")
	}
	lookup := func(pkg, name string) types.Type {
		p := prog.ImportedPackage(pkg)
		if p == nil {
			return nil
		}
		o := p.Pkg.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	ptrTo := func(t types.Type) types.Type {
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	e.errorStringT = ptrTo(lookup("errors", "errorString"))
	e.wrapErrorT = ptrTo(lookup("fmt", "wrapError"))
	e.timeT = lookup("time", "Time")
	e.randSrcT = lookup("math/rand", "rngSource")
	e.pathErrorT = ptrTo(lookup("io/fs", "PathError"))
	e.errnoT = lookup("syscall", "Errno")
	e.fileStatElem = lookup("os", "fileStat")
	e.fileStatT = ptrTo(e.fileStatElem)
	e.runtimeErrType = lookup("runtime", "errorString")
	if e.runtimeErrType == nil {
		e.runtimeErrType = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil)
	}
	return e, nil
}

// initialise runs the package initialisers concretely and freezes the result.
func (e *Engine) initialise() error {
	p := e.newPath(nil)
	p.concrete, p.inInit = true, true
	p.maxInstrs = 1 << 40
	p.initSched()
	e.main.Build()
	err := protectHost(func() { p.call(nil, e.cfuncOf(e.main.Func("init")), nil, nil) })
	if err != nil {
		return fmt.Errorf("package initialisation: %v", err)
	}
	shared := map[*ssa.Global]ptr{}
	own := map[*ssa.Global]ptr{}
	for g, s := range p.globals {
		if e.perPath(g.Pkg) {
			own[g] = s
		} else {
			shared[g] = s
		}
	}
	e.base = &baseState{globals: shared}
	c := newCollector(nil)
	for _, s := range shared {
		c.addRange(sliceFrom(s, 1))
	}
	c.run()
	e.shared = &sharedSet{ranges: mergeRanges(c.raw)}
	for i := range e.shared.ranges {
		r := &e.shared.ranges[i]
		r.keep = sliceFrom(at(r.addr), r.n)
	}
	for _, m := range c.mlist {
		m.frozen = true
	}
	e.initT = freeze(e.shared, nil, own)
	return nil
}

// protectHost runs f and returns what it panicked with, as an error.
func protectHost(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case targetPanic:
				err = fmt.Errorf("panic in %s: %v", r.where, r.v.v)
			case *pathAbort:
				err = fmt.Errorf("%s", r.msg)
			case *deadlockErr:
				err = fmt.Errorf("%s", r.msg)
			case error:
				err = r
			default:
				err = fmt.Errorf("%v", r)
			}
		}
	}()
	f()
	return nil
}

func (e *Engine) newPath(w *Worker) *Path {
	p := &Path{eng: e, w: w, tb: NewTermBuilder(), globals: map[*ssa.Global]ptr{}, known: map[*Term]bool{}, nameCnt: map[string]int{}, concVals: map[*Term]uint64{}, dom: map[*Term]*domain{}, prunedSet: map[*Term]bool{}, tangled: map[*Term]bool{},
		reached: map[string]bool{}, model: map[string]uint64{}, maxInstrs: 400e6, killed: make(chan struct{}), faults: map[string]bool{}, env: map[string]string{}, programs: map[string]program{}, fronts: map[ptr]*frontEnd{}}
	p.files = newFS()
	if w != nil {
		p.solver = w.solver
	}
	return p
}

// onceTemplate runs f once, concretely, for all paths, and gives every path its own copy of the result and of the
// repository's globals as f left them.
func (p *Path) onceTemplate(fr *frame, key string, f Value) Value {
	if p.concrete {
		return p.callFunc(fr, f, nil)
	}
	e := p.eng
	e.onceMu.Lock()
	en := e.onces[key]
	if en == nil {
		en = &onceEntry{}
		e.onces[key] = en
	}
	e.onceMu.Unlock()
	en.once.Do(func() {
		q := e.newPath(nil)
		q.concrete = true
		q.maxInstrs = 4e9
		q.initSched()
		_, q.globals = e.initT.instantiate()
		var r Value
		func() {
			defer func() {
				if x := recover(); x != nil {
					en.err = x
				}
			}()
			nf := &frame{p: q, g: q.main, cf: &cfunc{name: "once"}}
			r = q.callFunc(nf, f, nil)
		}()
		q.killGors()
		en.instrs = q.instrs
		if en.err == nil {
			en.t = freeze(e.shared, r, q.globals)
		}
	})
	if en.err != nil {
		switch x := en.err.(type) {
		case targetPanic:
			panic(x)
		default:
			panic(unsupported("once %s: %v", key, errText(x)))
		}
	}
	r, g := en.t.instantiate()
	p.globals = g
	p.instrs += int64(en.t.cells) / 4
	return r
}

func errText(x any) string {
	switch r := x.(type) {
	case *pathAbort:
		return r.msg
	case *unsupportedErr:
		return r.msg
	case error:
		return r.Error()
	}
	return fmt.Sprint(x)
}
