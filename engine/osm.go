package main

import (
	"path/filepath"
	"strings"
)

// scratch is where the harnesses work on files; the native run has a directory of its own in its place.
const scratch = "/verif-scratch"

// fsModel is a small in-memory file system. Each operation of a kind that rt.SetFault names may fail, as the solver
// chooses; at most one fails on a path.
type fsModel struct {
	files map[string]*modelFile
	dirs  map[string]bool
	open  map[ptr]*handle
	fault bool
}

type modelFile struct{ data []Value }

type handle struct {
	name   string
	f      *modelFile
	off    int
	app    bool
	closed bool
}

const (
	eNOENT = 2
	eIO    = 5
	eBADF  = 9
	eEXIST = 17
	eISDIR = 21
	eNOTD  = 20
)

// abs is the clean absolute form of a path.
func (p *Path) abs(name string) string {
	if !filepath.IsAbs(name) {
		wd := p.wd
		if wd == "" {
			wd = cwd()
		}
		name = filepath.Join(wd, name)
	}
	return filepath.Clean(name)
}

func newFS() *fsModel {
	return &fsModel{files: map[string]*modelFile{}, dirs: map[string]bool{"/": true, scratch: true}, open: map[ptr]*handle{}}
}

// fault asks the solver whether operation op on path fails at this point.
func (p *Path) fault(op, path string) bool {
	if !p.faults[op] || p.files.fault {
		return false
	}
	if p.branch(p.newVar(p.freshKey("fault:"+op+":"+path), "b", 0)) {
		p.files.fault = true
		return true
	}
	return false
}

func (p *Path) pathErr(op, path string, errno uint64) Value {
	if p.eng.pathErrorT == nil || p.eng.errnoT == nil {
		panic(unsupported("io/fs.PathError not loaded"))
	}
	s := new(Value)
	*s = structV{op, path, ifaceV{p.eng.errnoT, errno}}
	return ifaceV{p.eng.pathErrorT, s}
}

func (p *Path) fileInfo(name string, dir bool, size int) Value {
	if p.eng.fileStatT == nil {
		panic(unsupported("os.fileStat not loaded"))
	}
	s := new(Value)
	v := zero(p.eng.fileStatElem).(structV)
	v[0] = filepath.Base(name)
	v[1] = uint64(size)
	mode := uint64(0o644)
	if dir {
		mode = 1<<31 | 0o755
	}
	v[2] = mode
	*s = v
	return ifaceV{p.eng.fileStatT, s}
}

func (p *Path) mkdir(path string, all bool) (Value, bool) {
	path = p.abs(path)
	if p.files.files[path] != nil {
		return p.pathErr("mkdir", path, eNOTD), false
	}
	if p.files.dirs[path] {
		if all {
			return nilErr(), true
		}
		return p.pathErr("mkdir", path, eEXIST), false
	}
	if up := filepath.Dir(path); !p.files.dirs[up] {
		if !all {
			return p.pathErr("mkdir", path, eNOENT), false
		}
		if e, ok := p.mkdir(up, true); !ok {
			return e, false
		}
	}
	if p.fault("mkdir", path) {
		return p.pathErr("mkdir", path, eIO), false
	}
	p.files.dirs[path] = true
	return nilErr(), true
}

func (p *Path) openFile(name string, flag uint64) Value {
	const wr, rdwr, app, creat, excl, trunc = 1, 2, 0x400, 0x40, 0x80, 0x200
	orig := name
	name = p.abs(name)
	fail := func(e uint64) Value { return tupleV{nilPtr, p.pathErr("open", orig, e)} }
	if p.fault("create", name) {
		return fail(eIO)
	}
	if p.files.dirs[name] {
		return fail(eISDIR)
	}
	f := p.files.files[name]
	if f == nil {
		if flag&creat == 0 || !p.files.dirs[filepath.Dir(name)] {
			return fail(eNOENT)
		}
		f = &modelFile{}
		p.files.files[name] = f
	} else if flag&creat != 0 && flag&excl != 0 {
		return fail(eEXIST)
	}
	if flag&trunc != 0 {
		f.data = nil
	}
	s := new(Value)
	*s = structV{nilPtr}
	p.files.open[s] = &handle{name: orig, f: f, app: flag&app != 0}
	return tupleV{s, nilErr()}
}

func (p *Path) handle(v Value) *handle {
	h, ok := p.files.open[v.(ptr)]
	if !ok {
		panic(unsupported("file operation on a file the model did not open"))
	}
	return h
}

func (p *Path) writeFile(h *handle, b []Value) Value {
	if h.closed {
		return tupleV{uint64(0), p.pathErr("write", h.name, eBADF)}
	}
	if len(b) > 0 && p.fault("write", p.abs(h.name)) {
		return tupleV{uint64(0), p.pathErr("write", h.name, eIO)}
	}
	if h.app {
		h.off = len(h.f.data)
	}
	for i, x := range b {
		if h.off+i < len(h.f.data) {
			h.f.data[h.off+i] = x
		} else {
			h.f.data = append(h.f.data, x)
		}
	}
	h.off += len(b)
	return tupleV{uint64(len(b)), nilErr()}
}

func (p *Path) stat(name string) Value {
	c := p.abs(name)
	if p.files.dirs[c] {
		return tupleV{p.fileInfo(c, true, 0), nilErr()}
	}
	if f := p.files.files[c]; f != nil {
		return tupleV{p.fileInfo(c, false, len(f.data)), nilErr()}
	}
	return tupleV{ifaceV{}, p.pathErr("stat", name, eNOENT)}
}

func (p *Path) readFile(name string) Value {
	f := p.files.files[p.abs(name)]
	if f == nil {
		return tupleV{sliceV{}, p.pathErr("open", name, eNOENT)}
	}
	return tupleV{sliceV{append([]Value{}, f.data...)}, nilErr()}
}

func initOS() {
	path := func(fr *frame, v Value) string { return fr.p.concStr(v) }
	mkdir := func(all bool) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value { e, _ := fr.p.mkdir(path(fr, a[0]), all); return e }
	}
	stat := func(fr *frame, a []Value) Value { return fr.p.stat(path(fr, a[0])) }
	// formatting Go: texts that hold "!bad" are no Go; all others are taken to be formatted already
	format := func(i int) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			if !a2ok(fr, a[i]) {
				return tupleV{sliceV{}, fr.p.mkErr("expected declaration")}
			}
			return tupleV{sliceV{append([]Value{}, a[i].(sliceV).a...)}, nilErr()}
		}
	}
	fs := map[string]func(fr *frame, a []Value) Value{
		"os.MkdirAll": mkdir(true), "os.Mkdir": mkdir(false),
		"os.OpenFile": func(fr *frame, a []Value) Value {
			return fr.p.openFile(path(fr, a[0]), uint64(fr.p.concInt(a[1])))
		},
		"os.Stat": stat, "os.Lstat": stat,
		"os.ReadFile": func(fr *frame, a []Value) Value { return fr.p.readFile(path(fr, a[0])) },
		"(*os.File).Write": func(fr *frame, a []Value) Value {
			return fr.p.writeFile(fr.p.handle(a[0]), a[1].(sliceV).a)
		},
		"(*os.File).WriteString": func(fr *frame, a []Value) Value {
			return fr.p.writeFile(fr.p.handle(a[0]), strBytes(a[1]))
		},
		"(*os.File).Name": func(fr *frame, a []Value) Value { return fr.p.handle(a[0]).name },
		"(*os.File).Sync": func(fr *frame, a []Value) Value { return nilErr() },
		"(*os.File).Close": func(fr *frame, a []Value) Value {
			h := fr.p.handle(a[0])
			if h.closed {
				return fr.p.pathErr("close", h.name, eBADF)
			}
			h.closed = true
			if fr.p.fault("close", fr.p.abs(h.name)) {
				return fr.p.pathErr("close", h.name, eIO)
			}
			return nilErr()
		},
		"os.Rename": func(fr *frame, a []Value) Value {
			from, to := fr.p.abs(path(fr, a[0])), fr.p.abs(path(fr, a[1]))
			f := fr.p.files.files[from]
			if f == nil {
				return fr.p.pathErr("rename", from, eNOENT)
			}
			if fr.p.fault("rename", from) {
				return fr.p.pathErr("rename", from, eIO)
			}
			delete(fr.p.files.files, from)
			fr.p.files.files[to] = f
			return nilErr()
		},
		"os.Remove": func(fr *frame, a []Value) Value {
			n := fr.p.abs(path(fr, a[0]))
			if fr.p.files.files[n] == nil {
				return fr.p.pathErr("remove", n, eNOENT)
			}
			delete(fr.p.files.files, n)
			return nilErr()
		},
		"golang.org/x/tools/imports.Process": format(1),
		"go/format.Source":                   format(0),
	}
	for k, f := range fs {
		intrinsics[k] = f
	}
}

func a2ok(fr *frame, v Value) bool {
	return !strings.Contains(fr.p.concStr(mkStr(v.(sliceV).a)), "!bad")
}
