package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"path/filepath"
	"regexp"
	"strings"
)

// The C front end as the parser package uses it: what it is asked to translate is recorded, headers are followed, and
// the declarations "extern int NAME;" they hold are listed. The host compiler and the preprocessor are stand-ins.
type frontEnd struct {
	predefined Value
	marks      []string
	texts      []Value // file names and texts, in the order they are read
}

type program struct {
	macros, search string
	ok             bool
}

// ccField is the field of a configuration of the C front end.
func (p *Path) ccField(v Value, name string) Value {
	st := p.eng.prog.ImportedPackage("modernc.org/cc/v4").Pkg.Scope().Lookup("Config").Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return (*v.(ptr)).(structV)[i]
		}
	}
	panic(unsupported("field " + name))
}

// follow reads one header; it reports the first thing that cannot be found.
func (p *Path) follow(fe *frontEnd, name string, inc, sys []string, depth int) string {
	c := p.abs(name)
	f := p.files.files[c]
	if f == nil || depth > 20 {
		return "open " + name + ": no such file"
	}
	text := p.concStr(mkStr(f.data))
	defer func() {
		text = includeRx.ReplaceAllString(text, "")
		fe.texts = append(fe.texts, name, text)
	}()
	for _, ln := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(ln, "extern int "):
			fe.marks = append(fe.marks, strings.TrimSuffix(strings.TrimPrefix(ln, "extern int "), ";"))
		case strings.HasPrefix(ln, "#include "):
			arg := strings.TrimSpace(strings.TrimPrefix(ln, "#include "))
			dirs := inc
			if arg[0] == '<' {
				dirs = sys
			}
			arg = arg[1 : len(arg)-1]
			found := false
			for _, d := range dirs {
				if (d == "" || d == "@") && len(dirs) == len(inc) {
					d = filepath.Dir(c)
				}
				if at := filepath.Join(d, arg); p.files.files[p.abs(at)] != nil {
					if e := p.follow(fe, at, inc, sys, depth+1); e != "" {
						return e
					}
					found = true
					break
				}
			}
			if !found {
				return "include file not found: " + arg
			}
		}
	}
	return ""
}

// translate runs the real front end on what was read, once for each text.
func (p *Path) translate(fr *frame, fe *frontEnd, cfg Value) Value {
	abi := *p.ccField(cfg, "ABI").(ptr)
	st := p.eng.prog.ImportedPackage("modernc.org/cc/v4").Pkg.Scope().Lookup("ABI").Type().Underlying().(*types.Struct)
	goos, goarch := "", ""
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "goos":
			goos = p.concStr(abi.(structV)[i])
		case "goarch":
			goarch = p.concStr(abi.(structV)[i])
		}
	}
	files := append([]Value{"<predefined>", p.concStr(fe.predefined) + "\n"}, fe.texts...)
	h := sha256.New()
	for _, f := range files {
		fmt.Fprintf(h, "%q", f)
	}
	fn := p.eng.prog.ImportedPackage(hxPkg).Func("ParseFiles")
	keep := p.globals // the front end changes none of them
	ast := p.callFunc(fr, &funcV{fn: fn}, []Value{fmt.Sprintf("run:%x", h.Sum(nil)), goos, goarch, sliceV{files}})
	p.globals = keep
	return ast
}

func (p *Path) strs(v Value) []string {
	var r []string
	for _, x := range v.(sliceV).a {
		r = append(r, p.concStr(x))
	}
	return r
}

var (
	frontEndOn bool // the check models the C front end
	wholeRun   bool // the trees are made by the real one all the same
	includeRx  = regexp.MustCompile(`(?m)^#include .*$`)
	frontEnds  = map[string]intrinsic{}
)

func initCC() {
	fs := map[string]func(fr *frame, a []Value) Value{
		"modernc.org/cc/v4.newConfig": func(fr *frame, a []Value) Value {
			return tupleV{"cc", "#define HOST_MACRO 1", sliceV{}, sliceV{}, (*mapV)(nil), nilErr()}
		},
		"modernc.org/cc/v4.Translate": func(fr *frame, a []Value) Value {
			p := fr.p
			fe := &frontEnd{predefined: ""}
			seen := map[string]bool{}
			inc := p.strs(p.ccField(a[0], "IncludePaths"))
			sys := p.strs(p.ccField(a[0], "SysIncludePaths"))
			for _, s := range a[1].(sliceV).a {
				sv := s.(structV)
				name := p.concStr(sv[0])
				if seen[name] {
					return tupleV{nilPtr, p.mkErr("duplicate source name: " + name)}
				}
				seen[name] = true
				if val := sv[1].(ifaceV); val.t != nil {
					if name == "<predefined>" {
						fe.predefined = val.v
					}
					continue
				}
				if e := p.follow(fe, name, inc, sys, 0); e != "" {
					return tupleV{nilPtr, p.mkErr(e)}
				}
			}
			if wholeRun {
				return tupleV{p.translate(fr, fe, a[0]), nilErr()}
			}
			ast := new(Value)
			*ast = structV{}
			p.fronts[ast] = fe
			return tupleV{ast, nilErr()}
		},
		"os/exec.Command": func(fr *frame, a []Value) Value {
			c := new(Value)
			*c = structV{a[0], a[1]}
			return c
		},
	}
	run := func(fr *frame, a []Value) Value {
		p := fr.p
		c := (*a[0].(ptr)).(structV)
		name := p.concStr(c[0])
		args := p.strs(c[1])
		pr, ok := p.programs[name]
		if !ok {
			return tupleV{sliceV{}, p.mkErr("exec: " + name + ": executable file not found in $PATH")}
		}
		if !pr.ok || len(args) == 0 {
			return tupleV{sliceV{}, p.mkErr("exit status 1")}
		}
		out := ""
		switch args[0] {
		case "-dM":
			out = pr.macros
		case "-v":
			out = pr.search
		}
		return tupleV{sliceV{strBytes(out)}, nilErr()}
	}
	fs["(*os/exec.Cmd).CombinedOutput"] = run
	fs["(*os/exec.Cmd).Output"] = run
	fs["os.Getenv"] = func(fr *frame, a []Value) Value { return fr.p.env[fr.p.concStr(a[0])] }
	fs["os.LookupEnv"] = func(fr *frame, a []Value) Value {
		v, ok := fr.p.env[fr.p.concStr(a[0])]
		return tupleV{v, ok}
	}
	for k, f := range fs {
		frontEnds[k] = f
	}
}
