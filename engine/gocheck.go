package main

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return nil, errors.New("not imported")
}

// goErrors is what the Go type checker says about a package of these files, other than about what is imported and
// about cgo: each error as text.
func goErrors(files ...string) []string {
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, src := range files {
		f, err := parser.ParseFile(fset, "", src, parser.SkipObjectResolution)
		if err != nil {
			return []string{"syntax: " + err.Error()}
		}
		fs = append(fs, f)
	}
	return goCheck(fset, fs)
}

func goCheck(fset *token.FileSet, fs []*ast.File) []string {
	var msgs []string
	conf := types.Config{FakeImportC: true, Importer: noImporter{}, Error: func(err error) {
		m := err.Error()
		if e, ok := err.(types.Error); ok {
			m = e.Msg
		}
		if strings.HasPrefix(m, "could not import") || strings.Contains(m, "imported and not used") || strings.HasPrefix(m, "\t") {
			return
		}
		for _, x := range msgs {
			if x == m {
				return
			}
		}
		msgs = append(msgs, m)
	}}
	conf.Check("pkg", fset, fs, nil)
	return msgs
}

// closure is the text of a function or type of a package of these files together with all it takes from the
// package, where the names of other functions, of constants and of variables do not matter.
func closure(root string, files ...string) string {
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, src := range files {
		f, err := parser.ParseFile(fset, "", src, parser.SkipObjectResolution)
		if err != nil {
			return "syntax: " + err.Error()
		}
		fs = append(fs, f)
	}
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{FakeImportC: true, Importer: noImporter{}, Error: func(error) {}}
	pkg, _ := conf.Check("pkg", fset, fs, info)
	nodes := map[types.Object]ast.Node{}
	methods := map[types.Object][]types.Object{}
	for _, f := range fs {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
				o := info.Defs[d.Name]
				nodes[o] = d
				if d.Recv == nil || len(d.Recv.List) != 1 {
					continue
				}
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					methods[info.Uses[id]] = append(methods[info.Uses[id]], o)
				}
			case *ast.GenDecl:
				d.Doc = nil
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						s.Doc, s.Comment = nil, nil
						nodes[info.Defs[s.Name]] = s
					case *ast.ValueSpec:
						s.Doc, s.Comment = nil, nil
						for _, n := range s.Names {
							nodes[info.Defs[n]] = s
						}
					}
				}
			}
		}
	}
	var order []types.Object
	index := map[types.Object]int{}
	locals := map[types.Object]int{}
	use := func(o types.Object) {
		if _, ok := index[o]; !ok && o != nil && nodes[o] != nil {
			index[o] = len(order)
			order = append(order, o)
		}
	}
	if pkg != nil {
		use(pkg.Scope().Lookup(root))
	}
	var b strings.Builder
	for i := 0; i < len(order); i++ {
		ms := methods[order[i]]
		sort.Slice(ms, func(i, j int) bool { return ms[i].Name() < ms[j].Name() })
		for _, m := range ms {
			use(m)
		}
		ast.Inspect(nodes[order[i]], func(n ast.Node) bool {
			if f, ok := n.(*ast.Field); ok {
				f.Doc, f.Comment = nil, nil
			}
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := info.Uses[id]
			if o == nil {
				o = info.Defs[id]
			}
			if o == nil {
				return true
			}
			if v, ok := o.(*types.Var); ok && !v.IsField() && (pkg == nil || v.Parent() != pkg.Scope()) {
				if _, ok := locals[v]; !ok {
					locals[v] = len(locals)
				}
				id.Name = "local" + strconv.Itoa(locals[v])
				return true
			}
			use(o)
			k, ok := index[o]
			if _, isType := o.(*types.TypeName); !ok || k == 0 || isType {
				return true
			}
			if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() != nil {
				return true
			}
			id.Name = "name" + strconv.Itoa(k)
			return true
		})
		printer.Fprint(&b, fset, nodes[order[i]])
		b.WriteString("\n")
	}
	return b.String()
}

// cgoErrors is what the Go type checker says about a package of these files where C.name is what the stub declares as
// _C_name; proxies of callbacks and what a file exports need no declaration.
func cgoErrors(stub string, files ...string) []string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", "package pkg\nimport \"unsafe\"\nvar _ unsafe.Pointer\n"+stub, parser.SkipObjectResolution)
	if err != nil {
		return []string{"stub: " + err.Error()}
	}
	fs := []*ast.File{f}
	proxies := map[string]bool{}
	for _, src := range files {
		f, err := parser.ParseFile(fset, "", src, parser.SkipObjectResolution)
		if err != nil {
			return []string{"syntax: " + err.Error()}
		}
		for i, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				if s := g.Specs[0].(*ast.ImportSpec); s.Path.Value == "\"C\"" {
					s.Name = ast.NewIdent("_")
					s.Path.Value = "\"unsafe\""
					f.Decls[i] = g
				}
			}
		}
		rewriteC(f, proxies)
		fs = append(fs, f)
	}
	if len(proxies) > 0 {
		var names []string
		for n := range proxies {
			names = append(names, n)
		}
		sort.Strings(names)
		f, err := parser.ParseFile(fset, "", "package pkg\nimport \"unsafe\"\nvar "+strings.Join(names, ", ")+" unsafe.Pointer\n", parser.SkipObjectResolution)
		if err != nil {
			return []string{"stub: " + err.Error()}
		}
		fs = append(fs, f)
	}
	return goCheck(fset, fs)
}

// rewriteC makes names of the package of what is taken from C, and collects the proxies of callbacks.
func rewriteC(n ast.Node, proxies map[string]bool) {
	var rewrite func(e *ast.Expr)
	var value func(v reflect.Value)
	seen := map[interface{}]bool{}
	rewrite = func(e *ast.Expr) {
		s, ok := (*e).(*ast.SelectorExpr)
		if !ok {
			return
		}
		if x, ok := s.X.(*ast.Ident); ok && x.Name == "C" {
			name := "_C_" + s.Sel.Name
			if k := strings.LastIndexByte(name, '_'); len(name)-k == 9 && strings.Trim(name[k+1:], "0123456789abcdef") == "" {
				proxies[name] = true
			}
			*e = &ast.Ident{NamePos: s.Pos(), Name: name}
		}
	}
	value = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Interface()] {
				return
			}
			if _, ok := v.Interface().(*ast.Object); ok {
				return
			}
			seen[v.Interface()] = true
			value(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			if e, ok := v.Addr().Interface().(*ast.Expr); ok {
				rewrite(e)
			}
			value(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				value(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				value(v.Field(i))
			}
		}
	}
	value(reflect.ValueOf(n))
}
