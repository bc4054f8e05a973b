package main

import (
	"bytes"
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckDoc": CheckDoc, "CheckC": CheckC, "CheckPreamble": CheckPreamble, "CheckFiles": CheckFiles})
	}
}

// comment is one comment of a text.
type comment struct {
	text string
	at   int // column-one comments have a line feed (or nothing) before this place
	line bool
}

// strip is txt without its comments, read as Go or as C. In C a backslash at the end of a line joins it to the next one;
// some compilers end lines at a carriage return as well (cr).
func strip(txt string, c, cr bool) (string, []comment) {
	var out []byte
	var cs []comment
	for i := 0; i < len(txt); {
		if txt[i] != '/' || i+1 >= len(txt) || (txt[i+1] != '/' && txt[i+1] != '*') {
			out = append(out, txt[i])
			i++
			continue
		}
		if txt[i+1] == '*' {
			j := i + 2
			for j+1 < len(txt) && !(txt[j] == '*' && txt[j+1] == '/') {
				j++
			}
			if j+1 >= len(txt) {
				return string(out) + "unterminated comment", cs
			}
			cs = append(cs, comment{txt[i+2 : j], i, false})
			out = append(out, ' ')
			i = j + 2
			continue
		}
		j := i + 2
		for j < len(txt) {
			if txt[j] == '\n' || cr && txt[j] == '\r' {
				k := j - 1
				for k >= i+2 && txt[k] == '\r' {
					k--
				}
				if !c || txt[k] != '\\' {
					break
				}
			}
			j++
		}
		cs = append(cs, comment{txt[i+2 : j], i, true})
		i = j
	}
	return string(out), cs
}

// letters drops line ends and the blanks around them.
func letters(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\n' && s[i] != '\r' && s[i] != ' ' {
			b = append(b, s[i])
		}
	}
	return string(b)
}

const marker = " Code generated by https://git.io/c-for-go. DO NOT EDIT."

// marked reports whether a comment at the start of a line is the one that tools know generated code by.
func marked(txt string, cs []comment) bool {
	for _, c := range cs {
		if c.line && len(c.text) == len(marker) && c.text == marker && (c.at == 0 || txt[c.at-1] == '\n') {
			return true
		}
	}
	return false
}

// carries says that the first comments hold the text.
func carries(cs []comment, text string, msg string) {
	for _, c := range cs {
		if c.line && strings.Contains(c.text, "\n") {
			return // C joins lines
		}
	}
	want := letters(text)
	got := ""
	for _, c := range cs {
		if len(got) < len(want) {
			got += letters(c.text)
		}
	}
	rt.Assert(got == want, msg)
}

const texts = "a*/\n\r\\"

func newTranslator() *tl.Translator {
	return hx.Translator(&tl.Config{Rules: hx.AcceptAll()}, hx.Parse("c14", "typedef void (*cb)(int x);\nvoid f(cb c);\n"))
}

func newGen(cfg *generator.Config, stamp bool) *generator.Generator {
	cfg.PackageName = "pkg"
	g, err := generator.New("pkg", cfg, newTranslator())
	if err != nil {
		panic(err)
	}
	if !stamp {
		g.DisableTimestamps()
	}
	return g
}

// isPackage says that code is the package clause.
func isPackage(code, msg string) {
	rt.Assert(strings.Join(strings.Fields(code), " ") == "package pkg", msg)
}

// The license and the description stay in comments, in full, and the rest is the package clause.
func CheckDoc() {
	n := 4
	if rt.Deep() {
		n = 6
	}
	cfg := &generator.Config{}
	desc := rt.Bool("desc")
	text := rt.Str("text", 0, n, texts)
	other := ""
	if rt.Bool("other") {
		other = "x"
	}
	if desc {
		cfg.PackageDescription, cfg.PackageLicense = text, other
	} else {
		cfg.PackageDescription, cfg.PackageLicense = other, text
	}
	stamp := rt.Bool("stamp")
	g := newGen(cfg, stamp)
	var w bytes.Buffer
	doc := rt.Bool("doc")
	if doc {
		g.WriteDoc(&w)
	} else {
		g.WritePackageHeader(&w)
	}
	txt := w.String()
	code, cs := strip(txt, false, false)
	rt.Reach("doc")
	if !stamp {
		rt.Observe("txt", txt)
	}
	isPackage(code, "text of the license or of the description is outside the comments")
	rt.Assert(marked(txt, cs), "the generated code marker is missing")
	carries(cs, cfg.PackageLicense, "the license is not in the comments as configured")
	if doc && desc {
		// the last comments are the description
		want, got := letters(text), ""
		for i := len(cs) - 1; i >= 0 && len(got) < len(want); i-- {
			got = letters(cs[i].text) + got
		}
		rt.Assert(got == want, "the description is not in the comments as configured")
	}
}

// The license stays in the comments of the C files too, for compilers that end lines at carriage returns and for those
// that do not.
func CheckC() {
	n := 3
	if rt.Deep() {
		n = 4
	}
	cfg := &generator.Config{PackageLicense: rt.Str("text", 0, n, texts)}
	cfg.SysIncludes = []string{"sys.h"}
	cfg.Includes = []string{"inc.h"}
	g := newGen(cfg, rt.Bool("stamp"))
	out := hx.RunWith(g, func(o *hx.Out, nb func() *bytes.Buffer) { g.WriteTypedefs(nb()) })
	cr := rt.Bool("cr")
	rt.Reach("c")
	code, cs := strip(out.CH, true, cr)
	l := hx.Lines(code)
	want := []string{"#include <sys.h>", `#include "inc.h"`, "#include <stdlib.h>", "#pragma once"}
	rt.Assert(len(l) > len(want) && strings.Join(l[:4], "\n") == strings.Join(want, "\n"), "cgo_helpers.h does not start with its includes: "+strings.Join(l, "|"))
	rt.Assert(marked(out.CH, cs), "the generated code marker is missing in cgo_helpers.h")
	carries(cs, cfg.PackageLicense, "the license is not in the comments of cgo_helpers.h")
	code, cs = strip(out.CC, true, cr)
	l = hx.Lines(code)
	rt.Assert(len(l) > 2 && l[0] == `#include "_cgo_export.h"` && l[1] == `#include "cgo_helpers.h"`, "cgo_helpers.c does not start with its includes: "+strings.Join(l, "|"))
	rt.Assert(marked(out.CC, cs), "the generated code marker is missing in cgo_helpers.c")
	carries(cs, cfg.PackageLicense, "the license is not in the comments of cgo_helpers.c")
	code, cs = strip(out.Go, false, false)
	l = hx.Lines(code)
	rt.Assert(len(l) > 0 && l[0] == "package pkg", "cgo_helpers.go does not start with the package clause: "+strings.Join(l, "|"))
	rt.Assert(marked(out.Go, cs), "the generated code marker is missing in cgo_helpers.go")
	carries(cs, cfg.PackageLicense, "the license is not in the comments of cgo_helpers.go")
}

// flag is one flag of a #cgo line.
type flag3 struct{ traits, name, flag string }

// cgoLine reads a line "#cgo [traits] NAME: flags".
func cgoLine(l string) ([]flag3, bool) {
	i := strings.Index(l, ": ")
	if i < 0 {
		return nil, false
	}
	head, flags := strings.Fields(l[:i]), strings.Fields(l[i+2:])
	if len(head) < 2 || head[0] != "#cgo" {
		return nil, false
	}
	var r []flag3
	for _, f := range flags {
		r = append(r, flag3{strings.Join(head[1:len(head)-1], " "), head[len(head)-1], f})
	}
	return r, len(r) > 0
}

// list is a list of up to n words of the letters.
func list(name string, n int, letters string) []string {
	var l []string
	for i := rt.Choice(name+"s", n+1); i > 0; i-- {
		l = append(l, rt.Str(name, 1, 1, letters))
	}
	return l
}

// preamble checks what the text before import "C" configures; it returns what follows.
func preamble(txt string, cfg *generator.Config) string {
	i := strings.Index(txt, "/*\n")
	j := strings.Index(txt, "*/\nimport \"C\"\n")
	rt.Assert(i >= 0 && j > i, "there is no comment right before the import of C")
	var flags []flag3
	var incs []string
	for _, l := range hx.Lines(txt[i+3 : j]) {
		if strings.HasPrefix(l, "#include ") {
			incs = append(incs, strings.TrimPrefix(l, "#include "))
			continue
		}
		fs, ok := cgoLine(l)
		rt.Assert(ok, "a line of the preamble is neither a #cgo line nor an include: "+l)
		flags = append(flags, fs...)
	}
	var want []flag3
	for _, o := range cfg.PkgConfigOpts {
		want = append(want, flag3{"", "pkg-config", o})
	}
	for _, g := range cfg.FlagGroups {
		if g.Name == "" {
			continue
		}
		for _, f := range g.Flags {
			want = append(want, flag3{strings.Join(g.Traits, " "), g.Name, f})
		}
	}
	same := len(flags) == len(want)
	for k := 0; same && k < len(want); k++ {
		same = rt.And(flags[k].traits == want[k].traits, flags[k].name == want[k].name, flags[k].flag == want[k].flag)
	}
	rt.Assert(same, "the flags of the preamble are not the configured ones, once and in order")
	var winc []string
	std := false
	for _, s := range cfg.SysIncludes {
		std = rt.Or(std, s == "stdlib.h")
		winc = append(winc, "<"+s+">")
	}
	for _, s := range cfg.Includes {
		winc = append(winc, "\""+s+"\"")
	}
	if !std {
		winc = append(winc, "<stdlib.h>")
	}
	winc = append(winc, `"cgo_helpers.h"`)
	same = len(incs) == len(winc)
	for k := 0; same && k < len(winc); k++ {
		same = incs[k] == winc[k]
	}
	rt.Assert(same, "the includes of the preamble are not the configured ones, once and in order")
	return txt[j:]
}

// Every flag, package option and include is in the preamble, once and in order.
func CheckPreamble() {
	n := 2
	if rt.Deep() {
		n = 3
	}
	cfg := &generator.Config{}
	if rt.Bool("flags") {
		cfg.PkgConfigOpts = list("opt", 2, "ab")
		for i := rt.Choice("groups", n+1); i > 0; i-- {
			cfg.FlagGroups = append(cfg.FlagGroups, generator.TraitFlagGroup{Name: rt.Str("group", 0, 1, "LC"), Traits: list("trait", 1, "tu"), Flags: list("flag", 2, "xy")})
		}
	} else {
		for i := rt.Choice("syss", n+2); i > 0; i-- {
			cfg.SysIncludes = append(cfg.SysIncludes, rt.Pick("sys", "stdlib.h", "sys/stdlib.h", "stdlib.hpp"))
		}
		for i := rt.Choice("incs", n+2); i > 0; i-- {
			cfg.Includes = append(cfg.Includes, rt.Pick("inc", "stdlib.h", "s.h", "d/t.h"))
		}
	}
	g := newGen(cfg, false)
	var w bytes.Buffer
	g.WriteIncludes(&w)
	txt := w.String()
	rt.Observe("txt", txt)
	rt.Reach("preamble")
	rest := preamble(txt, cfg)
	rt.Assert(strings.Join(hx.Lines(rest), " ") == "*/ import \"C\"", "there is more after the import of C")
}

const src = "#define N 1\ntypedef int t;\nunion u { int a; float b; };\nvoid f(t *p);\n"

// Every Go file that is generated starts with the license, the marker and the package clause; those that use C have the
// preamble, and without cgo no file does.
func CheckFiles() {
	cfg := &generator.Config{PackageName: "pkg", PackageLicense: rt.Pick("license", "", "lic\nense"), PackageDescription: rt.Pick("desc", "", "Package pkg is.")}
	cfg.FlagGroups = []generator.TraitFlagGroup{{Name: "LDFLAGS", Flags: []string{"-lm", "-lx"}}}
	cfg.SysIncludes = []string{"math.h"}
	cfg.Includes = []string{"x.h"}
	tr := hx.Translator(&tl.Config{Rules: hx.AcceptAll(), ConstRules: tl.ConstRules{"defines": "expand"}}, hx.Parse("c14f", src))
	g, err := generator.New("pkg", cfg, tr)
	if err != nil {
		panic(err)
	}
	g.DisableTimestamps()
	nocgo := rt.Bool("nocgo")
	// every file may be one of its own or part of the main one
	p := &Process{cfg: ProcessConfig{Generator: cfg}, gen: g, goBuffers: map[Buf]*bytes.Buffer{BufMain: new(bytes.Buffer), BufHelpers: new(bytes.Buffer)}, chHelpersBuf: new(bytes.Buffer), ccHelpersBuf: new(bytes.Buffer)}
	opts := []Buf{BufDoc, BufConst, BufTypes, BufUnions}
	for i, b := range opts {
		if rt.Bool("own" + string(rune('0'+i))) {
			p.goBuffers[b] = new(bytes.Buffer)
		}
	}
	done := make(chan bool)
	go func() {
		g.MonitorAndWriteHelpers(p.goBuffers[BufHelpers], p.chHelpersBuf, p.ccHelpersBuf)
		close(done)
	}()
	p.Generate(nocgo)
	g.Close()
	<-done
	rt.Reach("files")
	desc := 0
	for _, b := range []Buf{BufMain, BufDoc, BufConst, BufTypes, BufUnions, BufHelpers} {
		w := p.goBuffers[b]
		if w == nil || w.Len() == 0 {
			continue
		}
		txt := w.String()
		code, cs := strip(txt, false, false)
		l := hx.Lines(code)
		rt.Assert(len(l) > 0 && l[0] == "package pkg", "a Go file does not start with the package clause")
		n := 0
		for _, x := range l {
			if strings.HasPrefix(x, "package ") {
				n++
			}
		}
		rt.Assert(n == 1, "a Go file has more than one package clause")
		rt.Assert(marked(txt, cs), "a Go file does not have the generated code marker")
		carries(cs, cfg.PackageLicense, "a Go file does not start with the license")
		if cfg.PackageDescription != "" && strings.Contains(txt, cfg.PackageDescription) {
			desc++
		}
		n = strings.Count(code, `import "C"`)
		switch {
		case b == BufDoc:
			rt.Assert(n == 0 && len(l) == 1, "the doc file has more than the package clause")
		case nocgo && b != BufHelpers:
			rt.Assert(n == 0, "a file without cgo imports C")
		default:
			rt.Assert(n == 1, "a file does not import C once")
			i := strings.Index(txt, "\npackage pkg\n")
			preamble(txt[i:], cfg)
		}
	}
	if cfg.PackageDescription != "" {
		rt.Assert(desc == 1, "the description is not in exactly one file")
	}
}
