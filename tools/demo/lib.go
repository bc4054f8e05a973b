package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	"modernc.org/cc/v4"
)

const predef = "typedef unsigned long size_t; int __predefined_declarator;\n#define __SIZE_TYPE__ unsigned long\n"

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fail(f, a...)
	}
}

func parse(files ...string) *cc.AST {
	abi, err := cc.NewABI("linux", "amd64")
	if err != nil {
		panic(err)
	}
	src := []cc.Source{{Name: "<builtin>", Value: predef}}
	if len(files) == 1 {
		files = []string{"/src/inc/test.h", files[0]}
	}
	for i := 0; i+1 < len(files); i += 2 {
		src = append(src, cc.Source{Name: files[i], Value: files[i+1]})
	}
	ast, err := cc.Translate(&cc.Config{ABI: abi}, src)
	if err != nil {
		panic(err)
	}
	return ast
}

func translator(cfg *tl.Config, files ...string) *tl.Translator {
	tr, err := tl.New(cfg)
	if err != nil {
		panic(err)
	}
	if len(files) > 0 {
		tr.Learn(parse(files...))
	}
	return tr
}

func acceptAll() tl.Rules {
	return tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "."}}}
}

type out struct{ Const, Types, Unions, Decls, Go, CH, CC string }

func (o *out) all() string { return o.Const + o.Types + o.Unions + o.Decls + o.Go }

func generate(gcfg *generator.Config, tr *tl.Translator) *out {
	if gcfg == nil {
		gcfg = &generator.Config{}
	}
	if gcfg.PackageName == "" {
		gcfg.PackageName = "pkg"
	}
	gen, err := generator.New(gcfg.PackageName, gcfg, tr)
	if err != nil {
		panic(err)
	}
	return generateOn(gen)
}

func generateOn(gen *generator.Generator) *out {
	gen.DisableTimestamps()
	var b [7]bytes.Buffer
	done := make(chan bool)
	go func() { gen.MonitorAndWriteHelpers(&b[4], &b[5], &b[6]); close(done) }()
	fin := make(chan bool)
	go func() {
		gen.WriteConst(&b[0])
		gen.WriteTypedefs(&b[1])
		gen.WriteUnions(&b[2])
		gen.WriteDeclares(&b[3])
		gen.Close()
		<-done
		close(fin)
	}()
	select {
	case <-fin:
	case <-time.After(60 * time.Second):
		fail("generation does not end")
	}
	return &out{b[0].String(), b[1].String(), b[2].String(), b[3].String(), b[4].String(), b[5].String(), b[6].String()}
}

// line is the first line containing all of parts, trimmed.
func line(s string, parts ...string) string {
next:
	for _, l := range strings.Split(s, "\n") {
		for _, p := range parts {
			if !strings.Contains(l, p) {
				continue next
			}
		}
		return strings.TrimSpace(l)
	}
	return ""
}
