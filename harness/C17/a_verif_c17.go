package main

import (
	"bytes"
	"os"
	"path/filepath"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckFaults": CheckFaults, "CheckContents": CheckContents})
	}
}

// newProcess is a generation step that is ready to be flushed to dir.
func newProcess(name, dir string) *Process {
	cfg := &generator.Config{PackageName: name}
	g, err := generator.New(filepath.Base(name), cfg, hx.Translator(&tl.Config{}, hx.Parse("c17", "int x;\n")))
	if err != nil {
		panic(err)
	}
	var gb, hb, cb bytes.Buffer
	go g.MonitorAndWriteHelpers(&gb, &hb, &cb)
	return &Process{cfg: ProcessConfig{Generator: cfg}, gen: g, goBuffers: map[Buf]*bytes.Buffer{}, chHelpersBuf: new(bytes.Buffer), ccHelpersBuf: new(bytes.Buffer), outputPath: dir}
}

// file is one file that is expected.
type file struct{ path, text string }

// missing is the first file that is not there as expected.
func missing(fs []file) string {
	for _, f := range fs {
		b, err := os.ReadFile(f.path)
		if err != nil || string(b) != f.text {
			return f.path
		}
	}
	return ""
}

var bufs = []struct {
	b    Buf
	name string
}{{BufMain, "pkg"}, {BufDoc, "doc"}, {BufConst, "const"}, {BufTypes, "types"}, {BufUnions, "unions"}, {BufHelpers, "cgo_helpers"}}

// A file that cannot be created, written or closed makes the step report an error.
func CheckFaults() {
	dir := rt.Scratch()
	p := newProcess("pkg", dir)
	at := filepath.Join(dir, "pkg")
	n := 3
	if rt.Deep() {
		n = len(bufs)
	}
	nocgo := rt.Bool("nocgo")
	var want []file
	// the buffers there are: any in a window of the list
	from := rt.Choice("from", len(bufs)-n+1)
	for i := from; i < from+n; i++ {
		b := bufs[i]
		text := ""
		switch rt.Choice("kind", 4) {
		case 0:
			continue
		case 1:
			p.goBuffers[b.b] = new(bytes.Buffer)
			continue
		case 2:
			text = "package " + b.name + "\n"
		case 3:
			text = "!bad " + b.name + "\n" // no Go
		}
		p.goBuffers[b.b] = bytes.NewBufferString(text)
		if b.b != BufMain || !nocgo {
			want = append(want, file{filepath.Join(at, b.name+".go"), text})
		}
	}
	if rt.Bool("ch") {
		p.chHelpersBuf.WriteString("int h;\n")
		if !nocgo {
			want = append(want, file{filepath.Join(at, "cgo_helpers.h"), "int h;\n"})
		}
	}
	if rt.Bool("cc") {
		p.ccHelpersBuf.WriteString("int c;\n")
		if !nocgo {
			want = append(want, file{filepath.Join(at, "cgo_helpers.c"), "int c;\n"})
		}
	}
	for _, op := range []string{"mkdir", "create", "write", "close", "rename"} {
		rt.SetFault(op)
	}
	err := p.Flush(nocgo)
	rt.Reach("flush")
	if rt.Faulted() {
		rt.Reach("fault")
		rt.Assert(err != nil, "a file could not be created, written or closed and success is reported")
		return
	}
	rt.Assert(err == nil, "nothing failed and an error is reported")
	rt.Assert(missing(want) == "", "success is reported and a file is not there as produced")
}

// When nothing fails every buffer is in its file, whatever was there before.
func CheckContents() {
	dir := rt.Scratch()
	name := rt.Pick("package", "pkg", "a/b/pkg", "types", "x/doc", "cgo_helpers")
	p := newProcess(name, dir)
	at := filepath.Join(dir, name)
	old := rt.Bool("old")
	if old {
		if err := os.MkdirAll(at, 0755); err != nil {
			panic(err)
		}
	}
	fill := func(path string) {
		if old {
			if err := os.WriteFile(path, []byte("package old // a longer text than the one that is produced\n"), 0644); err != nil {
				panic(err)
			}
		}
	}
	base := filepath.Base(name)
	var want []file
	for _, b := range bufs {
		text := "package pkg // " + b.name + "\n"
		if rt.Bool("bad") {
			text = "!bad " + b.name + "\n"
		}
		p.goBuffers[b.b] = bytes.NewBufferString(text)
		f := b.name
		if b.b == BufMain {
			f = base
			for _, c := range bufs[1:] {
				if c.name == base {
					f = base + "_main"
				}
			}
		}
		path := filepath.Join(at, f+".go")
		fill(path)
		want = append(want, file{path, text})
	}
	ch, cc := rt.Str("ch", 1, 3, "a-z\n"), rt.Str("cc", 1, 3, "a-z\n")
	p.chHelpersBuf.WriteString(ch)
	p.ccHelpersBuf.WriteString(cc)
	fill(filepath.Join(at, "cgo_helpers.h"))
	fill(filepath.Join(at, "cgo_helpers.c"))
	want = append(want, file{filepath.Join(at, "cgo_helpers.h"), ch}, file{filepath.Join(at, "cgo_helpers.c"), cc})
	err := p.Flush(false)
	rt.Reach("contents")
	rt.Assert(err == nil, "nothing failed and an error is reported")
	rt.Assert(missing(want) == "", "success is reported and a file is not there as produced")
}
