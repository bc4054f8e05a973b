package main

import (
	"bytes"
	"regexp"

	rt "github.com/xlab/c-for-go/verifrt"
)

func CheckRx() {
	name := rt.Str("n", 1, 1, "a-z_") + "GC"
	rx := regexp.MustCompile("([A-Z])$")
	m := rx.FindAllSubmatchIndex([]byte(name), -1)
	rt.Observe("n", len(m))
	rt.Assert(len(m) == 1, "m")
	for _, x := range m {
		rt.Assert(x[0] == 2, "x0")
		rt.Observe("e", string(rx.Expand([]byte{}, []byte("P$1"), []byte(name), x)))
	}
	b := []byte(name)
	c := bytes.ToLower(b[:1])
	rt.Observe("c", string(c))
	rt.Observe("b", string(b))
	rt.Assert(rt.InClass(name, "a-zA-Z_"), "cls")
}
