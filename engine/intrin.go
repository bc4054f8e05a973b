package main

import (
	"bytes"
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"math/bits"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

// fasts run natively when their arguments are concrete; otherwise the body is interpreted.
var fasts map[string]func(fr *frame, a []Value) (Value, bool)

func hs(v Value) (string, bool) { s, ok := v.(string); return s, ok }
func hi(v Value) (int, bool)    { u, ok := v.(uint64); return int(u), ok }
func hb(v Value) ([]byte, bool) {
	s, ok := v.(sliceV)
	if !ok {
		return nil, false
	}
	r := make([]byte, len(s.a))
	for i, c := range s.a {
		u, ok := c.(uint64)
		if !ok {
			return nil, false
		}
		r[i] = byte(u)
	}
	return r, true
}
func iv(n int) Value { return uint64(int64(n)) }

func strsV(a []string) Value {
	if a == nil {
		return sliceV{}
	}
	r := make([]Value, len(a))
	for i, s := range a {
		r[i] = s
	}
	return sliceV{r}
}

func bytesV(b []byte) Value {
	if b == nil {
		return sliceV{}
	}
	r := make([]Value, len(b))
	for i, c := range b {
		r[i] = byteVals[c]
	}
	return sliceV{r}
}

func (p *Path) mkErr(msg string) ifaceV {
	if p.eng.errorStringT == nil {
		panic(unsupported("errors.errorString not loaded"))
	}
	s := new(Value)
	*s = structV{msg}
	return ifaceV{p.eng.errorStringT, s}
}

func (p *Path) mkErrV(msg Value) ifaceV {
	s := new(Value)
	*s = structV{msg}
	return ifaceV{p.eng.errorStringT, s}
}

func nilErr() Value { return ifaceV{} }

func variadic(v Value) []Value { return v.(sliceV).a }

func init() {
	s1 := func(f func(string) string) func(fr *frame, a []Value) (Value, bool) {
		return func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			if !ok {
				return nil, false
			}
			return f(s), true
		}
	}
	s2s := func(f func(a, b string) string) func(fr *frame, a []Value) (Value, bool) {
		return func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			t, ok2 := hs(a[1])
			if !ok || !ok2 {
				return nil, false
			}
			return f(s, t), true
		}
	}
	s2b := func(f func(a, b string) bool) func(fr *frame, a []Value) (Value, bool) {
		return func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			t, ok2 := hs(a[1])
			if !ok || !ok2 {
				return nil, false
			}
			return f(s, t), true
		}
	}
	s2i := func(f func(a, b string) int) func(fr *frame, a []Value) (Value, bool) {
		return func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			t, ok2 := hs(a[1])
			if !ok || !ok2 {
				return nil, false
			}
			return iv(f(s, t)), true
		}
	}
	fasts = map[string]func(fr *frame, a []Value) (Value, bool){
		"strings.LastIndex":     s2i(strings.LastIndex),
		"strings.Count":         s2i(strings.Count),
		"strings.IndexAny":      s2i(strings.IndexAny),
		"strings.Contains":      s2b(strings.Contains),
		"strings.HasPrefix":     s2b(strings.HasPrefix),
		"strings.HasSuffix":     s2b(strings.HasSuffix),
		"strings.EqualFold":     s2b(strings.EqualFold),
		"strings.ToLower":       s1(strings.ToLower),
		"strings.ToUpper":       s1(strings.ToUpper),
		"strings.Title":         s1(strings.Title),
		"strings.TrimSpace":     s1(strings.TrimSpace),
		"strings.Trim":          s2s(strings.Trim),
		"strings.TrimLeft":      s2s(strings.TrimLeft),
		"strings.TrimRight":     s2s(strings.TrimRight),
		"strings.TrimPrefix":    s2s(strings.TrimPrefix),
		"strings.TrimSuffix":    s2s(strings.TrimSuffix),
		"path/filepath.Base":    s1(filepath.Base),
		"path/filepath.Dir":     s1(filepath.Dir),
		"path/filepath.Clean":   s1(filepath.Clean),
		"path/filepath.ToSlash": s1(filepath.ToSlash),
		"strconv.Quote":         s1(strconv.Quote),
		"strings.Split": func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			t, ok2 := hs(a[1])
			if !ok || !ok2 {
				return nil, false
			}
			return strsV(strings.Split(s, t)), true
		},
		"strings.Fields": func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			if !ok {
				return nil, false
			}
			return strsV(strings.Fields(s)), true
		},
		"strings.ReplaceAll": func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			t, ok2 := hs(a[1])
			u, ok3 := hs(a[2])
			if !ok || !ok2 || !ok3 {
				return nil, false
			}
			return strings.ReplaceAll(s, t, u), true
		},
		"strings.Repeat": func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			n, ok2 := hi(a[1])
			if !ok || !ok2 || n < 0 || n > 1<<20 {
				return nil, false
			}
			fr.p.instrs += int64(n*len(s)) / 16
			return strings.Repeat(s, n), true
		},
		"strings.IndexByte": func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			n, ok2 := hi(a[1])
			if !ok || !ok2 {
				return nil, false
			}
			return iv(strings.IndexByte(s, byte(n))), true
		},
		"strconv.FormatFloat": func(fr *frame, a []Value) (Value, bool) {
			x, ok := a[0].(float64)
			if !ok {
				return nil, false
			}
			return strconv.FormatFloat(x, byte(fr.p.concInt(a[1])), int(int64(fr.p.concInt(a[2]))), int(int64(fr.p.concInt(a[3])))), true
		},
		"strconv.Itoa": func(fr *frame, a []Value) (Value, bool) {
			if t, ok := a[0].(*Term); ok {
				return fr.p.symItoa(t, true), true
			}
			n, ok := hi(a[0])
			return strconv.Itoa(n), ok
		},
		"strconv.FormatInt": func(fr *frame, a []Value) (Value, bool) {
			b, ok2 := hi(a[1])
			if t, ok := a[0].(*Term); ok && ok2 && b == 10 {
				return fr.p.symItoa(t, true), true
			}
			n, ok := hi(a[0])
			if !ok || !ok2 || b < 2 || b > 36 {
				return nil, false
			}
			return strconv.FormatInt(int64(n), b), true
		},
		"strconv.FormatUint": func(fr *frame, a []Value) (Value, bool) {
			b, ok2 := hi(a[1])
			if t, ok := a[0].(*Term); ok && ok2 && b == 10 {
				return fr.p.symItoa(t, false), true
			}
			n, ok := a[0].(uint64)
			if !ok || !ok2 || b < 2 || b > 36 {
				return nil, false
			}
			return strconv.FormatUint(n, b), true
		},
		"unicode.IsLetter": runeFast(unicode.IsLetter), "unicode.IsDigit": runeFast(unicode.IsDigit), "unicode.IsSpace": runeFast(unicode.IsSpace),
		"unicode.IsUpper": runeFast(unicode.IsUpper), "unicode.IsLower": runeFast(unicode.IsLower),
		"unicode/utf8.DecodeRuneInString": func(fr *frame, a []Value) (Value, bool) {
			s, ok := hs(a[0])
			if !ok {
				return nil, false
			}
			r, n := utf8.DecodeRuneInString(s)
			return tupleV{uint64(uint32(r)), uint64(n)}, true
		},
		"bytes.Title": func(fr *frame, a []Value) (Value, bool) {
			b, ok := hb(a[0])
			if !ok {
				return nil, false
			}
			return bytesV(bytes.Title(b)), true
		},
		"bytes.ToLower": func(fr *frame, a []Value) (Value, bool) {
			b, ok := hb(a[0])
			if !ok {
				return nil, false
			}
			return bytesV(bytes.ToLower(b)), true
		},
		"bytes.ToUpper": func(fr *frame, a []Value) (Value, bool) {
			b, ok := hb(a[0])
			if !ok {
				return nil, false
			}
			return bytesV(bytes.ToUpper(b)), true
		},
	}

	ident := func(fr *frame, a []Value) Value { return a[0] }
	nop := func(fr *frame, a []Value) Value { return nil }
	intrinsics = map[string]intrinsic{
		// fmt
		"fmt.Sprintf":  func(fr *frame, a []Value) Value { return fr.p.sprintf(fr, a[0], variadic(a[1])) },
		"fmt.Sprint":   func(fr *frame, a []Value) Value { return fr.p.sprint(fr, variadic(a[0]), false) },
		"fmt.Sprintln": func(fr *frame, a []Value) Value { return fr.p.sprint(fr, variadic(a[0]), true) },
		"fmt.Fprintf":  func(fr *frame, a []Value) Value { return fr.p.fwrite(fr, a[0], fr.p.sprintf(fr, a[1], variadic(a[2]))) },
		"fmt.Fprint":   func(fr *frame, a []Value) Value { return fr.p.fwrite(fr, a[0], fr.p.sprint(fr, variadic(a[1]), false)) },
		"fmt.Fprintln": func(fr *frame, a []Value) Value { return fr.p.fwrite(fr, a[0], fr.p.sprint(fr, variadic(a[1]), true)) },
		"fmt.Printf":   func(fr *frame, a []Value) Value { return tupleV{uint64(0), ifaceV{}} },
		"fmt.Println":  func(fr *frame, a []Value) Value { return tupleV{uint64(0), ifaceV{}} },
		"fmt.Print":    func(fr *frame, a []Value) Value { return tupleV{uint64(0), ifaceV{}} },
		"fmt.Errorf": func(fr *frame, a []Value) Value {
			p := fr.p
			args := variadic(a[1])
			msg := p.sprintf(fr, a[0], args)
			if f, ok := hs(a[0]); ok && strings.Contains(f, "%w") && p.eng.wrapErrorT != nil {
				for _, x := range args {
					if xi, ok := x.(ifaceV); ok && xi.t != nil && p.eng.implements(xi.t, errorIface) {
						s := new(Value)
						*s = structV{msg, xi}
						return ifaceV{p.eng.wrapErrorT, s}
					}
				}
			}
			return p.mkErrV(msg)
		},
		"errors.Is": func(fr *frame, a []Value) Value {
			p := fr.p
			e, t := a[0].(ifaceV), a[1].(ifaceV)
			for e.t != nil {
				if p.isTrue(p.equal(fr, e, t, nil, nil)) {
					return true
				}
				u, ok := p.callUnwrap(fr, e)
				if !ok {
					return false
				}
				e = u
			}
			return t.t == nil
		},
		"log.Printf": nop, "log.Println": nop, "log.Print": nop, "log.SetFlags": nop,
		"log.Fatalln": func(fr *frame, a []Value) Value { panic(&exitErr{1}) },
		"log.Fatalf":  func(fr *frame, a []Value) Value { panic(&exitErr{1}) },
		"log.Fatal":   func(fr *frame, a []Value) Value { panic(&exitErr{1}) },
		"os.Exit":     func(fr *frame, a []Value) Value { panic(&exitErr{int(fr.p.concInt(a[0]))}) },

		// strings and bytes primitives
		"strings.Clone": ident, "internal/stringslite.Clone": ident,
		"internal/bytealg.IndexByte": func(fr *frame, a []Value) Value { return fr.p.indexByte(a[0].(sliceV).a, a[1]) },
		"internal/bytealg.IndexByteString": func(fr *frame, a []Value) Value {
			if s, ok := hs(a[0]); ok {
				if c, ok := hi(a[1]); ok {
					return iv(strings.IndexByte(s, byte(c)))
				}
			}
			return fr.p.indexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Count":       func(fr *frame, a []Value) Value { return fr.p.countByte(a[0].(sliceV).a, a[1]) },
		"internal/bytealg.CountString": func(fr *frame, a []Value) Value { return fr.p.countByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.Equal": func(fr *frame, a []Value) Value {
			return fr.p.strEq(mkStr(a[0].(sliceV).a), mkStr(a[1].(sliceV).a))
		},
		"bytes.Equal": func(fr *frame, a []Value) Value {
			return fr.p.strEq(mkStr(a[0].(sliceV).a), mkStr(a[1].(sliceV).a))
		},
		"internal/bytealg.Compare": func(fr *frame, a []Value) Value {
			return fr.p.compareStr(mkStr(a[0].(sliceV).a), mkStr(a[1].(sliceV).a))
		},
		"internal/bytealg.CompareString": func(fr *frame, a []Value) Value { return fr.p.compareStr(a[0], a[1]) },
		"cmp.Compare[string]":            func(fr *frame, a []Value) Value { return fr.p.compareStr(a[0], a[1]) },
		"strings.Compare":                func(fr *frame, a []Value) Value { return fr.p.compareStr(a[0], a[1]) },
		"internal/bytealg.Index":         func(fr *frame, a []Value) Value { return fr.p.indexStr(a[0].(sliceV).a, a[1].(sliceV).a) },
		"internal/bytealg.IndexString":   func(fr *frame, a []Value) Value { return fr.p.indexStr(strBytes(a[0]), strBytes(a[1])) },
		"internal/bytealg.MakeNoZero": func(fr *frame, a []Value) Value {
			n := int(fr.p.concInt(a[0]))
			r := make([]Value, n, roundup(n))
			for i := range r[:cap(r)] {
				r[:cap(r)][i] = byteVals[0]
			}
			return sliceV{r}
		},
		"internal/abi.NoEscape": ident, "internal/abi.Escape": ident, "strings.noescape": ident,
		"unicode/utf8.ValidString": func(fr *frame, a []Value) Value {
			if s, ok := hs(a[0]); ok {
				return utf8.ValidString(s)
			}
			b, ok := fr.p.asciiOnly(strBytes(a[0]))
			if ok {
				_ = b
				return true
			}
			return utf8.ValidString(fr.p.concStr(a[0]))
		},

		// numbers
		"math.Float64bits":                 func(fr *frame, a []Value) Value { return math.Float64bits(a[0].(float64)) },
		"math.Float64frombits":             func(fr *frame, a []Value) Value { return math.Float64frombits(fr.p.concInt(a[0])) },
		"math.Float32bits":                 func(fr *frame, a []Value) Value { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"math.Float32frombits":             func(fr *frame, a []Value) Value { return float64(math.Float32frombits(uint32(fr.p.concInt(a[0])))) },
		"internal/strconv.float64bits":     func(fr *frame, a []Value) Value { return math.Float64bits(a[0].(float64)) },
		"internal/strconv.float64frombits": func(fr *frame, a []Value) Value { return math.Float64frombits(fr.p.concInt(a[0])) },
		"internal/strconv.float32bits":     func(fr *frame, a []Value) Value { return uint64(math.Float32bits(float32(a[0].(float64)))) },
		"internal/strconv.float32frombits": func(fr *frame, a []Value) Value { return float64(math.Float32frombits(uint32(fr.p.concInt(a[0])))) },
		"math.Inf":                         func(fr *frame, a []Value) Value { return math.Inf(int(fr.p.concInt(a[0]))) },
		"math.IsNaN":                       func(fr *frame, a []Value) Value { return math.IsNaN(a[0].(float64)) },
		"math.IsInf":                       func(fr *frame, a []Value) Value { return math.IsInf(a[0].(float64), int(fr.p.concInt(a[1]))) },
		"math.NaN":                         func(fr *frame, a []Value) Value { return math.NaN() },
		"math.Floor":                       func(fr *frame, a []Value) Value { return math.Floor(a[0].(float64)) },
		"math.Abs":                         func(fr *frame, a []Value) Value { return math.Abs(a[0].(float64)) },
		"math.Sqrt":                        func(fr *frame, a []Value) Value { return math.Sqrt(a[0].(float64)) },
		"math.FMA":                         func(fr *frame, a []Value) Value { return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64)) },
		"math.Ldexp":                       func(fr *frame, a []Value) Value { return math.Ldexp(a[0].(float64), int(int64(fr.p.concInt(a[1])))) },
		"math/bits.Mul64": func(fr *frame, a []Value) Value {
			h, l := bits.Mul64(fr.p.concInt(a[0]), fr.p.concInt(a[1]))
			return tupleV{h, l}
		},
		"hash/crc32.ChecksumIEEE": func(fr *frame, a []Value) Value { return uint64(crc32.ChecksumIEEE([]byte(fr.p.concSlice(a[0])))) },

		// math/rand: the host generator, which a fixed seed makes deterministic
		"math/rand.NewSource": func(fr *frame, a []Value) Value {
			return ifaceV{fr.p.eng.randSrcT, &hostObj{"randsrc", int64(fr.p.concInt(a[0]))}}
		},
		"math/rand.New": func(fr *frame, a []Value) Value {
			seed := a[0].(ifaceV).v.(*hostObj).v.(int64)
			s := new(Value)
			*s = structV{uint64(seed), uint64(0)} // seed and number of draws
			return s
		},
		"(*math/rand.Rand).Int31n": func(fr *frame, a []Value) Value {
			st := (*a[0].(ptr)).(structV)
			seed, n := st[0].(uint64), st[1].(uint64)
			lim := int32(fr.p.concInt(a[1]))
			r := rand.New(rand.NewSource(int64(seed)))
			var v int32
			for i := uint64(0); i <= n; i++ {
				v = r.Int31n(lim)
			}
			st[1] = n + 1
			return uint64(uint32(v))
		},

		// regexp
		"regexp.Compile": func(fr *frame, a []Value) Value {
			src := fr.p.concStr(a[0])
			re, err := regexp.Compile(src)
			if err != nil {
				return tupleV{nilPtr, fr.p.mkErr(err.Error())}
			}
			return tupleV{fr.p.eng.rx(src, re), ifaceV{}}
		},
		"regexp.MustCompile": func(fr *frame, a []Value) Value {
			src := fr.p.concStr(a[0])
			re, err := regexp.Compile(src)
			if err != nil {
				panic(targetPanic{ifaceV{types.Typ[types.String], "regexp: Compile(" + strconv.Quote(src) + "): " + err.Error()}, "regexp.MustCompile"})
			}
			return fr.p.eng.rx(src, re)
		},
		"modernc.org/cc/v4.nodeSource": func(fr *frame, a []Value) Value {
			fr.p.nodeSource(a[0].(ifaceV), a[1].(ptr))
			return nil
		},
		"reflect.TypeOf": func(fr *frame, a []Value) Value {
			x := a[0].(ifaceV)
			if x.t == nil {
				return ifaceV{}
			}
			return ifaceV{types.Typ[types.String], "type:" + x.t.String()}
		},
		"internal/reflectlite.TypeOf": func(fr *frame, a []Value) Value {
			x := a[0].(ifaceV)
			if x.t == nil {
				return ifaceV{}
			}
			return ifaceV{types.Typ[types.String], "type:" + x.t.String()}
		},
		"flag.Bool":   func(fr *frame, a []Value) Value { s := new(Value); *s = a[1]; return s },
		"flag.String": func(fr *frame, a []Value) Value { s := new(Value); *s = a[1]; return s },
		// the arguments that are no switches
		"(*flag.FlagSet).Parse": func(fr *frame, a []Value) Value { fr.p.args = a[1].(sliceV); return ifaceV{} },
		"flag.Args":             func(fr *frame, a []Value) Value { return fr.p.args },
		"strings.Index": func(fr *frame, a []Value) Value {
			if x, ok := hs(a[0]); ok {
				if y, ok := hs(a[1]); ok {
					return iv(strings.Index(x, y))
				}
			}
			return fr.p.indexStr(strBytes(a[0]), strBytes(a[1]))
		},
		"bytes.Index":      func(fr *frame, a []Value) Value { return fr.p.indexStr(a[0].(sliceV).a, a[1].(sliceV).a) },
		"regexp.QuoteMeta": func(fr *frame, a []Value) Value { return regexp.QuoteMeta(fr.p.concStr(a[0])) },
		"regexp.MatchString": func(fr *frame, a []Value) Value {
			src := fr.p.concStr(a[0])
			re, err := regexp.Compile(src)
			if err != nil {
				return tupleV{false, fr.p.mkErr(err.Error())}
			}
			return tupleV{fr.p.rxMatch(rxOf(fr, fr.p.eng.rx(src, re)), a[1]), ifaceV{}}
		},
		"(*regexp.Regexp).String":      func(fr *frame, a []Value) Value { return rxOf(fr, a[0]).src },
		"(*regexp.Regexp).MatchString": func(fr *frame, a []Value) Value { return fr.p.rxMatch(rxOf(fr, a[0]), a[1]) },
		"(*regexp.Regexp).Match":       func(fr *frame, a []Value) Value { return fr.p.rxMatch(rxOf(fr, a[0]), mkStr(a[1].(sliceV).a)) },
		"(*regexp.Regexp).FindAllSubmatchIndex": func(fr *frame, a []Value) Value {
			return fr.p.findAllSub(rxOf(fr, a[0]), a[1].(sliceV).a, int(int64(fr.p.concInt(a[2]))))
		},
		"(*regexp.Regexp).FindAllStringSubmatchIndex": func(fr *frame, a []Value) Value {
			return fr.p.findAllSub(rxOf(fr, a[0]), strBytes(a[1]), int(int64(fr.p.concInt(a[2]))))
		},
		"(*regexp.Regexp).FindSubmatchIndex": func(fr *frame, a []Value) Value {
			return fr.p.findSub(rxOf(fr, a[0]), a[1].(sliceV).a)
		},
		"(*regexp.Regexp).FindStringSubmatchIndex": func(fr *frame, a []Value) Value {
			return fr.p.findSub(rxOf(fr, a[0]), strBytes(a[1]))
		},
		"(*regexp.Regexp).FindStringSubmatch": func(fr *frame, a []Value) Value {
			b := strBytes(a[1])
			m := fr.p.rxExecAny(rxOf(fr, a[0]), b)
			if m == nil {
				return sliceV{}
			}
			r := make([]Value, len(m)/2)
			for i := range r {
				r[i] = ""
				if m[2*i] >= 0 {
					r[i] = mkStr(b[m[2*i]:m[2*i+1]])
				}
			}
			return sliceV{r}
		},
		"(*regexp.Regexp).FindString": func(fr *frame, a []Value) Value {
			b := strBytes(a[1])
			m := fr.p.rxExecAny(rxOf(fr, a[0]), b)
			if m == nil {
				return ""
			}
			return mkStr(b[m[0]:m[1]])
		},
		"(*regexp.Regexp).FindStringIndex": func(fr *frame, a []Value) Value {
			m := fr.p.rxExecAny(rxOf(fr, a[0]), strBytes(a[1]))
			if m == nil {
				return sliceV{}
			}
			return intsV(m[:2])
		},
		"(*regexp.Regexp).SubexpNames": func(fr *frame, a []Value) Value { return strsV(rxOf(fr, a[0]).re.SubexpNames()) },
		"(*regexp.Regexp).NumSubexp":   func(fr *frame, a []Value) Value { return iv(rxOf(fr, a[0]).re.NumSubexp()) },
		"(*regexp.Regexp).Expand": func(fr *frame, a []Value) Value {
			m := intsOf(fr, a[4])
			return sliceV{strBytes(fr.p.rxExpand(rxOf(fr, a[0]), mkStr(a[1].(sliceV).a), fr.p.concStr(mkStr(a[2].(sliceV).a)), a[3].(sliceV).a, m))}
		},
		"(*regexp.Regexp).ExpandString": func(fr *frame, a []Value) Value {
			m := intsOf(fr, a[4])
			return sliceV{strBytes(fr.p.rxExpand(rxOf(fr, a[0]), mkStr(a[1].(sliceV).a), fr.p.concStr(a[2]), strBytes(a[3]), m))}
		},
		"(*regexp.Regexp).ReplaceAllString": func(fr *frame, a []Value) Value {
			r := rxOf(fr, a[0])
			repl := fr.p.concStr(a[2])
			if s, ok := hs(a[1]); ok {
				return r.re.ReplaceAllString(s, repl)
			}
			if b, ok := fr.p.asciiOnly(strBytes(a[1])); ok {
				return fr.p.rxReplaceAll(r, b, repl)
			}
			return r.re.ReplaceAllString(fr.p.concStr(a[1]), repl)
		},
		"(*regexp.Regexp).ReplaceAll": func(fr *frame, a []Value) Value {
			r := rxOf(fr, a[0])
			repl := fr.p.concSlice(a[2])
			if b, ok := fr.p.asciiOnly(a[1].(sliceV).a); ok {
				return sliceV{strBytes(fr.p.rxReplaceAll(r, b, repl))}
			}
			return bytesV(r.re.ReplaceAll([]byte(fr.p.concSlice(a[1])), []byte(repl)))
		},
		"github.com/dlclark/regexp2.Compile": func(fr *frame, a []Value) Value {
			re, err := regexp2.Compile(fr.p.concStr(a[0]), regexp2.RegexOptions(fr.p.concInt(a[1])))
			if err != nil {
				return tupleV{nilPtr, fr.p.mkErr(err.Error())}
			}
			return tupleV{&hostObj{"regexp2", re}, ifaceV{}}
		},
		"github.com/dlclark/regexp2.MustCompile": func(fr *frame, a []Value) Value {
			return &hostObj{"regexp2", regexp2.MustCompile(fr.p.concStr(a[0]), regexp2.RegexOptions(fr.p.concInt(a[1])))}
		},
		"(*github.com/dlclark/regexp2.Regexp).MatchString": func(fr *frame, a []Value) Value {
			re := a[0].(*hostObj).v.(*regexp2.Regexp)
			if _, ok := a[1].(string); !ok && re.RightToLeft() == false {
				// simple patterns mean the same to the standard syntax
				if std, err := regexp.Compile(re.String()); err == nil && plainPattern(re.String()) {
					return tupleV{fr.p.rxMatch(rxOf(fr, fr.p.eng.rx(re.String(), std)), a[1]), ifaceV{}}
				}
			}
			ok, err := re.MatchString(fr.p.concStr(a[1]))
			if err != nil {
				return tupleV{ok, fr.p.mkErr(err.Error())}
			}
			return tupleV{ok, ifaceV{}}
		},

		// sort
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// sync
		"(*sync.Mutex).Lock": lockW, "(*sync.Mutex).Unlock": unlockW, "(*sync.RWMutex).Lock": lockW, "(*sync.RWMutex).Unlock": unlockW,
		"(*internal/sync.Mutex).Lock": lockW, "(*internal/sync.Mutex).Unlock": unlockW,
		"(*sync.Mutex).TryLock": tryLock, "(*sync.RWMutex).TryLock": tryLock,
		"(*sync.RWMutex).RLock": func(fr *frame, a []Value) Value {
			c := lockCell(a[0])
			fr.p.schedPoint(fr)
			fr.p.block(fr, func() bool { return (*c).(uint64) != 1 })
			n := (*c).(uint64)
			if n == 0 {
				n = 1
			}
			*c = n + 1 // 1 is write locked, n+1 means n readers
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(fr *frame, a []Value) Value {
			c := lockCell(a[0])
			n := (*c).(uint64)
			if n < 2 {
				panic(&fatalErr{"sync: RUnlock of unlocked RWMutex"})
			}
			n--
			if n == 1 {
				n = 0
			}
			*c = n
			fr.p.schedPoint(fr)
			return nil
		},
		"(*sync.Once).Do": func(fr *frame, a []Value) Value {
			c := lockCell(a[0])
			if *c == Value(uint64(2)) {
				return nil
			}
			fr.p.block(fr, func() bool { return (*c).(uint64) != 1 })
			if *c == Value(uint64(2)) {
				return nil
			}
			*c = uint64(1)
			defer func() { *c = uint64(2) }()
			fr.p.callFunc(fr, a[1], nil)
			return nil
		},
		"(*sync.WaitGroup).Add": func(fr *frame, a []Value) Value {
			c := lockCell(a[0])
			fr.p.schedPoint(fr)
			n := int64((*c).(uint64)) + int64(fr.p.concInt(a[1]))
			if n < 0 {
				panic(targetPanic{ifaceV{types.Typ[types.String], "sync: negative WaitGroup counter"}, "sync"})
			}
			*c = uint64(n)
			return nil
		},
		"(*sync.WaitGroup).Done": func(fr *frame, a []Value) Value {
			c := lockCell(a[0])
			n := int64((*c).(uint64)) - 1
			if n < 0 {
				panic(targetPanic{ifaceV{types.Typ[types.String], "sync: negative WaitGroup counter"}, "sync"})
			}
			*c = uint64(n)
			fr.p.schedPoint(fr)
			return nil
		},
		"(*sync.WaitGroup).Wait": func(fr *frame, a []Value) Value {
			c := lockCell(a[0])
			fr.p.schedPoint(fr)
			fr.p.block(fr, func() bool { return (*c).(uint64) == 0 })
			return nil
		},
		"(*sync.Pool).Put": nop,
		"(*sync.Pool).Get": func(fr *frame, a []Value) Value {
			st := (*a[0].(ptr)).(structV)
			if f, ok := st[len(st)-1].(*funcV); ok && f != nil {
				return fr.p.callFunc(fr, f, nil)
			}
			return ifaceV{}
		},

		// runtime
		"runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.Gosched": func(fr *frame, a []Value) Value { fr.p.yield(fr); return nil },
		"runtime.GOMAXPROCS":                        func(fr *frame, a []Value) Value { return uint64(1) },
		"runtime.NumCPU":                            func(fr *frame, a []Value) Value { return uint64(1) },
		"runtime.Caller":                            func(fr *frame, a []Value) Value { return tupleV{uint64(0), "file.go", uint64(1), false} },
		"runtime.Callers":                           func(fr *frame, a []Value) Value { return uint64(0) },
		"runtime.FuncForPC":                         func(fr *frame, a []Value) Value { return nilPtr },
		"runtime/debug.Stack":                       func(fr *frame, a []Value) Value { return bytesV([]byte("stack")) },
		"runtime/debug.SetGCPercent":                func(fr *frame, a []Value) Value { return uint64(100) },
		"runtime.memequal":                          func(fr *frame, a []Value) Value { panic(unsupported("memequal")) },
		"internal/godebug.New":                      func(fr *frame, a []Value) Value { s := new(Value); *s = structV{}; return s },
		"(*internal/godebug.Setting).Value":         func(fr *frame, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/race.Acquire":                     nop, "internal/race.Release": nop, "internal/race.ReleaseMerge": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"internal/race.Errors": func(fr *frame, a []Value) Value { return uint64(0) },

		// time: a fixed instant
		"time.Now": func(fr *frame, a []Value) Value {
			s := zero(fr.cfResult(0)).(structV)
			s[1] = uint64(fr.p.clock) // seconds
			return s
		},
		"time.Sleep":       func(fr *frame, a []Value) Value { fr.p.yield(fr); return nil },
		"time.runtimeNano": func(fr *frame, a []Value) Value { return uint64(1) },
		"(time.Time).Format": func(fr *frame, a []Value) Value {
			return fmt.Sprintf("Mon, 01 Jan 2024 00:00:00 UTC+%d", a[0].(structV)[1])
		},
		"(time.Time).String": func(fr *frame, a []Value) Value {
			return fmt.Sprintf("2024-01-01 00:00:00 +0000 UTC+%d", a[0].(structV)[1])
		},

		// environment
		"os.Getenv":    func(fr *frame, a []Value) Value { return "" },
		"os.LookupEnv": func(fr *frame, a []Value) Value { return tupleV{"", false} },
		"os.Getwd":     func(fr *frame, a []Value) Value { return tupleV{fr.p.abs("."), ifaceV{}} },
		"os.Getpid":    func(fr *frame, a []Value) Value { return uint64(1) },
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		sig := w
		for _, pkg := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			intrinsics[pkg+"Load"+ty] = func(fr *frame, a []Value) Value { fr.p.schedPoint(fr); return *fr.ptrArg(a[0]) }
			intrinsics[pkg+"Store"+ty] = func(fr *frame, a []Value) Value { fr.p.schedPoint(fr); *fr.ptrArg(a[0]) = a[1]; return nil }
			intrinsics[pkg+"Swap"+ty] = func(fr *frame, a []Value) Value {
				c := fr.ptrArg(a[0])
				o := *c
				*c = a[1]
				return o
			}
			intrinsics[pkg+"Add"+ty] = func(fr *frame, a []Value) Value {
				c := fr.ptrArg(a[0])
				*c = (fr.p.concInt(*c) + fr.p.concInt(a[1])) & mask(sig)
				return *c
			}
			intrinsics[pkg+"And"+ty] = func(fr *frame, a []Value) Value {
				c := fr.ptrArg(a[0])
				o := *c
				*c = fr.p.concInt(o) & fr.p.concInt(a[1])
				return o
			}
			intrinsics[pkg+"Or"+ty] = func(fr *frame, a []Value) Value {
				c := fr.ptrArg(a[0])
				o := *c
				*c = fr.p.concInt(o) | fr.p.concInt(a[1])
				return o
			}
			intrinsics[pkg+"CompareAndSwap"+ty] = func(fr *frame, a []Value) Value {
				c := fr.ptrArg(a[0])
				if fr.p.isTrue(fr.p.equal(fr, *c, a[1], nil, nil)) {
					*c = a[2]
					return true
				}
				return false
			}
		}
	}
	initRT()
	initOS()
	initCC()
	initYAML()
}

type exitErr struct{ code int }
type fatalErr struct{ msg string }

func (fr *frame) ptrArg(v Value) ptr {
	c, ok := v.(ptr)
	if !ok {
		panic(unsupported("atomic on %T", v))
	}
	if c == nil {
		fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return c
}

func runeFast(f func(rune) bool) func(fr *frame, a []Value) (Value, bool) {
	return func(fr *frame, a []Value) (Value, bool) {
		n, ok := a[0].(uint64)
		if !ok {
			return nil, false
		}
		return f(rune(int32(uint32(n)))), true
	}
}

func cwd() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// cfResult gives the i-th result type of the intrinsic being called; only used for time.Now.
func (fr *frame) cfResult(i int) types.Type { return fr.p.eng.timeT }

func lockW(fr *frame, a []Value) Value {
	c := lockCell(a[0])
	fr.p.schedPoint(fr)
	fr.p.block(fr, func() bool { return (*c).(uint64) == 0 })
	*c = uint64(1)
	return nil
}

func tryLock(fr *frame, a []Value) Value {
	c := lockCell(a[0])
	if (*c).(uint64) != 0 {
		return false
	}
	*c = uint64(1)
	return true
}

func unlockW(fr *frame, a []Value) Value {
	c := lockCell(a[0])
	if (*c).(uint64) != 1 {
		panic(&fatalErr{"sync: unlock of unlocked mutex"})
	}
	*c = uint64(0)
	fr.p.schedPoint(fr)
	return nil
}

func plainPattern(s string) bool { return !strings.Contains(s, "(?") && !strings.Contains(s, "\\") }

func (p *Path) callUnwrap(fr *frame, e ifaceV) (ifaceV, bool) {
	p.eng.ssaMu.Lock()
	sel := p.eng.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Unwrap")
	p.eng.ssaMu.Unlock()
	if sel == nil {
		return ifaceV{}, false
	}
	cf := p.eng.method(e.t, sel.Obj().(*types.Func))
	r, ok := p.call(fr, cf, []Value{e.v}, nil).(ifaceV)
	return r, ok
}

func (p *Path) indexByte(b []Value, c Value) Value {
	ct := p.term(c, 8)
	for i, x := range b {
		if p.isTrue(p.tbBool(p.tb.Eq(p.term(x, 8), ct))) {
			return iv(i)
		}
	}
	return iv(-1)
}

func (p *Path) countByte(b []Value, c Value) Value {
	ct := p.term(c, 8)
	n := p.tb.Const(0, 64)
	for _, x := range b {
		n = p.tb.Bin(OpAdd, n, p.tb.Ite(p.simp(p.tb.Eq(p.term(x, 8), ct)), p.tb.Const(1, 64), p.tb.Const(0, 64)))
	}
	return p.tbInt(n)
}

func (p *Path) compareStr(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return iv(strings.Compare(x, y))
		}
	}
	lt := p.term(p.strLess(a, b), 0)
	eq := p.term(p.strEq(a, b), 0)
	return p.tbInt(p.tb.Ite(lt, p.tb.Const(mask(64), 64), p.tb.Ite(eq, p.tb.Const(0, 64), p.tb.Const(1, 64))))
}

func (p *Path) indexStr(s, sub []Value) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if p.isTrue(p.strEq(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
			return iv(i)
		}
	}
	return iv(-1)
}

func (e *Engine) rx(src string, re *regexp.Regexp) Value {
	if v, ok := e.rxCache.Load(src); ok {
		return &hostObj{"regexp", v}
	}
	v, _ := e.rxCache.LoadOrStore(src, &rxHost{re: re, src: src})
	return &hostObj{"regexp", v}
}

func rxOf(fr *frame, v Value) *rxHost {
	h, ok := v.(*hostObj)
	if !ok {
		fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return h.v.(*rxHost)
}

func (p *Path) findAllSub(r *rxHost, b []Value, n int) Value {
	var ms [][]int
	if h, ok := mkStr(b).(string); ok {
		ms = r.re.FindAllStringSubmatchIndex(h, n)
	} else if bb, ok := p.asciiOnly(b); ok {
		ms = p.rxAll(r, bb, n)
	} else {
		ms = r.re.FindAllStringSubmatchIndex(p.concStr(mkStr(b)), n)
	}
	if ms == nil {
		return sliceV{}
	}
	a := make([]Value, len(ms))
	for i, m := range ms {
		a[i] = intsV(m)
	}
	return sliceV{a}
}

func (p *Path) rxExecAny(r *rxHost, b []Value) []int {
	if h, ok := mkStr(b).(string); ok {
		return r.re.FindStringSubmatchIndex(h)
	}
	if bb, ok := p.asciiOnly(b); ok {
		return p.rxExec(r, bb, 0)
	}
	return r.re.FindStringSubmatchIndex(p.concStr(mkStr(b)))
}

func (p *Path) findSub(r *rxHost, b []Value) Value { return intsV(p.rxExecAny(r, b)) }

func intsOf(fr *frame, v Value) []int {
	s := v.(sliceV)
	r := make([]int, len(s.a))
	for i, x := range s.a {
		r[i] = int(int64(fr.p.concInt(x)))
	}
	return r
}

// sortSlice sorts as sort.Slice does for up to 12 elements (insertion sort); longer slices go through the library's own
// pattern-defeating quicksort.
func sortSlice(fr *frame, a []Value) Value {
	p := fr.p
	s, ok := a[0].(ifaceV).v.(sliceV)
	if !ok {
		panic(unsupported("sort.Slice of %T", a[0].(ifaceV).v))
	}
	less := a[1]
	n := len(s.a)
	swap := func(i, j int) { s.a[i], s.a[j] = s.a[j], s.a[i] }
	if n > 12 {
		sp := p.eng.prog.ImportedPackage("sort")
		fn := sp.Func("pdqsort_func")
		sw := &funcV{host: func(fr *frame, b []Value) Value {
			swap(int(b[0].(uint64)), int(b[1].(uint64)))
			return nil
		}}
		p.call(fr, p.eng.cfuncOf(fn), []Value{structV{less, sw}, uint64(0), uint64(n), uint64(bits.Len(uint(n)))}, nil)
		return nil
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if !p.isTrue(p.callFunc(fr, less, []Value{uint64(j), uint64(j - 1)})) {
				break
			}
			swap(j, j-1)
		}
	}
	return nil
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// prefixIntrinsic models whole packages.
func (e *Engine) prefixIntrinsic(fn *ssa.Function, name string) intrinsic {
	pkg := fnPkg(fn)
	if pkg == nil {
		return nil
	}
	switch pkg.Path() {
	case "github.com/tj/go-spin":
		return func(fr *frame, a []Value) Value {
			if fn.Signature.Results().Len() == 0 {
				return nil
			}
			return zeroResult(fn)
		}
	case "log":
		if fn.Name() == "init" {
			return func(fr *frame, a []Value) Value { return nil }
		}
	}
	return nil
}

var _ = fmt.Sprint
var _ = runtime.GOOS

// nodeSource is the walk of the C front end over a syntax tree, which uses reflection: the fields of a node that are nodes
// themselves, and the tokens among them.
func (p *Path) nodeSource(n ifaceV, out ptr) {
	if n.t == nil {
		return
	}
	node := p.eng.ccNode()
	tokT := node.tok
	t := n.t
	v := n.v
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		q, _ := v.(ptr)
		if q == nil {
			return
		}
		v = *q
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	fields, ok := v.(structV)
	if !ok {
		panic(unsupported("node source of %T", v))
	}
	add := func(tok structV) bool {
		if sq, ok := tok[node.seq].(uint64); !ok || sq == 0 {
			return false
		}
		sl := (*out).(sliceV)
		*out = sliceV{append(sl.a[:len(sl.a):len(sl.a)], copyVal(tok))}
		return true
	}
	if types.Identical(t, tokT) && add(fields) {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		x := ifaceV{f.Type(), fields[i]}
		if types.IsInterface(f.Type()) {
			x = fields[i].(ifaceV)
		}
		if x.t == nil {
			continue
		}
		if strings.HasPrefix(f.Name(), "Token") {
			if types.Identical(x.t, tokT) {
				add(x.v.(structV))
			}
			continue
		}
		if types.Implements(x.t, node.iface) {
			p.nodeSource(x, out)
		}
	}
}

type ccNodeInfo struct {
	iface *types.Interface
	tok   types.Type
	seq   int
}

func (e *Engine) ccNode() *ccNodeInfo {
	e.ccOnce.Do(func() {
		pk := e.prog.ImportedPackage("modernc.org/cc/v4")
		in := &ccNodeInfo{}
		in.iface = pk.Pkg.Scope().Lookup("Node").Type().Underlying().(*types.Interface)
		in.tok = pk.Pkg.Scope().Lookup("Token").Type()
		st := in.tok.Underlying().(*types.Struct)
		in.seq = -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "seq" {
				in.seq = i
			}
		}
		e.ccInfo = in
	})
	if e.ccInfo == nil || e.ccInfo.seq < 0 {
		panic(unsupported("tokens of the C front end"))
	}
	return e.ccInfo
}
