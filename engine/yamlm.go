package main

import (
	"go/types"
	"reflect"
	"strings"

	"gopkg.in/yaml.v2"
)

// initYAML: configuration files are decoded by the real decoder into plain values, which are then stored by the types
// and field tags of the program under test.
func initYAML() {
	intrinsics["gopkg.in/yaml.v2.Unmarshal"] = func(fr *frame, a []Value) Value {
		p := fr.p
		var x yaml.MapSlice
		if err := yaml.Unmarshal([]byte(p.concStr(mkStr(a[0].(sliceV).a))), &x); err != nil {
			return p.mkErr(err.Error())
		}
		out := a[1].(ifaceV)
		to := out.v.(ptr)
		pt, ok := out.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("yaml.Unmarshal into %s", out.t))
		}
		bad := ""
		if v, ok := p.yamlValue(interface{}(x), pt.Elem(), *to, &bad); ok {
			*to = v
		}
		if bad != "" {
			return p.mkErr("yaml: unmarshal errors:\n  " + bad)
		}
		return nilErr()
	}
}

func yamlKey(st *types.Struct, i int) string {
	tag := st.Tag(i)
	v := reflect.StructTag(tag).Get("yaml")
	if v == "" && !strings.Contains(tag, ":") {
		v = tag
	}
	name := strings.Split(v, ",")[0]
	if v == "-" {
		return ""
	}
	if name == "" {
		name = strings.ToLower(st.Field(i).Name())
	}
	return name
}

// yamlValue is x as a value of type t, over the value old; false when nothing is stored.
func (p *Path) yamlValue(x interface{}, t types.Type, old Value, bad *string) (Value, bool) {
	for _, m := range []types.Type{t, types.NewPointer(t)} {
		if obj, _, _ := types.LookupFieldOrMethod(m, true, nil, "UnmarshalYAML"); obj != nil {
			panic(unsupported("UnmarshalYAML of %s", t))
		}
	}
	wrong := func() (Value, bool) {
		*bad = "cannot unmarshal into " + t.String()
		return nil, false
	}
	if x == nil {
		return zero(t), true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		o := zero(u.Elem())
		if q, ok := old.(ptr); ok && q != nil {
			o = *q
		}
		v, ok := p.yamlValue(x, u.Elem(), o, bad)
		if !ok {
			return nil, false
		}
		s := new(Value)
		*s = v
		return s, true
	case *types.Struct:
		l, ok := x.(yaml.MapSlice)
		if !ok {
			return wrong()
		}
		m := map[string]interface{}{}
		for _, it := range l {
			if k, ok := it.Key.(string); ok {
				m[k] = it.Value
			}
		}
		s := copyVal(old).(structV)
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			k := yamlKey(u, i)
			if k == "" {
				continue
			}
			if fx, ok := m[k]; ok {
				if v, ok := p.yamlValue(fx, u.Field(i).Type(), s[i], bad); ok {
					s[i] = v
				}
			}
		}
		return s, true
	case *types.Slice:
		l, ok := x.([]interface{})
		if !ok {
			return wrong()
		}
		r := make([]Value, 0, len(l))
		for _, e := range l {
			if v, ok := p.yamlValue(e, u.Elem(), zero(u.Elem()), bad); ok {
				r = append(r, v)
			}
		}
		return sliceV{r}, true
	case *types.Map:
		l, ok := x.(yaml.MapSlice)
		if !ok {
			return wrong()
		}
		r := newMap(u.Key())
		for _, it := range l {
			kv, ok := p.yamlValue(it.Key, u.Key(), zero(u.Key()), bad)
			if !ok {
				continue
			}
			if v, ok := p.yamlValue(it.Value, u.Elem(), zero(u.Elem()), bad); ok {
				p.mapSet(r, kv, v)
			}
		}
		return r, true
	case *types.Interface:
		var dt types.Type
		empty := types.NewInterfaceType(nil, nil)
		switch x.(type) {
		case string:
			dt = types.Typ[types.String]
		case int:
			dt = types.Typ[types.Int]
		case float64:
			dt = types.Typ[types.Float64]
		case bool:
			dt = types.Typ[types.Bool]
		case []interface{}:
			dt = types.NewSlice(empty)
		case yaml.MapSlice:
			dt = types.NewMap(empty, empty)
		default:
			panic(unsupported("yaml value %T", x))
		}
		v, ok := p.yamlValue(x, dt, zero(dt), bad)
		if !ok {
			return nil, false
		}
		return ifaceV{dt, v}, true
	case *types.Basic:
		ki := basicInfo(t)
		switch v := x.(type) {
		case string:
			if ki.str {
				return v, true
			}
		case bool:
			if ki.boolean {
				return v, true
			}
		case int:
			switch {
			case ki.isInt && (v >= 0 || ki.w == 64) && (ki.w == 64 || v < 1<<(ki.w-1)):
				return uint64(v), true
			case ki.float:
				return float64(v), true
			}
		case float64:
			if ki.float {
				return v, true
			}
		}
		if _, isStr := x.(string); ki.str && !isStr || ki.isInt && !isStr {
			panic(unsupported("yaml value %v as %s", x, t))
		}
	}
	return wrong()
}
