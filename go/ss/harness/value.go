package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"vsim/schema"
)

var (
	decType  = reflect.TypeOf(decimal.Decimal{})
	timeType = reflect.TypeOf(hbuf.Time{})
)

// structured says whether values of a Go type are kept as J.
func structured(t reflect.Type) bool {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Map:
		return true
	case reflect.Struct:
		return t != decType && t != timeType
	}
	return false
}

// canon gives the value of a field.
func canon(v reflect.Value) Val {
	if structured(v.Type()) {
		return J(dump(v))
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		return canon(v.Elem())
	}
	switch x := v.Interface().(type) {
	case decimal.Decimal:
		return normDec(x)
	case hbuf.Time:
		return MS(time.Time(x).UnixMilli())
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Bool:
		return truth(v.Bool())
	case reflect.String:
		return v.String()
	case reflect.Float32, reflect.Float64:
		return v.Float()
	}
	return J("?" + v.Type().String())
}

// dump writes a structured value down. Nil and empty lists and maps are the
// same: JSON without a null for them cannot tell.
func dump(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "null"
		}
		return dump(v.Elem())
	case reflect.Slice:
		var out []string
		for i := 0; i < v.Len(); i++ {
			out = append(out, dump(v.Index(i)))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case reflect.Map:
		var out []string
		for _, k := range v.MapKeys() {
			out = append(out, dump(k)+": "+dump(v.MapIndex(k)))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ", ") + "}"
	case reflect.Struct:
		if v.Type() == decType || v.Type() == timeType {
			break
		}
		var out []string
		for _, f := range leaves(v.Type()) {
			out = append(out, f.Name+"="+dump(v.FieldByIndex(f.Index)))
		}
		return v.Type().Name() + "(" + strings.Join(out, " ") + ")"
	}
	return fmtVal(canon(v))
}

// leaves are the fields of a struct type with those of its parents.
func leaves(t reflect.Type) []reflect.StructField {
	var out []reflect.StructField
	for _, f := range reflect.VisibleFields(t) {
		if !f.Anonymous && f.IsExported() {
			out = append(out, f)
		}
	}
	return out
}

// fields gives the values of all fields of a data object by Go name.
func fields(v reflect.Value) map[string]Val {
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	out := map[string]Val{}
	for _, f := range leaves(v.Type()) {
		out[f.Name] = canon(v.FieldByIndex(f.Index))
	}
	return out
}

func fmtVal(v Val) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case string:
		return strconv.Quote(x)
	case Dec:
		return "d" + string(x)
	case MS:
		return "t" + strconv.FormatInt(int64(x), 10)
	case float64:
		return "f" + strconv.FormatFloat(x, 'g', -1, 64)
	case JT:
		return "json" + strconv.Quote(string(x))
	case J:
		return string(x)
	}
	return fmt.Sprint(v)
}

func fmtFields(m map[string]Val) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, k+"="+fmtVal(m[k]))
	}
	return strings.Join(out, " ")
}

// setArg fills a Go value from what a case says: text, nil, a list of these,
// or "#n" for structured values, which come from the number.
func setArg(v reflect.Value, a any) {
	if a == nil {
		v.SetZero()
		return
	}
	if v.Kind() == reflect.Pointer {
		if s, ok := a.(string); ok && strings.HasPrefix(s, "#") && structured(v.Type()) {
			fill(schema.NewRng(hash(s)), v, 2)
			return
		}
		p := reflect.New(v.Type().Elem())
		setArg(p.Elem(), a)
		v.Set(p)
		return
	}
	if l, ok := a.([]any); ok {
		s := reflect.MakeSlice(v.Type(), len(l), len(l))
		for i, x := range l {
			setArg(s.Index(i), x)
		}
		v.Set(s)
		return
	}
	s, ok := a.(string)
	if !ok {
		panic(fmt.Sprintf("argument %v (%T)", a, a))
	}
	if structured(v.Type()) {
		fill(schema.NewRng(hash(s)), v, 2)
		return
	}
	switch v.Interface().(type) {
	case decimal.Decimal:
		d, err := decimal.NewFromString(s)
		if err != nil {
			d = decimal.Zero
		}
		v.Set(reflect.ValueOf(d))
		return
	case hbuf.Time:
		n, _ := strconv.ParseInt(s, 10, 64)
		v.Set(reflect.ValueOf(hbuf.Time(time.UnixMilli(n).UTC())))
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, _ := strconv.ParseInt(s, 10, v.Type().Bits())
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, _ := strconv.ParseUint(s, 10, v.Type().Bits())
		v.SetUint(n)
	case reflect.Bool:
		v.SetBool(s == "true")
	case reflect.String:
		v.SetString(s)
	case reflect.Float32, reflect.Float64:
		f, _ := strconv.ParseFloat(s, 64)
		v.SetFloat(f)
	default:
		panic("no argument for " + v.Type().String())
	}
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

var strPool = []string{"", "a", "b", "ab", "A", "a b", "x'y", "50%", "a_b", "ä", "測試", "\"q\"", "b\\c", "?", "0", "null", "line\nbreak"}

// fill makes a random value.
func fill(r *schema.Rng, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		if r.P(1, 4) {
			v.SetZero()
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(r, p.Elem(), depth)
		v.Set(p)
		return
	case reflect.Slice:
		n := r.N(3)
		if depth > 0 {
			n = r.N(4)
		}
		if n == 0 && r.P(1, 2) {
			v.SetZero()
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(r, s.Index(i), depth-1)
		}
		v.Set(s)
		return
	case reflect.Map:
		n := r.N(4)
		if n == 0 && r.P(1, 2) {
			v.SetZero()
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			fill(r, k, depth-1)
			x := reflect.New(v.Type().Elem()).Elem()
			fill(r, x, depth-1)
			m.SetMapIndex(k, x)
		}
		v.Set(m)
		return
	case reflect.Struct:
		if v.Type() != decType && v.Type() != timeType {
			for _, f := range leaves(v.Type()) {
				if depth < -1 && (f.Type.Kind() == reflect.Pointer || f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.Map) {
					continue
				}
				fill(r, v.FieldByIndex(f.Index), depth-1)
			}
			return
		}
	}
	switch v.Interface().(type) {
	case decimal.Decimal:
		v.Set(reflect.ValueOf(decimal.RequireFromString(schema.Pick(r, "0", "1.5", "-2.25", "100", "0.001", "99999999.99", "-0.1"))))
		return
	case hbuf.Time:
		v.Set(reflect.ValueOf(hbuf.Time(time.UnixMilli(schema.Pick(r, int64(0), 1, 1700000000000, 1700000000123, 946684800000, -1000)))))
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := v.Type().Bits()
		if v.Type().PkgPath() != "" && v.Type().Name() != "Int64" {
			v.SetInt(schema.Pick(r, int64(0), 1, 2, 7)) // an enum
			return
		}
		v.SetInt(schema.Pick(r, int64(0), 1, -1, 5, 100, 1<<(b-1)-1, -1<<(b-1), int64(r.U64())>>(64-b)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b := v.Type().Bits()
		v.SetUint(schema.Pick(r, uint64(0), 1, 5, 100, 1<<(b-1)-1, 1<<(b-1), ^uint64(0)>>(64-b), r.U64()>>(64-b)))
	case reflect.Bool:
		v.SetBool(r.P(1, 2))
	case reflect.String:
		v.SetString(strPool[r.N(len(strPool))])
	case reflect.Float32:
		v.SetFloat(schema.Pick(r, 0, 1.5, -2.25, 3e10, 0.0001, float64(float32(0.1))))
	case reflect.Float64:
		v.SetFloat(schema.Pick(r, 0, 1.5, -2.25, 3e100, 1e-9, 0.1, 123456789.123456789))
	case reflect.Interface:
	default:
		panic("fill " + v.Type().String())
	}
}

// decode reads the JSON text of a column as what it means.
func decode(gt reflect.Type, t JT) Val {
	p := reflect.New(gt)
	if err := json.Unmarshal([]byte(t), p.Interface()); err != nil {
		return J("!" + string(t))
	}
	return canon(p.Elem())
}
