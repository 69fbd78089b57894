package main

import (
	"encoding/json"
	"reflect"
	"strconv"
	"strings"
)

// mustJSON writes a value as JSON. It does what encoding/json does for the
// types used here, without its cost for long lists of bytes.
func mustJSON(v any) []byte { return appendJSON(nil, reflect.ValueOf(v)) }

type fieldInfo struct {
	i    int
	key  string
	omit bool
}

var fieldCache = map[reflect.Type][]fieldInfo{}

func init() {
	// Filled here for all types used, so that it is only read afterwards
	for _, v := range []any{Person{}, Entry{}, Tag{}, Commit{}, Blob{}, Tree{}, Bad{}, Case{}, EncOut{}, Out{},
		DM{}, EncCase{}, EncRes{}, ViewCase{}, ViewRes{}, View{}, QNode{}, Pair{}, Ask{}, ZipRes{}, Wrong{}, BlkCase{}, BlkRes{}, WrCase{}, WrRes{},
		BigCase{}, BigRes{}, MemCase{}, MemRes{}, Cmd{}, AsmCase{}, Reply{}, SessCase{}, SessRes{}, StoreCase{}, StoreRep{}} {
		fields(reflect.TypeOf(v))
	}
}

func fields(t reflect.Type) []fieldInfo {
	if f, ok := fieldCache[t]; ok {
		return f
	}
	var out []fieldInfo
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.PkgPath != "" {
			continue
		}
		name, opts, _ := strings.Cut(sf.Tag.Get("json"), ",")
		if name == "" {
			name = sf.Name
		}
		out = append(out, fieldInfo{i, `"` + name + `":`, strings.Contains(opts, "omitempty")})
	}
	fieldCache[t] = out
	return out
}

func appendBytes(out []byte, b []byte) []byte {
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(x), 10)
	}
	return append(out, ']')
}

var typeB = reflect.TypeOf(B{})

func appendJSON(out []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Invalid:
		return append(out, "null"...)
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return append(out, "null"...)
		}
		return appendJSON(out, v.Elem())
	case reflect.String:
		b, _ := json.Marshal(v.String())
		return append(out, b...)
	case reflect.Bool:
		return strconv.AppendBool(out, v.Bool())
	case reflect.Int, reflect.Int64:
		return strconv.AppendInt(out, v.Int(), 10)
	case reflect.Slice:
		if v.Type() == typeB {
			return appendBytes(out, v.Bytes())
		}
		out = append(out, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				out = append(out, ',')
			}
			out = appendJSON(out, v.Index(i))
		}
		return append(out, ']')
	case reflect.Struct:
		out = append(out, '{')
		first := true
		for _, f := range fields(v.Type()) {
			fv := v.Field(f.i)
			if f.omit && fv.IsZero() {
				continue
			}
			if !first {
				out = append(out, ',')
			}
			first = false
			out = append(out, f.key...)
			out = appendJSON(out, fv)
		}
		return append(out, '}')
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		panic(err)
	}
	return append(out, b...)
}
