package main

import (
	"fmt"
	"go/types"
	"strings"
)

// natArg converts a formatting argument to a native value when that is exact.
func (in *Interp) natArg(i Iface) (interface{}, bool) {
	if i.t == nil {
		return nil, true
	}
	if b, ok := types.Unalias(i.t).(*types.Basic); ok {
		switch v := i.v.(type) {
		case string:
			return v, true
		case bool:
			return v, true
		case float64:
			if b.Kind() == types.Float32 {
				return float32(v), true
			}
			return v, true
		case uint64:
			switch b.Kind() {
			case types.Int:
				return int(v), true
			case types.Int64:
				return int64(v), true
			case types.Int32, types.UntypedRune:
				return int32(v), true
			case types.Int16:
				return int16(v), true
			case types.Int8:
				return int8(v), true
			case types.Uint:
				return uint(v), true
			case types.Uint64:
				return v, true
			case types.Uint32:
				return uint32(v), true
			case types.Uint16:
				return uint16(v), true
			case types.Uint8:
				return uint8(v), true
			}
		}
	}
	return nil, false
}

// strArg returns the text of an argument under %v / %s when it is a string-like value.
func (in *Interp) strArg(fr *frame, i Iface, verb byte) (Value, bool) {
	if i.t == nil {
		return nil, false
	}
	if b, ok := types.Unalias(i.t).(*types.Basic); ok {
		switch v := i.v.(type) {
		case string, *Str, *LStr:
			if verb == 'd' {
				return nil, false
			}
			return v, true
		case *Term:
			ti := typeInfo(b)
			if verb == 's' {
				return nil, false
			}
			if ti.cls == cInt {
				return &LStr{t: v, signed: ti.signed}, true
			}
			if ti.cls == cFloat && ti.sort == sF64 && verb == 'v' {
				return &LStr{t: v, float: true}, true
			}
			if ti.cls == cBool && verb == 'v' {
				if in.branch(v) {
					return "true", true
				}
				return "false", true
			}
		}
		return nil, false
	}
	if verb == 'd' {
		return nil, false
	}
	// error / Stringer
	for _, m := range []string{"Error", "String"} {
		sel := in.p.methodSet(i.t).Lookup(nil, m)
		if sel == nil {
			continue
		}
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || typeInfo(sig.Results().At(0).Type()).cls != cString {
			continue
		}
		if in.p.methodSet(i.t).Lookup(nil, "Format") != nil {
			return nil, false
		}
		if p, ok := i.v.(Ptr); ok && p == nil {
			return nil, false
		}
		return in.call(fr, in.p.methodValue(sel), []Value{copyVal(i.v)}, nil), true
	}
	// named string without methods
	switch v := i.v.(type) {
	case string, *Str, *LStr:
		return v, true
	case *Term:
		ti := typeInfo(i.t)
		if ti.cls == cInt && verb == 'v' {
			return &LStr{t: v, signed: ti.signed}, true
		}
	}
	return nil, false
}

// sprintf handles the formats whose arguments are plain; ok=false means: run the real fmt.
func (in *Interp) sprintf(fr *frame, format string, args []Value) (Value, bool) {
	var out Value = ""
	ai := 0
	lit := func(s string) {
		if s != "" {
			out = in.sconcat(out, s)
		}
	}
	for len(format) > 0 {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			lit(format)
			break
		}
		lit(format[:i])
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return nil, false
		}
		verb := format[j]
		spec := format[i : j+1]
		format = format[j+1:]
		if verb == '%' {
			if len(spec) != 2 {
				return nil, false
			}
			lit("%")
			continue
		}
		if verb == '*' || verb == '[' || ai >= len(args) {
			return nil, false
		}
		arg, ok := args[ai].(Iface)
		ai++
		if !ok {
			return nil, false
		}
		if n, isN := arg.t.(*types.Named); isN && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
			// the value held is what is printed
			rv := getRV(arg.v)
			if rv == nil || rv.ro {
				return nil, false
			}
			v := rv.get()
			if itf, isI := v.(Iface); isI {
				arg = itf
			} else {
				arg = Iface{rv.t, v}
			}
		}
		if arg.t != nil {
			if l, ok := arg.v.(*LStr); ok && len(spec) != 2 {
				arg.v = in.force(l)
			}
		}
		if n, ok := in.natArg(arg); ok && verb != 'T' {
			lit(fmt.Sprintf(spec, n))
			continue
		}
		if len(spec) != 2 {
			return nil, false
		}
		switch verb {
		case 'v', 's', 'd', 'w':
			v := verb
			if v == 'w' {
				v = 'v'
			}
			s, ok := in.strArg(fr, arg, v)
			if !ok {
				return nil, false
			}
			out = in.sconcatLazy(out, s)
		case 'T':
			if arg.t == nil {
				lit("<nil>")
			} else {
				lit(rtypeString(arg.t))
			}
		case 'c':
			t, ok := arg.v.(*Term)
			if !ok {
				return nil, false
			}
			if t.sort < 32 {
				t = in.ts.Op1(oZext, 32, t, 0)
			}
			if t.sort != 32 {
				return nil, false
			}
			out = in.sconcat(out, mkStr(in.runeBytes(t)))
		default:
			return nil, false
		}
	}
	if ai != len(args) {
		return nil, false
	}
	return out, true
}

func (in *Interp) sconcatLazy(a, b Value) Value {
	if s, ok := a.(string); ok && s == "" {
		return b
	}
	return in.sconcat(a, b)
}

func init() {
	ifs := func(v Value) []Value {
		s, _ := v.(Slice)
		return s
	}
	reg("fmt.Sprintf", func(in *Interp, fr *frame, a []Value) Value {
		f, ok := in.force(a[0]).(string)
		if !ok {
			return notHandled
		}
		if v, ok := in.sprintf(fr, f, ifs(a[1])); ok {
			return v
		}
		return notHandled
	})
	reg("fmt.Sprint", func(in *Interp, fr *frame, a []Value) Value {
		args := ifs(a[0])
		if len(args) == 1 {
			if v, ok := in.sprintf(fr, "%v", args); ok {
				return v
			}
			return notHandled
		}
		var nat []interface{}
		for _, x := range args {
			n, ok := in.natArg(x.(Iface))
			if !ok {
				return notHandled
			}
			nat = append(nat, n)
		}
		return fmt.Sprint(nat...)
	})
	reg("fmt.Sprintln", func(in *Interp, fr *frame, a []Value) Value {
		var out Value = ""
		for i, x := range ifs(a[0]) {
			if i > 0 {
				out = in.sconcat(out, " ")
			}
			v, ok := in.sprintf(fr, "%v", []Value{x})
			if !ok {
				return notHandled
			}
			out = in.sconcat(out, v)
		}
		return in.sconcat(out, "\n")
	})
	reg("fmt.Errorf", func(in *Interp, fr *frame, a []Value) Value {
		f, ok := in.force(a[0]).(string)
		if !ok || strings.Contains(f, "%w") {
			return notHandled
		}
		if v, ok := in.sprintf(fr, f, ifs(a[1])); ok {
			p := new(Value)
			*p = Struct{v}
			return Iface{in.p.errorsStr, p}
		}
		return notHandled
	})
	// inside the real fmt: decimal rendering of symbolic integers without flags
	reg("(*fmt.fmt).fmtInteger", func(in *Interp, fr *frame, a []Value) Value {
		t, ok := a[1].(*Term)
		if !ok {
			return notHandled
		}
		f := (*a[0].(Ptr)).(Struct)
		fl := f[1]
		if s, ok := f[1].(Struct); ok {
			fl = s
		}
		_ = fl
		if a[2] != Value(uint64(10)) {
			return notHandled
		}
		signed := a[3] == Value(true)
		s := in.sbytes(&LStr{t: t, signed: signed})
		bufp := f[0].(Ptr)
		cur, _ := (*bufp).(Slice)
		in.store(bufp, in.appendSlice(cur, Slice(s), types.Typ[types.Byte]))
		return nil
	})
}
