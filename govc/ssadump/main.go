// ssadump loads one Go package, builds its SSA form (golang.org/x/tools/go/ssa,
// NaiveForm: every local variable stays a named cell) and writes it as JSON.
// It is the only part of the verifier that reads Go source; it does not change
// or simplify the code: every instruction of every function body is emitted.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeTab = M{}
	pkgPath string
	prog    *ssa.Program
)

func qual(p *types.Package) string {
	if p.Path() == pkgPath {
		return ""
	}
	return p.Path()
}

func ty(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, qual)
	if _, ok := typeTab[s]; ok {
		return s
	}
	d := M{}
	typeTab[s] = d
	switch x := t.(type) {
	case *types.Basic:
		d["k"] = "basic"
		d["name"] = x.Name()
		d["unsigned"] = x.Info()&types.IsUnsigned != 0
		d["int"] = x.Info()&types.IsInteger != 0
		d["bool"] = x.Info()&types.IsBoolean != 0
		d["string"] = x.Info()&types.IsString != 0
	case *types.Named:
		d["k"] = "named"
		d["name"] = s
		d["under"] = ty(x.Underlying())
	case *types.Pointer:
		d["k"] = "ptr"
		d["elem"] = ty(x.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["elem"] = ty(x.Elem())
	case *types.Array:
		d["k"] = "array"
		d["elem"] = ty(x.Elem())
		d["len"] = x.Len()
	case *types.Map:
		d["k"] = "map"
		d["key"] = ty(x.Key())
		d["elem"] = ty(x.Elem())
	case *types.Struct:
		d["k"] = "struct"
		fs := []M{}
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": ty(f.Type()), "embedded": f.Embedded()})
		}
		d["fields"] = fs
	case *types.Interface:
		d["k"] = "iface"
	case *types.Signature:
		d["k"] = "func"
		d["params"] = tuple(x.Params())
		d["results"] = tuple(x.Results())
	case *types.Tuple:
		d["k"] = "tuple"
		d["elems"] = tuple(x)
	case *types.Chan:
		d["k"] = "chan"
	default:
		d["k"] = "other"
	}
	return s
}

func tuple(t *types.Tuple) []M {
	r := []M{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, M{"name": t.At(i).Name(), "type": ty(t.At(i).Type())})
	}
	return r
}

func funcName(f *ssa.Function) string {
	if f.Pkg != nil && f.Pkg.Pkg.Path() == pkgPath && f.Parent() == nil {
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			return types.TypeString(t, qual) + "." + f.Name()
		}
		return f.Name()
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == pkgPath {
		return funcName(f.Parent()) + "$" + f.Name()
	}
	return f.String()
}

func val(v ssa.Value) M {
	switch x := v.(type) {
	case *ssa.Const:
		m := M{"t": ty(x.Type())}
		if x.Value == nil {
			m["c"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["c"] = constant.BoolVal(x.Value)
			case constant.Int:
				m["ci"] = x.Value.ExactString()
			case constant.String:
				m["cs"] = constant.StringVal(x.Value)
			default:
				m["co"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Global:
		return M{"g": x.String(), "t": ty(x.Type())}
	case *ssa.Function:
		return M{"f": funcName(x), "t": ty(x.Type())}
	case *ssa.Builtin:
		return M{"b": x.Name()}
	case *ssa.Parameter:
		return M{"p": x.Name(), "t": ty(x.Type())}
	case *ssa.FreeVar:
		return M{"fv": x.Name(), "t": ty(x.Type())}
	}
	return M{"r": v.Name(), "t": ty(v.Type())}
}

func common(c *ssa.CallCommon, m M) {
	args := []M{}
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	m["args"] = args
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["itype"] = ty(c.Value.Type())
		m["value"] = val(c.Value)
	} else {
		m["value"] = val(c.Value)
	}
	m["sig"] = ty(c.Signature())
}

func instr(i ssa.Instruction) M {
	m := M{}
	pos := prog.Fset.Position(i.Pos())
	if pos.IsValid() {
		m["pos"] = fmt.Sprintf("%s:%d", pos.Filename[strings.LastIndex(pos.Filename, "/")+1:], pos.Line)
	}
	if v, ok := i.(ssa.Value); ok {
		m["reg"] = v.Name()
		m["type"] = ty(v.Type())
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["name"] = x.Comment
		m["elem"] = ty(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["tok"] = x.Op.String()
		m["x"] = val(x.X)
		m["y"] = val(x.Y)
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["tok"] = x.Op.String()
		m["x"] = val(x.X)
		m["commaok"] = x.CommaOk
	case *ssa.Call:
		m["op"] = "Call"
		common(&x.Call, m)
	case *ssa.Defer:
		m["op"] = "Defer"
		common(&x.Call, m)
	case *ssa.Go:
		m["op"] = "Go"
		common(&x.Call, m)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Store:
		m["op"] = "Store"
		m["addr"] = val(x.Addr)
		m["val"] = val(x.Val)
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		m["struct"] = ty(st)
		m["field"] = st.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(x.X)
		m["struct"] = ty(x.X.Type())
		m["field"] = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(x.X)
		if x.Low != nil {
			m["low"] = val(x.Low)
		}
		if x.High != nil {
			m["high"] = val(x.High)
		}
		if x.Max != nil {
			m["max"] = val(x.Max)
		}
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"] = val(x.Len)
		m["cap"] = val(x.Cap)
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["map"] = val(x.Map)
		m["key"] = val(x.Key)
		m["val"] = val(x.Value)
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = val(x.X)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = val(x.Iter)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(x.X)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(x.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(x.X)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(x.X)
		m["asserted"] = ty(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Phi:
		m["op"] = "Phi"
		e := []M{}
		for _, a := range x.Edges {
			e = append(e, val(a))
		}
		m["edges"] = e
		m["name"] = x.Comment
	case *ssa.If:
		m["op"] = "If"
		m["cond"] = val(x.Cond)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Return:
		m["op"] = "Return"
		r := []M{}
		for _, a := range x.Results {
			r = append(r, val(a))
		}
		m["results"] = r
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(x.X)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = val(x.Fn)
		b := []M{}
		for _, a := range x.Bindings {
			b = append(b, val(a))
		}
		m["bindings"] = b
	default:
		m["op"] = "Unsupported"
		m["what"] = fmt.Sprintf("%T", i)
	}
	return m
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	ps, err := packages.Load(cfg, ".")
	if err != nil || len(ps) != 1 {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	if len(ps[0].Errors) > 0 {
		fmt.Fprintln(os.Stderr, "package errors:", ps[0].Errors)
		os.Exit(2)
	}
	pkgPath = ps[0].PkgPath
	pr, pk := ssautil.Packages(ps, ssa.NaiveForm)
	prog = pr
	pk[0].Build()
	out := []M{}
	fs := []*ssa.Function{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == pk[0] && f.Blocks != nil && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, f := range fs {
		params := []M{}
		for _, p := range f.Params {
			params = append(params, M{"name": p.Name(), "type": ty(p.Type())})
		}
		blocks := []M{}
		for _, b := range f.Blocks {
			is := []M{}
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.DebugRef); ok {
					continue
				}
				is = append(is, instr(i))
			}
			succ := []int{}
			for _, s := range b.Succs {
				succ = append(succ, s.Index)
			}
			pred := []int{}
			for _, s := range b.Preds {
				pred = append(pred, s.Index)
			}
			blocks = append(blocks, M{"instrs": is, "succs": succ, "preds": pred, "comment": b.Comment})
		}
		p := prog.Fset.Position(f.Pos())
		out = append(out, M{"name": funcName(f), "params": params, "results": tuple(f.Signature.Results()),
			"blocks": blocks, "file": p.Filename[strings.LastIndex(p.Filename, "/")+1:], "line": p.Line,
			"method": f.Signature.Recv() != nil, "exported": f.Object() != nil && f.Object().Exported()})
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetIndent("", " ")
	enc.Encode(M{"pkg": pkgPath, "funcs": out, "types": typeTab})
}
