// ssaexport dumps the typed SSA form of every package of a Go module as JSON.
// It is the mechanical extraction step of the verifier: it is run on /repo's
// working tree on every check and performs no rewriting of its own.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeTab  = map[string]M{}
	typeDone = map[string]bool{}
	fset     *token.FileSet
)

func tname(t types.Type) string {
	s := types.TypeString(t, nil)
	if typeDone[s] {
		return s
	}
	typeDone[s] = true
	d := M{}
	switch u := t.(type) {
	case *types.Named:
		d["kind"] = "named"
		d["under"] = tname(u.Underlying())
	case *types.Alias:
		d["kind"] = "named"
		d["under"] = tname(types.Unalias(u))
	case *types.Basic:
		d["kind"] = "basic"
		d["name"] = u.Name()
	case *types.Pointer:
		d["kind"] = "ptr"
		d["elem"] = tname(u.Elem())
	case *types.Slice:
		d["kind"] = "slice"
		d["elem"] = tname(u.Elem())
	case *types.Array:
		d["kind"] = "array"
		d["elem"] = tname(u.Elem())
		d["len"] = u.Len()
	case *types.Map:
		d["kind"] = "map"
		d["key"] = tname(u.Key())
		d["elem"] = tname(u.Elem())
	case *types.Chan:
		d["kind"] = "chan"
		d["elem"] = tname(u.Elem())
	case *types.Struct:
		d["kind"] = "struct"
		var fs []M
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, M{"name": u.Field(i).Name(), "type": tname(u.Field(i).Type())})
		}
		d["fields"] = fs
	case *types.Tuple:
		d["kind"] = "tuple"
		var fs []string
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, tname(u.At(i).Type()))
		}
		d["elems"] = fs
	case *types.Signature:
		d["kind"] = "func"
		d["params"] = tname(u.Params())
		d["results"] = tname(u.Results())
	case *types.Interface:
		d["kind"] = "iface"
	default:
		d["kind"] = "other"
	}
	typeTab[s] = d
	return s
}

func fname(f *ssa.Function) string { return f.String() }

func val(v ssa.Value) M {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": tname(x.Type())}
		if x.Value == nil {
			m["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				m["v"] = constant.StringVal(x.Value)
				m["str"] = true
			case constant.Int:
				m["v"] = x.Value.ExactString()
				m["int"] = true
			default:
				m["v"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return M{"k": "param", "i": i}
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return M{"k": "free", "i": i}
			}
		}
	case *ssa.Global:
		return M{"k": "global", "n": x.String(), "t": tname(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": fname(x)}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	}
	return M{"k": "reg", "n": v.Name()}
}

func vals(vs []ssa.Value) []M {
	r := []M{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(m M, c *ssa.CallCommon) {
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["recvt"] = tname(c.Value.Type())
	} else {
		m["fn"] = val(c.Value)
		if g := c.StaticCallee(); g != nil {
			m["callee"] = fname(g)
		}
	}
	m["args"] = vals(c.Args)
}

func structFieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func instr(in ssa.Instruction) M {
	m := M{"op": fmt.Sprintf("%T", in)[5:]}
	if p := in.Pos(); p.IsValid() {
		pos := fset.Position(p)
		m["line"] = pos.Line
	}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = tname(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["heap"] = x.Heap
		m["comment"] = x.Comment
	case *ssa.Phi:
		m["edges"] = vals(x.Edges)
		m["comment"] = x.Comment
	case *ssa.Call:
		call(m, &x.Call)
	case *ssa.Go:
		call(m, &x.Call)
	case *ssa.Defer:
		call(m, &x.Call)
	case *ssa.BinOp:
		m["tok"] = x.Op.String()
		m["x"], m["y"] = val(x.X), val(x.Y)
		m["xt"] = tname(x.X.Type())
	case *ssa.UnOp:
		m["tok"] = x.Op.String()
		m["x"] = val(x.X)
		m["commaok"] = x.CommaOk
		m["xt"] = tname(x.X.Type())
	case *ssa.ChangeType:
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["x"] = val(x.X)
		m["xt"] = tname(x.X.Type())
	case *ssa.MultiConvert:
		m["x"] = val(x.X)
	case *ssa.ChangeInterface:
		m["x"] = val(x.X)
	case *ssa.MakeInterface:
		m["x"] = val(x.X)
		m["xt"] = tname(x.X.Type())
	case *ssa.MakeClosure:
		m["fn"] = val(x.Fn)
		m["bind"] = vals(x.Bindings)
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		m["len"], m["cap"] = val(x.Len), val(x.Cap)
	case *ssa.Slice:
		m["x"] = val(x.X)
		m["xt"] = tname(x.X.Type())
		if x.Low != nil {
			m["low"] = val(x.Low)
		}
		if x.High != nil {
			m["high"] = val(x.High)
		}
		if x.Max != nil {
			m["max"] = val(x.Max)
		}
	case *ssa.FieldAddr:
		m["x"] = val(x.X)
		m["f"] = structFieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		m["x"] = val(x.X)
		m["f"] = structFieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		m["x"], m["i"] = val(x.X), val(x.Index)
		m["xt"] = tname(x.X.Type())
	case *ssa.Index:
		m["x"], m["i"] = val(x.X), val(x.Index)
		m["xt"] = tname(x.X.Type())
	case *ssa.Lookup:
		m["x"], m["i"] = val(x.X), val(x.Index)
		m["commaok"] = x.CommaOk
		m["xt"] = tname(x.X.Type())
	case *ssa.TypeAssert:
		m["x"] = val(x.X)
		m["at"] = tname(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Range:
		m["x"] = val(x.X)
		m["xt"] = tname(x.X.Type())
	case *ssa.Next:
		m["x"] = val(x.Iter)
		m["isstr"] = x.IsString
	case *ssa.Store:
		m["addr"], m["val"] = val(x.Addr), val(x.Val)
	case *ssa.MapUpdate:
		m["m"], m["key"], m["val"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.If:
		m["cond"] = val(x.Cond)
	case *ssa.Return:
		m["results"] = vals(x.Results)
	case *ssa.Panic:
		m["x"] = val(x.X)
	case *ssa.Jump, *ssa.RunDefers:
	default:
		m["unsupported"] = true
	}
	return m
}

func fn(f *ssa.Function) M {
	m := M{"name": fname(f), "synthetic": f.Synthetic}
	if f.Pos().IsValid() {
		p := fset.Position(f.Pos())
		m["file"], m["line"] = p.Filename, p.Line
	}
	var ps, fv []M
	for _, p := range f.Params {
		ps = append(ps, M{"name": p.Name(), "type": tname(p.Type())})
	}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"name": p.Name(), "type": tname(p.Type())})
	}
	m["params"], m["free"] = ps, fv
	m["results"] = tname(f.Signature.Results())
	m["recover"] = f.Recover != nil
	var bs []M
	for _, b := range f.Blocks {
		var is []M
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(i))
		}
		idx := func(bb []*ssa.BasicBlock) []int {
			r := []int{}
			for _, x := range bb {
				r = append(r, x.Index)
			}
			return r
		}
		idom := -1
		if b.Idom() != nil {
			idom = b.Idom().Index
		}
		bs = append(bs, M{"i": b.Index, "instrs": is, "succs": idx(b.Succs), "preds": idx(b.Preds), "idom": idom, "comment": b.Comment})
	}
	m["blocks"] = bs
	return m
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: ssaexport DIR OUT")
		os.Exit(2)
	}
	fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: os.Args[1], Fset: fset}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	prog, ps := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	mine := map[*ssa.Package]bool{}
	var names []string
	for _, p := range ps {
		mine[p] = true
		names = append(names, p.Pkg.Path())
	}
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && mine[f.Pkg] && f.Blocks != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	out := M{}
	var jf []M
	for _, f := range fs {
		jf = append(jf, fn(f))
	}
	var globals []M
	for _, p := range ps {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				globals = append(globals, M{"name": g.String(), "type": tname(g.Type())})
			}
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i]["name"].(string) < globals[j]["name"].(string) })
	out["functions"], out["types"], out["globals"], out["packages"] = jf, typeTab, globals, names
	w, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(w)
	if err := enc.Encode(out); err != nil {
		panic(err)
	}
	w.Close()
}
