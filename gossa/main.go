// gossa prints the SSA form of Go functions, and of everything they call, as JSON.
// usage: gossa DIR PACKAGE... < {"roots": [...], "stop": [...]}
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

type request struct {
	Roots []string // functions to print
	Stop  []string // functions (or packages, "net/http.*") that are modelled elsewhere
}

var (
	prog     *ssa.Program
	out      = M{}
	typeOut  = M{}
	globals  = M{}
	queue    []*ssa.Function
	seen     = map[*ssa.Function]bool{}
	stop     = map[string]bool{}
	typeSeen = map[string]bool{}
)

func name(f *ssa.Function) string { return f.String() }

func stopped(f *ssa.Function) bool {
	if stop[name(f)] {
		return true
	}
	p := f.Pkg
	if p == nil && f.Signature.Recv() != nil {
		// a wrapper for a promoted method belongs to the type that promotes it
		t := types.Unalias(f.Signature.Recv().Type())
		if q, ok := t.(*types.Pointer); ok {
			t = types.Unalias(q.Elem())
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return stop[n.Obj().Pkg().Path()+".*"]
		}
	}
	if p == nil && f.Object() != nil && f.Object().Pkg() != nil {
		return stop[f.Object().Pkg().Path()+".*"]
	}
	if p == nil && f.Parent() != nil {
		return stopped(f.Parent())
	}
	return p != nil && stop[p.Pkg.Path()+".*"]
}

func want(f *ssa.Function) {
	if f != nil && !seen[f] {
		seen[f] = true
		queue = append(queue, f)
	}
}

func typ(t types.Type) string {
	t = types.Unalias(t)
	s := t.String()
	if typeSeen[s] {
		return s
	}
	typeSeen[s] = true
	d := M{}
	typeOut[s] = d
	switch u := t.(type) {
	case *types.Named:
		d["named"] = u.Obj().Name()
		d["under"] = typ(u.Underlying())
		methods := M{}
		for _, x := range []types.Type{u, types.NewPointer(u)} {
			if types.IsInterface(u) {
				break
			}
			ms := prog.MethodSets.MethodSet(x)
			for i := 0; i < ms.Len(); i++ {
				if f := prog.MethodValue(ms.At(i)); f != nil {
					k := ms.At(i).Obj().Name()
					if x == u {
						k = "=" + k
					}
					methods[k] = name(f)
				}
			}
		}
		d["methods"] = methods
	case *types.Basic:
		d["basic"] = u.Name()
	case *types.Pointer:
		d["elem"] = typ(u.Elem())
		d["kind"] = "pointer"
	case *types.Slice:
		d["elem"] = typ(u.Elem())
		d["kind"] = "slice"
	case *types.Array:
		d["elem"] = typ(u.Elem())
		d["kind"] = "array"
		d["len"] = u.Len()
	case *types.Map:
		d["key"] = typ(u.Key())
		d["elem"] = typ(u.Elem())
		d["kind"] = "map"
	case *types.Chan:
		d["elem"] = typ(u.Elem())
		d["kind"] = "chan"
	case *types.Struct:
		d["kind"] = "struct"
		var fs []M
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": typ(f.Type()), "tag": u.Tag(i), "embedded": f.Embedded(), "exported": f.Exported()})
		}
		d["fields"] = fs
	case *types.Interface:
		d["kind"] = "interface"
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		d["methods"] = ms
	case *types.Tuple:
		d["kind"] = "tuple"
		var ts []string
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, typ(u.At(i).Type()))
		}
		d["elems"] = ts
	case *types.Signature:
		d["kind"] = "func"
	default:
		d["kind"] = fmt.Sprintf("%T", t)
	}
	return s
}

func val(v ssa.Value) any {
	switch c := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		t := typ(c.Type())
		if c.Value == nil {
			return M{"zero": t}
		}
		switch c.Value.Kind() {
		case constant.String:
			return M{"const": constant.StringVal(c.Value), "type": t, "string": true}
		case constant.Bool:
			return M{"const": constant.BoolVal(c.Value), "type": t}
		case constant.Int:
			return M{"const": c.Value.ExactString(), "type": t}
		case constant.Float:
			f, _ := constant.Float64Val(c.Value)
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				i, _ := constant.Int64Val(constant.ToInt(c.Value))
				return M{"const": fmt.Sprint(i), "type": t}
			}
			return M{"const": f, "type": t}
		}
		return M{"const": nil, "type": t, "odd": true}
	case *ssa.Function:
		if c.Synthetic != "package initializer" {
			want(c)
		}
		return M{"func": name(c)}
	case *ssa.Global:
		g := c.String()
		if c.Pkg != nil {
			want(c.Pkg.Func("init"))
			globals[g] = M{"type": typ(c.Type()), "pkg": c.Pkg.Pkg.Path()}
		} else {
			globals[g] = M{"type": typ(c.Type())}
		}
		return M{"global": g}
	case *ssa.Builtin:
		return M{"builtin": c.Name()}
	}
	return v.Name()
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) M {
	if c.IsInvoke() {
		return M{"invoke": c.Method.Name(), "recv": val(c.Value), "args": vals(c.Args)}
	}
	return M{"fn": val(c.Value), "args": vals(c.Args)}
}

func instr(i ssa.Instruction) M {
	d := M{"op": fmt.Sprintf("%T", i)[5:]}
	if v, ok := i.(ssa.Value); ok {
		d["name"] = v.Name()
		d["type"] = typ(v.Type())
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		d["heap"] = x.Heap
	case *ssa.BinOp:
		d["tok"], d["x"], d["y"], d["xtype"] = x.Op.String(), val(x.X), val(x.Y), typ(x.X.Type())
	case *ssa.UnOp:
		d["tok"], d["x"], d["ok"] = x.Op.String(), val(x.X), x.CommaOk
	case *ssa.Call:
		d["call"] = call(&x.Call)
	case *ssa.Go:
		d["call"] = call(&x.Call)
	case *ssa.Defer:
		d["call"] = call(&x.Call)
	case *ssa.ChangeInterface:
		d["x"] = val(x.X)
	case *ssa.ChangeType:
		d["x"] = val(x.X)
	case *ssa.Convert:
		d["x"], d["xtype"] = val(x.X), typ(x.X.Type())
	case *ssa.MultiConvert:
		d["x"], d["xtype"] = val(x.X), typ(x.X.Type())
	case *ssa.SliceToArrayPointer:
		d["x"] = val(x.X)
	case *ssa.Extract:
		d["x"], d["index"] = val(x.Tuple), x.Index
	case *ssa.Field:
		d["x"], d["index"] = val(x.X), x.Field
	case *ssa.FieldAddr:
		d["x"], d["index"] = val(x.X), x.Field
	case *ssa.If:
		d["x"] = val(x.Cond)
	case *ssa.Index:
		d["x"], d["y"] = val(x.X), val(x.Index)
	case *ssa.IndexAddr:
		d["x"], d["y"], d["xtype"] = val(x.X), val(x.Index), typ(x.X.Type())
	case *ssa.Lookup:
		d["x"], d["y"], d["ok"], d["xtype"] = val(x.X), val(x.Index), x.CommaOk, typ(x.X.Type())
	case *ssa.MakeChan:
		d["x"] = val(x.Size)
	case *ssa.MakeClosure:
		d["x"], d["args"] = val(x.Fn), vals(x.Bindings)
	case *ssa.MakeInterface:
		d["x"], d["xtype"] = val(x.X), typ(x.X.Type())
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		d["x"], d["y"] = val(x.Len), val(x.Cap)
	case *ssa.MapUpdate:
		d["x"], d["key"], d["value"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Next:
		d["x"], d["string"] = val(x.Iter), x.IsString
	case *ssa.Panic:
		d["x"] = val(x.X)
	case *ssa.Phi:
		d["edges"] = vals(x.Edges)
	case *ssa.Range:
		d["x"], d["xtype"] = val(x.X), typ(x.X.Type())
	case *ssa.Return:
		d["results"] = vals(x.Results)
	case *ssa.Select:
		var st []M
		for _, s := range x.States {
			st = append(st, M{"dir": int(s.Dir), "chan": val(s.Chan), "send": val(s.Send)})
		}
		d["states"], d["blocking"] = st, x.Blocking
	case *ssa.Send:
		d["x"], d["y"] = val(x.Chan), val(x.X)
	case *ssa.Slice:
		d["x"], d["low"], d["high"], d["max"], d["xtype"] = val(x.X), val(x.Low), val(x.High), val(x.Max), typ(x.X.Type())
	case *ssa.Store:
		d["addr"], d["value"] = val(x.Addr), val(x.Val)
	case *ssa.TypeAssert:
		d["x"], d["asserted"], d["ok"] = val(x.X), typ(x.AssertedType), x.CommaOk
	}
	return d
}

func function(f *ssa.Function) M {
	var blocks []M
	for _, b := range f.Blocks {
		is, succs, preds := []M{}, []int{}, []int{}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(i))
		}
		for _, s := range b.Succs {
			succs = append(succs, s.Index)
		}
		for _, s := range b.Preds {
			preds = append(preds, s.Index)
		}
		blocks = append(blocks, M{"instrs": is, "succs": succs, "preds": preds})
	}
	params, free := []string{}, []string{}
	for _, p := range f.Params {
		params = append(params, p.Name())
		typ(p.Type())
	}
	for _, p := range f.FreeVars {
		free = append(free, p.Name())
	}
	results := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		results = append(results, typ(f.Signature.Results().At(i).Type()))
	}
	d := M{"params": params, "free": free, "blocks": blocks, "results": results}
	if f.Recover != nil {
		d["recover"] = f.Recover.Index
	}
	if pos := prog.Fset.Position(f.Pos()); pos.IsValid() {
		d["pos"] = fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
	}
	return d
}

func main() {
	var req request
	if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
		panic(err)
	}
	for _, s := range req.Stop {
		stop[s] = true
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: os.Args[1], Fset: token.NewFileSet()}
	initial, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		panic(err)
	}
	if packages.PrintErrors(initial) > 0 {
		os.Exit(1)
	}
	p, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog = p
	built := map[*ssa.Package]bool{}
	byName := map[string]*ssa.Function{}
	build := func(pkg *ssa.Package) {
		if pkg != nil && !built[pkg] {
			built[pkg] = true
			pkg.Build()
		}
	}
	for _, pkg := range prog.AllPackages() {
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Function:
				byName[name(m)] = m
			case *ssa.Type:
				t := m.Type()
				if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				if types.IsInterface(t) {
					continue
				}
				for _, q := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(q)
					for i := 0; i < ms.Len(); i++ {
						if pkg.Pkg != ms.At(i).Obj().Pkg() {
							continue
						}
						if f := prog.MethodValue(ms.At(i)); f != nil {
							byName[name(f)] = f
						}
					}
				}
			}
		}
	}
	for _, q := range initial {
		pkg := prog.Package(q.Types)
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" {
					want(m)
				}
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				typ(m.Type())
				ms := prog.MethodSets.MethodSet(types.NewPointer(m.Type()))
				for i := 0; i < ms.Len(); i++ {
					want(prog.MethodValue(ms.At(i)))
				}
				ms = prog.MethodSets.MethodSet(m.Type())
				for i := 0; i < ms.Len(); i++ {
					want(prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	for _, r := range req.Roots {
		f := byName[r]
		if f == nil {
			continue
		}
		want(f)
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if stopped(f) {
			continue
		}
		if f.Pkg != nil {
			build(f.Pkg)
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			build(prog.Package(f.Object().Pkg()))
		}
		out[name(f)] = function(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mi, ok := i.(*ssa.MakeInterface); ok {
					// what can be called through the interface
					t := types.Unalias(mi.X.Type())
					ms := prog.MethodSets.MethodSet(t)
					for k := 0; k < ms.Len(); k++ {
						if it := mi.Type().Underlying().(*types.Interface); true {
							for q := 0; q < it.NumMethods(); q++ {
								if it.Method(q).Name() == ms.At(k).Obj().Name() {
									want(prog.MethodValue(ms.At(k)))
								}
							}
						}
					}
				}
			}
		}
	}
	names := []string{}
	for k := range out {
		names = append(names, k)
	}
	sort.Strings(names)
	b, err := json.Marshal(M{"functions": out, "types": typeOut, "globals": globals})
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}
