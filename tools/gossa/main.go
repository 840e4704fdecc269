// gossa file.go out.json : type-checks one generated package and dumps its SSA form.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J map[string]any

var typeIDs = map[string]int{}
var typeTab []J

func typ(t types.Type) int {
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	typeTab = append(typeTab, nil)
	d := J{"str": key}
	switch t := t.(type) {
	case *types.Named:
		d["kind"] = "named"
		d["name"] = t.Obj().Name()
		d["under"] = typ(t.Underlying())
	case *types.Alias:
		d["kind"] = "named"
		d["name"] = t.Obj().Name()
		d["under"] = typ(types.Unalias(t))
		d["alias"] = true
	case *types.Basic:
		d["kind"] = "basic"
		d["name"] = t.Name()
	case *types.Pointer:
		d["kind"] = "ptr"
		d["elem"] = typ(t.Elem())
	case *types.Slice:
		d["kind"] = "slice"
		d["elem"] = typ(t.Elem())
	case *types.Array:
		d["kind"] = "array"
		d["elem"] = typ(t.Elem())
		d["len"] = t.Len()
	case *types.Struct:
		d["kind"] = "struct"
		fs := []any{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, J{"name": f.Name(), "type": typ(f.Type()), "exported": f.Exported()})
		}
		d["fields"] = fs
	case *types.Interface:
		d["kind"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		d["methods"] = ms
	case *types.Map:
		d["kind"] = "map"
		d["key"] = typ(t.Key())
		d["elem"] = typ(t.Elem())
	case *types.Tuple:
		d["kind"] = "tuple"
		es := []int{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, typ(t.At(i).Type()))
		}
		d["elems"] = es
	case *types.Signature:
		d["kind"] = "func"
	default:
		d["kind"] = "other"
	}
	typeTab[id] = d
	return id
}

func val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		d := J{"k": "const", "type": typ(v.Type())}
		if v.Value == nil {
			d["v"] = nil
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				d["v"] = constant.BoolVal(v.Value)
			case constant.String:
				d["s"] = []byte(constant.StringVal(v.Value))
			case constant.Int:
				d["i"] = v.Value.ExactString()
			case constant.Float:
				f, _ := constant.Float64Val(v.Value)
				d["f"] = f
			}
		}
		return d
	case *ssa.Global:
		return J{"k": "global", "name": v.String(), "type": typ(v.Type())}
	case *ssa.Function:
		want(v)
		return J{"k": "func", "name": v.String()}
	case *ssa.Builtin:
		return J{"k": "builtin", "name": v.Name()}
	}
	return J{"k": "reg", "name": v.Name()}
}

func vals(vs []ssa.Value) []any {
	out := []any{}
	for _, v := range vs {
		out = append(out, val(v))
	}
	return out
}

var todo []*ssa.Function
var seen = map[*ssa.Function]bool{}

func want(f *ssa.Function) {
	if !seen[f] {
		seen[f] = true
		todo = append(todo, f)
	}
}

func call(c *ssa.CallCommon) J {
	d := J{"args": vals(c.Args)}
	if c.IsInvoke() {
		d["mode"] = "invoke"
		d["recv"] = val(c.Value)
		d["method"] = c.Method.Name()
	} else {
		d["mode"] = "call"
		d["fn"] = val(c.Value)
	}
	return d
}

func instr(in ssa.Instruction) J {
	d := J{"op": fmt.Sprintf("%T", in)[5:]}
	if v, ok := in.(ssa.Value); ok {
		d["name"] = v.Name()
		d["type"] = typ(v.Type())
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		d["heap"] = i.Heap
	case *ssa.BinOp:
		d["o"] = i.Op.String()
		d["x"], d["y"] = val(i.X), val(i.Y)
		d["xt"] = typ(i.X.Type())
		d["yt"] = typ(i.Y.Type())
	case *ssa.UnOp:
		d["o"] = i.Op.String()
		d["x"] = val(i.X)
		d["commaok"] = i.CommaOk
		d["xt"] = typ(i.X.Type())
	case *ssa.Call:
		d["call"] = call(i.Common())
	case *ssa.Defer:
		d["call"] = call(i.Common())
	case *ssa.ChangeInterface:
		d["x"] = val(i.X)
	case *ssa.ChangeType:
		d["x"] = val(i.X)
	case *ssa.Convert:
		d["x"] = val(i.X)
		d["xt"] = typ(i.X.Type())
	case *ssa.MultiConvert:
		d["x"] = val(i.X)
		d["xt"] = typ(i.X.Type())
	case *ssa.Extract:
		d["x"] = val(i.Tuple)
		d["i"] = i.Index
	case *ssa.Field:
		d["x"] = val(i.X)
		d["i"] = i.Field
	case *ssa.FieldAddr:
		d["x"] = val(i.X)
		d["i"] = i.Field
	case *ssa.If:
		d["x"] = val(i.Cond)
	case *ssa.Index:
		d["x"], d["y"] = val(i.X), val(i.Index)
		d["xt"], d["yt"] = typ(i.X.Type()), typ(i.Index.Type())
	case *ssa.IndexAddr:
		d["x"], d["y"] = val(i.X), val(i.Index)
		d["xt"], d["yt"] = typ(i.X.Type()), typ(i.Index.Type())
	case *ssa.Lookup:
		d["x"], d["y"] = val(i.X), val(i.Index)
		d["xt"], d["yt"] = typ(i.X.Type()), typ(i.Index.Type())
		d["commaok"] = i.CommaOk
	case *ssa.MakeClosure:
		d["fn"] = val(i.Fn)
		d["bind"] = vals(i.Bindings)
	case *ssa.MakeInterface:
		d["x"] = val(i.X)
		d["xt"] = typ(i.X.Type())
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		d["len"], d["cap"] = val(i.Len), val(i.Cap)
		d["lt"] = typ(i.Len.Type())
	case *ssa.MapUpdate:
		d["m"], d["key"], d["v"] = val(i.Map), val(i.Key), val(i.Value)
	case *ssa.Next:
		d["x"] = val(i.Iter)
		d["isstr"] = i.IsString
	case *ssa.Range:
		d["x"] = val(i.X)
		d["xt"] = typ(i.X.Type())
	case *ssa.Panic:
		d["x"] = val(i.X)
	case *ssa.Phi:
		d["edges"] = vals(i.Edges)
	case *ssa.Return:
		d["xs"] = vals(i.Results)
	case *ssa.Slice:
		d["x"], d["lo"], d["hi"], d["max"] = val(i.X), val(i.Low), val(i.High), val(i.Max)
		d["xt"] = typ(i.X.Type())
	case *ssa.SliceToArrayPointer:
		d["x"] = val(i.X)
	case *ssa.Store:
		d["addr"], d["v"] = val(i.Addr), val(i.Val)
	case *ssa.TypeAssert:
		d["x"] = val(i.X)
		d["at"] = typ(i.AssertedType)
		d["commaok"] = i.CommaOk
	}
	return d
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.SkipObjectResolution)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	pkg := types.NewPackage(f.Name.Name, f.Name.Name)
	conf := &types.Config{Importer: importer.ForCompiler(fset, "source", nil), Sizes: types.SizesFor("gc", "amd64")}
	sp, _, err := ssautil.BuildPackage(conf, fset, pkg, []*ast.File{f}, ssa.InstantiateGenerics|ssa.SanityCheckFunctions)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	prog := sp.Prog
	methods := map[string]map[string]string{}
	structs := map[string]int{}
	names := []string{}
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			want(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				tab := map[string]string{}
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn != nil {
						want(fn)
						tab[ms.At(i).Obj().Name()] = fn.String()
					}
				}
				methods[types.TypeString(t, nil)] = tab
			}
			structs[n] = typ(m.Type())
		}
	}
	globals := J{}
	for _, n := range names {
		if g, ok := sp.Members[n].(*ssa.Global); ok {
			globals[g.String()] = typ(g.Type())
		}
	}
	funcs := J{}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if len(fn.Blocks) == 0 {
			continue
		}
		ps, fv := []any{}, []any{}
		for _, p := range fn.Params {
			ps = append(ps, J{"name": p.Name(), "type": typ(p.Type())})
		}
		for _, p := range fn.FreeVars {
			fv = append(fv, p.Name())
		}
		bs := []any{}
		for _, b := range fn.Blocks {
			is := []any{}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				is = append(is, instr(in))
			}
			sc, pr := []int{}, []int{}
			for _, s := range b.Succs {
				sc = append(sc, s.Index)
			}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			bs = append(bs, J{"i": is, "succs": sc, "preds": pr})
		}
		rec := -1
		if fn.Recover != nil {
			rec = fn.Recover.Index
		}
		nres := fn.Signature.Results()
		rts := []int{}
		for i := 0; i < nres.Len(); i++ {
			rts = append(rts, typ(nres.At(i).Type()))
		}
		funcs[fn.String()] = J{"params": ps, "free": fv, "blocks": bs, "recover": rec, "results": rts}
	}
	out, _ := json.Marshal(J{"pkg": f.Name.Name, "types": typeTab, "funcs": funcs, "methods": methods, "decls": structs, "globals": globals})
	if err := os.WriteFile(os.Args[2], out, 0o644); err != nil {
		panic(err)
	}
}
