// govcfront loads the Go packages of the repository from their current source,
// builds go/ssa for them and writes the SSA as JSON for the condition generator.
package main

import (
	"go/ast"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var typesOut = J{}

func tkey(t types.Type) string {
	k := types.TypeString(t, nil)
	if _, ok := typesOut[k]; ok {
		return k
	}
	d := J{}
	typesOut[k] = d
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		d["k"] = "named"
		d["u"] = tkey(u.Underlying())
		var ms []J
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, J{"n": u.Method(i).Name()})
		}
		d["name"] = u.Obj().Name()
		if u.Obj().Pkg() != nil {
			d["pkg"] = u.Obj().Pkg().Path()
		}
		d["m"] = ms
	case *types.Basic:
		d["k"] = "basic"
		d["n"] = u.Name()
	case *types.Pointer:
		d["k"] = "ptr"
		d["e"] = tkey(u.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["e"] = tkey(u.Elem())
	case *types.Array:
		d["k"] = "array"
		d["e"] = tkey(u.Elem())
		d["len"] = u.Len()
	case *types.Map:
		d["k"] = "map"
		d["key"] = tkey(u.Key())
		d["e"] = tkey(u.Elem())
	case *types.Chan:
		d["k"] = "chan"
		d["e"] = tkey(u.Elem())
	case *types.Signature:
		d["k"] = "func"
		d["params"] = tupleKeys(u.Params())
		d["results"] = tupleKeys(u.Results())
		d["variadic"] = u.Variadic()
	case *types.Tuple:
		d["k"] = "tuple"
		d["es"] = tupleKeys(u)
	case *types.Interface:
		d["k"] = "iface"
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		d["m"] = ms
	case *types.Struct:
		d["k"] = "struct"
		fs := []J{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, J{"n": f.Name(), "t": tkey(f.Type()), "emb": f.Embedded()})
		}
		d["fs"] = fs
	default:
		d["k"] = "other"
	}
	return k
}

func tupleKeys(t *types.Tuple) []string {
	r := []string{}
	for i := 0; t != nil && i < t.Len(); i++ {
		r = append(r, tkey(t.At(i).Type()))
	}
	return r
}

func fname(f *ssa.Function) string { return f.String() }

func val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		d := J{"t": tkey(x.Type())}
		if x.Value == nil {
			d["c"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.String:
				d["c"] = constant.StringVal(x.Value)
			case constant.Bool:
				d["c"] = constant.BoolVal(x.Value)
			case constant.Int:
				d["c"] = x.Value.ExactString()
				d["int"] = true
			default:
				d["c"] = x.Value.ExactString()
				d["float"] = true
			}
		}
		return d
	case *ssa.Global:
		return J{"g": x.String(), "t": tkey(x.Type())}
	case *ssa.Function:
		return J{"f": fname(x), "t": tkey(x.Type())}
	case *ssa.Builtin:
		return J{"b": x.Name()}
	default:
		return J{"r": v.Name(), "t": tkey(v.Type())}
	}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func callJ(c *ssa.CallCommon, d J) {
	d["args"] = vals(c.Args)
	if c.IsInvoke() {
		d["recv"] = val(c.Value)
		d["method"] = c.Method.Name()
		d["methodfull"] = c.Method.FullName()
		d["sig"] = tkey(c.Method.Type())
	} else {
		d["fn"] = val(c.Value)
		d["sig"] = tkey(c.Signature())
	}
}

func instrJ(in ssa.Instruction, fset *token.FileSet) J {
	d := J{}
	if v, ok := in.(ssa.Value); ok {
		d["r"] = v.Name()
		d["t"] = tkey(v.Type())
	}
	if p := in.Pos(); p.IsValid() {
		d["line"] = fset.Position(p).Line
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		d["op"] = "Alloc"
		d["heap"] = x.Heap
		d["cm"] = x.Comment
		d["pos"] = int(x.Pos())
	case *ssa.BinOp:
		d["op"] = "BinOp"
		d["o"] = x.Op.String()
		d["x"] = val(x.X)
		d["y"] = val(x.Y)
	case *ssa.UnOp:
		d["op"] = "UnOp"
		d["o"] = x.Op.String()
		d["x"] = val(x.X)
		d["ok"] = x.CommaOk
	case *ssa.Call:
		d["op"] = "Call"
		callJ(&x.Call, d)
	case *ssa.Defer:
		d["op"] = "Defer"
		callJ(&x.Call, d)
	case *ssa.Go:
		d["op"] = "Go"
		callJ(&x.Call, d)
	case *ssa.ChangeInterface:
		d["op"] = "ChangeInterface"
		d["x"] = val(x.X)
	case *ssa.ChangeType:
		d["op"] = "ChangeType"
		d["x"] = val(x.X)
	case *ssa.Convert:
		d["op"] = "Convert"
		d["x"] = val(x.X)
	case *ssa.MultiConvert:
		d["op"] = "MultiConvert"
		d["x"] = val(x.X)
	case *ssa.DebugRef:
		id, ok := x.Expr.(*ast.Ident)
		if !ok || x.X == nil || id.Name == "_" {
			return nil
		}
		switch x.Object().(type) {
		case *types.Var:
		default:
			return nil
		}
		d["op"] = "Dbg"
		d["name"] = id.Name
		d["x"] = val(x.X)
		d["addr"] = x.IsAddr
		d["pos"] = int(x.Object().Pos())
	case *ssa.Extract:
		d["op"] = "Extract"
		d["x"] = val(x.Tuple)
		d["i"] = x.Index
	case *ssa.Field:
		d["op"] = "Field"
		d["x"] = val(x.X)
		d["i"] = x.Field
	case *ssa.FieldAddr:
		d["op"] = "FieldAddr"
		d["x"] = val(x.X)
		d["i"] = x.Field
	case *ssa.If:
		d["op"] = "If"
		d["x"] = val(x.Cond)
	case *ssa.Index:
		d["op"] = "Index"
		d["x"] = val(x.X)
		d["y"] = val(x.Index)
	case *ssa.IndexAddr:
		d["op"] = "IndexAddr"
		d["x"] = val(x.X)
		d["y"] = val(x.Index)
	case *ssa.Jump:
		d["op"] = "Jump"
	case *ssa.Lookup:
		d["op"] = "Lookup"
		d["x"] = val(x.X)
		d["y"] = val(x.Index)
		d["ok"] = x.CommaOk
	case *ssa.MakeChan:
		d["op"] = "MakeChan"
		d["x"] = val(x.Size)
	case *ssa.MakeClosure:
		d["op"] = "MakeClosure"
		d["fn"] = fname(x.Fn.(*ssa.Function))
		d["bind"] = vals(x.Bindings)
	case *ssa.MakeInterface:
		d["op"] = "MakeInterface"
		d["x"] = val(x.X)
	case *ssa.MakeMap:
		d["op"] = "MakeMap"
	case *ssa.MakeSlice:
		d["op"] = "MakeSlice"
		d["len"] = val(x.Len)
		d["cap"] = val(x.Cap)
	case *ssa.MapUpdate:
		d["op"] = "MapUpdate"
		d["x"] = val(x.Map)
		d["key"] = val(x.Key)
		d["v"] = val(x.Value)
	case *ssa.Next:
		d["op"] = "Next"
		d["x"] = val(x.Iter)
		d["str"] = x.IsString
	case *ssa.Panic:
		d["op"] = "Panic"
		d["x"] = val(x.X)
	case *ssa.Phi:
		d["op"] = "Phi"
		d["cm"] = x.Comment
		d["es"] = vals(x.Edges)
	case *ssa.Range:
		d["op"] = "Range"
		d["x"] = val(x.X)
	case *ssa.Return:
		d["op"] = "Return"
		d["xs"] = vals(x.Results)
	case *ssa.RunDefers:
		d["op"] = "RunDefers"
	case *ssa.Select:
		d["op"] = "Select"
		d["blocking"] = x.Blocking
		st := []J{}
		for _, s := range x.States {
			st = append(st, J{"dir": int(s.Dir), "chan": val(s.Chan), "send": val(s.Send)})
		}
		d["states"] = st
	case *ssa.Send:
		d["op"] = "Send"
		d["x"] = val(x.Chan)
		d["v"] = val(x.X)
	case *ssa.Slice:
		d["op"] = "Slice"
		d["x"] = val(x.X)
		d["lo"] = val(x.Low)
		d["hi"] = val(x.High)
		d["max"] = val(x.Max)
	case *ssa.Store:
		d["op"] = "Store"
		d["a"] = val(x.Addr)
		d["v"] = val(x.Val)
	case *ssa.TypeAssert:
		d["op"] = "TypeAssert"
		d["x"] = val(x.X)
		d["at"] = tkey(x.AssertedType)
		d["ok"] = x.CommaOk
	default:
		d["op"] = fmt.Sprintf("?%T", in)
	}
	return d
}

func main() {
	dir := os.Args[1]
	out := os.Args[2]
	pats := os.Args[3:]
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(4)
	}
	prog, ps := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	mine := map[*ssa.Package]bool{}
	var pnames []string
	for _, p := range ps {
		if p != nil {
			mine[p] = true
			pnames = append(pnames, p.Pkg.Path())
		}
	}
	funcs := J{}
	globals := J{}
	methods := J{}
	all := ssautil.AllFunctions(prog)
	var fl []*ssa.Function
	for f := range all {
		fl = append(fl, f)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].String() < fl[j].String() })
	for _, f := range fl {
		if f.Blocks == nil {
			continue
		}
		if f.Pkg != nil && !mine[f.Pkg] {
			continue
		}
		if f.Pkg == nil && f.Synthetic == "" {
			continue
		}
		d := J{"name": f.Name(), "synthetic": f.Synthetic}
		if f.Pkg != nil {
			d["pkg"] = f.Pkg.Pkg.Path()
		}
		if f.Parent() != nil {
			d["parent"] = fname(f.Parent())
		}
		pr := []J{}
		for _, p := range f.Params {
			pr = append(pr, J{"n": p.Name(), "t": tkey(p.Type())})
		}
		d["params"] = pr
		fv := []J{}
		for _, p := range f.FreeVars {
			fv = append(fv, J{"n": p.Name(), "t": tkey(p.Type()), "pos": int(p.Pos())})
		}
		d["freevars"] = fv
		d["results"] = tupleKeys(f.Signature.Results())
		rn := []string{}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rn = append(rn, f.Signature.Results().At(i).Name())
		}
		d["resnames"] = rn
		if f.Pos().IsValid() {
			ps := prog.Fset.Position(f.Pos())
			d["file"] = strings.TrimPrefix(ps.Filename, dir+"/")
			d["line"] = ps.Line
		}
		bl := []J{}
		for _, b := range f.Blocks {
			is := []J{}
			for _, in := range b.Instrs {
				if j := instrJ(in, prog.Fset); j != nil {
					is = append(is, j)
				}
			}
			sc := []int{}
			for _, s := range b.Succs {
				sc = append(sc, s.Index)
			}
			pd := []int{}
			for _, s := range b.Preds {
				pd = append(pd, s.Index)
			}
			bl = append(bl, J{"i": is, "s": sc, "p": pd, "cm": b.Comment})
		}
		d["blocks"] = bl
		if f.Recover != nil {
			d["recover"] = f.Recover.Index
		}
		funcs[fname(f)] = d
	}
	for _, p := range ps {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Global:
				globals[x.String()] = tkey(x.Type())
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := prog.MethodSets.MethodSet(t)
					mm := J{}
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							mm[ms.At(i).Obj().Name()] = fname(f)
						}
					}
					methods[tkey(t)] = mm
				}
			}
		}
	}
	sort.Strings(pnames)
	o, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(o)
	if err := enc.Encode(J{"funcs": funcs, "types": typesOut, "globals": globals, "methods": methods, "pkgs": pnames}); err != nil {
		panic(err)
	}
	o.Close()
}
