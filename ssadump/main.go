// ssadump lowers one Go package to SSA and writes it as JSON: the input of the condition generator.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]any

var (
	typeIDs = map[string]int{}
	typeTab []J
	fset    *token.FileSet
	pkg     *ssa.Package
	queue   []*ssa.Function
	seen    = map[*ssa.Function]bool{}
	wantNamed []*types.Named
)

func qual(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p == pkg.Pkg {
		return ""
	}
	return p.Path()
}

func tstr(t types.Type) string { return types.TypeString(t, qual) }

func tid(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	s := tstr(t)
	if id, ok := typeIDs[s]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[s] = id
	e := J{"s": s}
	typeTab = append(typeTab, e)
	switch x := t.(type) {
	case *types.Named:
		e["k"] = "named"
		e["name"] = s
		e["local"] = x.Obj().Pkg() == pkg.Pkg
		e["u"] = tid(x.Underlying())
		if x.Obj().Pkg() == pkg.Pkg {
			wantNamed = append(wantNamed, x)
		}
	case *types.Basic:
		e["k"] = "basic"
		e["name"] = x.Name()
	case *types.Pointer:
		e["k"] = "ptr"
		e["e"] = tid(x.Elem())
	case *types.Slice:
		e["k"] = "slice"
		e["e"] = tid(x.Elem())
	case *types.Array:
		e["k"] = "array"
		e["e"] = tid(x.Elem())
		e["n"] = x.Len()
	case *types.Map:
		e["k"] = "map"
		e["key"] = tid(x.Key())
		e["e"] = tid(x.Elem())
	case *types.Chan:
		e["k"] = "chan"
		e["e"] = tid(x.Elem())
	case *types.Struct:
		e["k"] = "struct"
		var fs []J
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, J{"n": f.Name(), "t": tid(f.Type()), "tag": x.Tag(i), "emb": f.Embedded()})
		}
		e["fields"] = fs
	case *types.Tuple:
		e["k"] = "tuple"
		var fs []int
		for i := 0; i < x.Len(); i++ {
			fs = append(fs, tid(x.At(i).Type()))
		}
		e["elems"] = fs
	case *types.Signature:
		e["k"] = "func"
		e["params"] = tid(x.Params())
		e["results"] = tid(x.Results())
		e["variadic"] = x.Variadic()
	case *types.Interface:
		e["k"] = "iface"
		var ms []string
		for i := 0; i < x.NumMethods(); i++ {
			ms = append(ms, x.Method(i).Name())
		}
		e["methods"] = ms
	default:
		e["k"] = "other"
	}
	return id
}

func fname(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return f.RelString(pkg.Pkg)
}

func val(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		r := J{"k": "const", "t": tid(x.Type())}
		if x.Value == nil {
			r["v"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				r["v"] = constant.BoolVal(x.Value)
			case constant.String:
				r["v"] = []byte(constant.StringVal(x.Value))
				r["str"] = true
			case constant.Int:
				r["v"] = x.Value.ExactString()
			default:
				r["v"] = x.Value.ExactString()
				r["float"] = true
			}
		}
		return r
	case *ssa.Function:
		enq(x)
		return J{"k": "func", "n": fname(x), "t": tid(x.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": x.Name()}
	case *ssa.Global:
		return J{"k": "global", "n": x.RelString(pkg.Pkg), "t": tid(x.Type())}
	case *ssa.Parameter:
		return J{"k": "reg", "n": "p:" + x.Name() + fmt.Sprint(paramIdx(x)), "t": tid(x.Type())}
	case *ssa.FreeVar:
		return J{"k": "reg", "n": "f:" + x.Name(), "t": tid(x.Type())}
	default:
		return J{"k": "reg", "n": v.Name(), "t": tid(v.Type())}
	}
}

func paramIdx(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func enq(f *ssa.Function) {
	if seen[f] {
		return
	}
	seen[f] = true
	if f.Pkg == pkg || (f.Parent() != nil && f.Parent().Pkg == pkg) || (f.Pkg == nil && f.Synthetic != "") {
		queue = append(queue, f)
	}
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) J {
	r := J{"args": vals(c.Args)}
	if c.IsInvoke() {
		r["invoke"] = c.Method.Name()
		r["recv"] = val(c.Value)
	} else {
		r["fn"] = val(c.Value)
		if f := c.StaticCallee(); f != nil {
			r["static"] = fname(f)
			enq(f)
		}
	}
	r["sig"] = tid(c.Signature())
	return r
}

func instr(in ssa.Instruction) J {
	r := J{"op": fmt.Sprintf("%T", in)[5:]}
	if p := in.Pos(); p.IsValid() {
		r["line"] = fset.Position(p).Line
	}
	if v, ok := in.(ssa.Value); ok {
		r["reg"] = v.Name()
		r["t"] = tid(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		r["heap"] = x.Heap
		r["comment"] = x.Comment
	case *ssa.BinOp:
		r["o"] = x.Op.String()
		r["x"] = val(x.X)
		r["y"] = val(x.Y)
	case *ssa.UnOp:
		r["o"] = x.Op.String()
		r["x"] = val(x.X)
		r["commaok"] = x.CommaOk
	case *ssa.Call:
		r["call"] = call(&x.Call)
	case *ssa.Defer:
		r["call"] = call(&x.Call)
	case *ssa.Go:
		r["call"] = call(&x.Call)
	case *ssa.ChangeType:
		r["x"] = val(x.X)
	case *ssa.ChangeInterface:
		r["x"] = val(x.X)
	case *ssa.Convert:
		r["x"] = val(x.X)
	case *ssa.MultiConvert:
		r["x"] = val(x.X)
	case *ssa.SliceToArrayPointer:
		r["x"] = val(x.X)
	case *ssa.MakeInterface:
		r["x"] = val(x.X)
	case *ssa.MakeClosure:
		r["fn"] = val(x.Fn)
		r["binds"] = vals(x.Bindings)
	case *ssa.MakeSlice:
		r["len"] = val(x.Len)
		r["cap"] = val(x.Cap)
	case *ssa.MakeMap:
	case *ssa.MakeChan:
		r["size"] = val(x.Size)
	case *ssa.Field:
		r["x"] = val(x.X)
		r["f"] = x.Field
	case *ssa.FieldAddr:
		r["x"] = val(x.X)
		r["f"] = x.Field
	case *ssa.Index:
		r["x"] = val(x.X)
		r["i"] = val(x.Index)
	case *ssa.IndexAddr:
		r["x"] = val(x.X)
		r["i"] = val(x.Index)
	case *ssa.Lookup:
		r["x"] = val(x.X)
		r["i"] = val(x.Index)
		r["commaok"] = x.CommaOk
	case *ssa.Slice:
		r["x"] = val(x.X)
		r["low"] = val(x.Low)
		r["high"] = val(x.High)
		r["max"] = val(x.Max)
	case *ssa.Phi:
		r["edges"] = vals(x.Edges)
		r["comment"] = x.Comment
	case *ssa.Extract:
		r["x"] = val(x.Tuple)
		r["i"] = x.Index
	case *ssa.Range:
		r["x"] = val(x.X)
	case *ssa.Next:
		r["x"] = val(x.Iter)
		r["isstr"] = x.IsString
	case *ssa.TypeAssert:
		r["x"] = val(x.X)
		r["at"] = tid(x.AssertedType)
		r["commaok"] = x.CommaOk
	case *ssa.Select:
		var st []J
		for _, s := range x.States {
			st = append(st, J{"dir": int(s.Dir), "chan": val(s.Chan), "send": val(s.Send)})
		}
		r["states"] = st
		r["blocking"] = x.Blocking
	case *ssa.If:
		r["x"] = val(x.Cond)
	case *ssa.Jump:
	case *ssa.Return:
		r["rs"] = vals(x.Results)
	case *ssa.Panic:
		r["x"] = val(x.X)
	case *ssa.RunDefers:
	case *ssa.Send:
		r["chan"] = val(x.Chan)
		r["x"] = val(x.X)
	case *ssa.Store:
		r["addr"] = val(x.Addr)
		r["x"] = val(x.Val)
	case *ssa.MapUpdate:
		r["m"] = val(x.Map)
		r["key"] = val(x.Key)
		r["x"] = val(x.Value)
	case *ssa.DebugRef:
		return nil
	default:
		r["unsupported"] = true
	}
	return r
}

func dumpFunc(f *ssa.Function) J {
	r := J{"name": fname(f), "synthetic": f.Synthetic, "sig": tid(f.Signature)}
	if f.Pos().IsValid() {
		p := fset.Position(f.Pos())
		r["file"] = p.Filename
		r["line"] = p.Line
	}
	var ps []J
	for i, p := range f.Params {
		ps = append(ps, J{"n": "p:" + p.Name() + fmt.Sprint(i), "name": p.Name(), "t": tid(p.Type())})
	}
	r["params"] = ps
	var fv []J
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": "f:" + p.Name(), "t": tid(p.Type())})
	}
	r["freevars"] = fv
	res := f.Signature.Results()
	var rt []J
	for i := 0; i < res.Len(); i++ {
		rt = append(rt, J{"n": res.At(i).Name(), "t": tid(res.At(i).Type())})
	}
	r["results"] = rt
	var bs []J
	for _, b := range f.Blocks {
		preds, succs := []int{}, []int{}
		for _, p := range b.Preds {
			preds = append(preds, p.Index)
		}
		for _, p := range b.Succs {
			succs = append(succs, p.Index)
		}
		ins := []J{}
		for _, in := range b.Instrs {
			if j := instr(in); j != nil {
				ins = append(ins, j)
			}
		}
		bs = append(bs, J{"i": b.Index, "preds": preds, "succs": succs, "instrs": ins, "comment": b.Comment})
	}
	r["blocks"] = bs
	if f.Recover != nil {
		r["recover"] = f.Recover.Index
	}
	return r
}

func main() {
	dir, pattern, out := os.Args[1], os.Args[2], os.Args[3]
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
	}
	ps, err := packages.Load(cfg, pattern)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(ps) > 0 {
		os.Exit(2)
	}
	prog, pkgs := ssautil.Packages(ps, 0)
	pkg = pkgs[0]
	pkg.Build()
	fset = prog.Fset
	// all members and methods
	var names []string
	for n := range pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	methods := J{}
	globals := J{}
	addMethods := func(t types.Type) {
		ms := prog.MethodSets.MethodSet(t)
		m := J{}
		for i := 0; i < ms.Len(); i++ {
			fn := prog.MethodValue(ms.At(i))
			if fn == nil {
				continue
			}
			enq(fn)
			m[ms.At(i).Obj().Name()] = fname(fn)
		}
		if len(m) > 0 {
			methods[fmt.Sprint(tid(t))] = m
		}
	}
	for _, n := range names {
		switch x := pkg.Members[n].(type) {
		case *ssa.Function:
			enq(x)
		case *ssa.Global:
			globals[x.RelString(pkg.Pkg)] = J{"t": tid(x.Type())}
		case *ssa.Type:
			if types.IsInterface(x.Type()) {
				tid(x.Type())
				continue
			}
			addMethods(x.Type())
			addMethods(types.NewPointer(x.Type()))
		}
	}
	funcs := J{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		for _, a := range f.AnonFuncs {
			enq(a)
		}
		funcs[fname(f)] = dumpFunc(f)
	}
	consts := J{}
	for _, n := range names {
		if x, ok := pkg.Members[n].(*ssa.NamedConst); ok && x.Value.Value != nil && x.Value.Value.Kind() == constant.Int {
			consts[n] = x.Value.Value.ExactString()
		}
	}
	o := J{"pkg": pkg.Pkg.Path(), "funcs": funcs, "types": typeTab, "methods": methods, "globals": globals, "consts": consts}
	w, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := json.NewEncoder(w).Encode(o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w.Close()
}
