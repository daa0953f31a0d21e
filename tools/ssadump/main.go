// ssadump compiles packages of the module in the current directory to SSA form
// and prints them as JSON for the verification condition generator.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var (
	typeIdx = map[string]int{}
	typeTab []J
	fset    *token.FileSet
	strs    = map[string]bool{}
)

func typ(t types.Type) int {
	key := types.TypeString(t, nil)
	if i, ok := typeIdx[key]; ok {
		return i
	}
	i := len(typeTab)
	typeIdx[key] = i
	typeTab = append(typeTab, nil)
	j := J{"s": key}
	switch t := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
	case *types.Alias:
		u := types.Unalias(t)
		j["k"] = "alias"
		j["u"] = typ(u)
	case *types.Named:
		j["k"] = "named"
		j["name"] = key
		j["u"] = typ(t.Underlying())
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typ(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typ(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typ(t.Elem())
		j["n"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = typ(t.Key())
		j["e"] = typ(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["e"] = typ(t.Elem())
	case *types.Struct:
		j["k"] = "struct"
		var fs []J
		for k := 0; k < t.NumFields(); k++ {
			fs = append(fs, J{"name": t.Field(k).Name(), "t": typ(t.Field(k).Type())})
		}
		j["fields"] = fs
	case *types.Tuple:
		j["k"] = "tuple"
		var fs []int
		for k := 0; k < t.Len(); k++ {
			fs = append(fs, typ(t.At(k).Type()))
		}
		j["elems"] = fs
	case *types.Signature:
		j["k"] = "func"
	case *types.Interface:
		j["k"] = "iface"
	default:
		j["k"] = "other"
		j["go"] = fmt.Sprintf("%T", t)
	}
	typeTab[i] = j
	return i
}

func constVal(v constant.Value, t types.Type) interface{} {
	if v == nil {
		return nil
	}
	switch v.Kind() {
	case constant.Bool:
		return constant.BoolVal(v)
	case constant.String:
		s := constant.StringVal(v)
		strs[s] = true
		b := []int{}
		for i := 0; i < len(s); i++ {
			b = append(b, int(s[i]))
		}
		return J{"bytes": b}
	case constant.Int:
		return J{"int": v.ExactString()}
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return J{"int": constant.ToInt(v).ExactString()}
		}
		f, _ := constant.Float64Val(v)
		return J{"float": strconv.FormatFloat(f, 'g', -1, 64), "exact": v.ExactString()}
	}
	return v.ExactString()
}

func val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		t := v.Type()
		var cv interface{}
		if v.Value != nil {
			cv = constVal(v.Value, t)
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && v.Value.Kind() == constant.Int {
				f, _ := constant.Float64Val(v.Value)
				cv = J{"float": strconv.FormatFloat(f, 'g', -1, 64), "exact": v.Value.ExactString()}
			}
		}
		return J{"k": "c", "t": typ(t), "v": cv}
	case *ssa.Global:
		return J{"k": "g", "n": v.String(), "t": typ(v.Type())}
	case *ssa.Function:
		return J{"k": "f", "n": v.String()}
	case *ssa.Builtin:
		return J{"k": "b", "n": v.Name()}
	}
	return J{"k": "r", "n": v.Name()}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon, j J) {
	j["args"] = vals(c.Args)
	if c.IsInvoke() {
		j["recv"] = val(c.Value)
		j["method"] = c.Method.FullName()
		j["mname"] = c.Method.Name()
	} else {
		j["fn"] = val(c.Value)
	}
	j["sig"] = c.Signature().String()
	j["rt"] = typ(c.Signature().Results())
}

func instr(in ssa.Instruction) J {
	j := J{}
	if p := in.Pos(); p.IsValid() {
		pp := fset.PositionFor(p, false)
		j["line"] = pp.Line
	}
	if v, ok := in.(ssa.Value); ok {
		j["n"] = v.Name()
		j["t"] = typ(v.Type())
	}
	set := func(op string) { j["op"] = op }
	switch in := in.(type) {
	case *ssa.Alloc:
		set("alloc")
		j["heap"] = in.Heap
		j["comment"] = in.Comment
	case *ssa.BinOp:
		set("binop")
		j["tok"] = in.Op.String()
		j["x"], j["y"] = val(in.X), val(in.Y)
		j["xt"], j["yt"] = typ(in.X.Type()), typ(in.Y.Type())
	case *ssa.UnOp:
		set("unop")
		j["tok"] = in.Op.String()
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
		j["commaok"] = in.CommaOk
	case *ssa.Call:
		set("call")
		call(&in.Call, j)
	case *ssa.Defer:
		set("defer")
		call(&in.Call, j)
	case *ssa.Go:
		set("go")
		call(&in.Call, j)
	case *ssa.ChangeInterface:
		set("changeiface")
		j["x"] = val(in.X)
	case *ssa.ChangeType:
		set("changetype")
		j["x"] = val(in.X)
	case *ssa.Convert:
		set("convert")
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.Extract:
		set("extract")
		j["x"] = val(in.Tuple)
		j["i"] = in.Index
	case *ssa.Field:
		set("field")
		j["x"] = val(in.X)
		j["i"] = in.Field
		j["xt"] = typ(in.X.Type())
	case *ssa.FieldAddr:
		set("fieldaddr")
		j["x"] = val(in.X)
		j["i"] = in.Field
		j["xt"] = typ(in.X.Type())
	case *ssa.If:
		set("if")
		j["x"] = val(in.Cond)
	case *ssa.Index:
		set("index")
		j["x"], j["y"] = val(in.X), val(in.Index)
		j["xt"] = typ(in.X.Type())
	case *ssa.IndexAddr:
		set("indexaddr")
		j["x"], j["y"] = val(in.X), val(in.Index)
		j["xt"] = typ(in.X.Type())
	case *ssa.Jump:
		set("jump")
	case *ssa.Lookup:
		set("lookup")
		j["x"], j["y"] = val(in.X), val(in.Index)
		j["xt"] = typ(in.X.Type())
		j["commaok"] = in.CommaOk
	case *ssa.MakeChan:
		set("makechan")
		j["size"] = val(in.Size)
	case *ssa.MakeClosure:
		set("makeclosure")
		j["fn"] = val(in.Fn)
		j["binds"] = vals(in.Bindings)
	case *ssa.MakeInterface:
		set("makeiface")
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.MakeMap:
		set("makemap")
	case *ssa.MakeSlice:
		set("makeslice")
		j["len"], j["cap"] = val(in.Len), val(in.Cap)
	case *ssa.MapUpdate:
		set("mapupdate")
		j["m"], j["key"], j["v"] = val(in.Map), val(in.Key), val(in.Value)
	case *ssa.Next:
		set("next")
		j["x"] = val(in.Iter)
		j["isstring"] = in.IsString
	case *ssa.Panic:
		set("panic")
		j["x"] = val(in.X)
	case *ssa.Phi:
		set("phi")
		j["edges"] = vals(in.Edges)
		j["comment"] = in.Comment
	case *ssa.Range:
		set("range")
		j["x"] = val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.Return:
		set("return")
		j["res"] = vals(in.Results)
	case *ssa.RunDefers:
		set("rundefers")
	case *ssa.Select:
		set("select")
		j["blocking"] = in.Blocking
		var ss []J
		for _, s := range in.States {
			ss = append(ss, J{"dir": int(s.Dir), "chan": val(s.Chan), "send": val(s.Send)})
		}
		j["states"] = ss
	case *ssa.Send:
		set("send")
		j["chan"], j["x"] = val(in.Chan), val(in.X)
	case *ssa.Slice:
		set("slice")
		j["x"], j["lo"], j["hi"], j["max"] = val(in.X), val(in.Low), val(in.High), val(in.Max)
		j["xt"] = typ(in.X.Type())
	case *ssa.Store:
		set("store")
		j["addr"], j["v"] = val(in.Addr), val(in.Val)
	case *ssa.TypeAssert:
		set("typeassert")
		j["x"] = val(in.X)
		j["at"] = typ(in.AssertedType)
		j["commaok"] = in.CommaOk
	case *ssa.DebugRef:
		return nil
	default:
		set("unsupported")
		j["go"] = fmt.Sprintf("%T", in)
	}
	return j
}

func function(f *ssa.Function) J {
	j := J{"name": f.String(), "short": f.Name()}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	p := fset.PositionFor(f.Pos(), false)
	j["file"], j["line"] = p.Filename, p.Line
	params := []J{}
	for _, q := range f.Params {
		params = append(params, J{"n": q.Name(), "t": typ(q.Type())})
	}
	j["params"] = params
	fvs := []J{}
	for _, q := range f.FreeVars {
		fvs = append(fvs, J{"n": q.Name(), "t": typ(q.Type())})
	}
	j["freevars"] = fvs
	j["rt"] = typ(f.Signature.Results())
	blocks := []J{}
	for _, b := range f.Blocks {
		bj := J{"i": b.Index, "comment": b.Comment}
		ps, ss := []int{}, []int{}
		for _, x := range b.Preds {
			ps = append(ps, x.Index)
		}
		for _, x := range b.Succs {
			ss = append(ss, x.Index)
		}
		bj["preds"], bj["succs"] = ps, ss
		is := []J{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		bj["instrs"] = is
		blocks = append(blocks, bj)
	}
	j["blocks"] = blocks
	return j
}

func main() {
	fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Fset: fset,
	}
	pkgs, err := packages.Load(cfg, os.Args[1:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	mine := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		mine[p] = true
		p.Build()
	}
	all := ssautil.AllFunctions(prog)
	fns := map[string]J{}
	// Every method of every named type, reachable or not.
	for p := range mine {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for k := 0; k < ms.Len(); k++ {
						if f := prog.MethodValue(ms.At(k)); f != nil {
							all[f] = true
						}
					}
				}
			}
		}
	}
	for f := range all {
		if f.Blocks == nil {
			if f.Pkg != nil && mine[f.Pkg] {
				fns[f.String()] = function(f)
			}
			continue
		}
		if f.Pkg != nil && !mine[f.Pkg] {
			continue
		}
		fns[f.String()] = function(f)
	}
	methods := map[string]string{}
	for p := range mine {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for k := 0; k < ms.Len(); k++ {
						if f := prog.MethodValue(ms.At(k)); f != nil {
							methods[types.TypeString(tt, nil)+"."+ms.At(k).Obj().Name()] = f.String()
						}
					}
				}
			}
		}
	}
	globals := map[string]int{}
	for p := range mine {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				globals[g.String()] = typ(g.Type())
			}
		}
	}
	var ss []string
	for s := range strs {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	out := J{"types": typeTab, "funcs": fns, "methods": methods, "globals": globals, "strings": ss}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(out); err != nil {
		panic(err)
	}
}
