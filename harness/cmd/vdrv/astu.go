package main

import (
	"fmt"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

// astu: what the helpers answer for every node, as
// [type, lo, hi, names in declaration, all, names, property name, name, flags]
// flags: 1 primitive, 2 plain array, 4 plain object literal, 8 plain, 16 function
// and the answers which do not agree with what was observed during the walk
func init() {
	ops["astu"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		type mark struct {
			n       parser.Node
			in, out []int
		}
		recs := [][]interface{}{}
		bad := []string{}
		fail := func(f string, a ...interface{}) {
			if len(bad) < 5 {
				bad = append(bad, fmt.Sprintf(f, a...))
			}
		}
		safe := func(what string, n parser.Node, f func()) {
			defer func() {
				if e := recover(); e != nil {
					fail("%s fails for %s: %v", what, n.Type(), e)
				}
			}()
			f()
		}
		marks := map[parser.Node]*mark{}
		order := []*mark{}
		stack := []parser.Node{}
		imports := []parser.Node{}
		clock := 0
		seed := uint32(len(order)*7 + 12345)
		rnd := func(n int) int {
			seed = seed*1664525 + 1013904223
			return int(seed>>8) % n
		}
		asked := 0
		bit := func(b bool, k int) int {
			if b {
				return k
			}
			return 0
		}
		ctx := walk.NewWalkCtx(ast, p.Symtab())
		walk.AddBeforeListener(&ctx.Listeners, &walk.Listener{Id: "b", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
			clock++
			if marks[n] == nil {
				marks[n] = &mark{n: n}
				order = append(order, marks[n])
			}
			marks[n].in = append(marks[n].in, clock)
			if n.Type() == parser.N_STMT_IMPORT {
				imports = append(imports, n)
			}
			// the nearest node of one of the types around this one, not beyond the barrier
			if len(stack) > 0 {
				for i := 0; i < 2; i++ {
					target := []parser.NodeType{stack[rnd(len(stack))].Type(), parser.N_EXPR_CALL}
					barrier := []parser.NodeType{}
					if rnd(2) == 0 {
						barrier = append(barrier, stack[rnd(len(stack))].Type())
					}
					has := func(ts []parser.NodeType, t parser.NodeType) bool {
						for _, x := range ts {
							if x == t {
								return true
							}
						}
						return false
					}
					var want parser.Node
					for k := len(stack) - 1; k >= 0; k-- {
						if has(target, stack[k].Type()) {
							want = stack[k]
							break
						}
						if has(barrier, stack[k].Type()) {
							break
						}
					}
					safe("GetParent", n, func() {
						asked++
						got, gc := astutil.GetParent(vc, target, barrier)
						if got != want {
							fail("GetParent of %s@%d, target %v, barrier %v: %v instead of %v", n.Type(), n.Range().Lo, target, barrier, got, want)
						} else if want != nil && gc.ParentNode() != want {
							fail("GetParent of %s@%d: the context is not the one of the child of the node found", n.Type(), n.Range().Lo)
						}
					})
				}
			}
			safe("the helper", n, func() {
				names, all := astutil.NamesInDecNode(n)
				rec := []interface{}{n.Type().String(), n.Range().Lo, n.Range().Hi, names, all, astutil.GetNodeNames(n), astutil.GetStaticPropertyName(n), astutil.GetName(n),
					bit(astutil.IsPrimitive(n), 1) | bit(astutil.IsPlainArr(n), 2) | bit(astutil.IsPlainObjLit(n), 4) | bit(astutil.IsPlainObj(n), 8) | bit(astutil.IsFn(n), 16)}
				recs = append(recs, rec)
			})
			if vd, ok := n.(*parser.VarDecStmt); ok {
				safe("GetVarDec", n, func() {
					first := map[string]parser.Node{}
					for _, d := range vd.DecList() {
						if id, ok := d.(*parser.VarDec).Id().(*parser.Ident); ok && first[id.Val()] == nil {
							first[id.Val()] = d
						}
					}
					first[" none"] = nil
					for k, v := range first {
						asked++
						if got := astutil.GetVarDec(k, vd); (got == nil) != (v == nil) || got != nil && parser.Node(got) != v {
							fail("GetVarDec(%q) in %s@%d", k, n.Type(), n.Range().Lo)
						}
					}
				})
			}
			if im, ok := n.(*parser.ImportDec); ok {
				safe("IdOfLocalInImportDec", n, func() {
					for _, s := range im.Specs() {
						sp := s.(*parser.ImportSpec)
						if sp.Default() || sp.NameSpace() {
							continue
						}
						asked++
						want := ""
						if id, ok := sp.Id().(*parser.Ident); ok {
							want = id.Val()
							if got := astutil.IdOfLocalInImportDec(sp.Local().(*parser.Ident).Val(), im); got != want {
								fail("IdOfLocalInImportDec(%q) is %q", sp.Local().(*parser.Ident).Val(), got)
							}
						}
					}
					if got := astutil.IdOfLocalInImportDec(" none", im); got != "" {
						fail("IdOfLocalInImportDec of a name not imported is %q", got)
					}
				})
			}
			stack = append(stack, n)
		}})
		walk.AddAfterListener(&ctx.Listeners, &walk.Listener{Id: "a", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
			clock++
			stack = stack[:len(stack)-1]
			marks[n].out = append(marks[n].out, clock)
		}})
		walk.VisitNode(ast, "", ctx.VisitorCtx())

		// the import which declares the name, on a second walk since imports may come last
		again := walk.NewWalkCtx(ast, p.Symtab())
		walk.AddNodeBeforeListener(&again.Listeners, parser.N_NAME, &walk.Listener{Id: "i", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
			id := n.(*parser.Ident)
			var want parser.Node
			if ref := vc.Scope().BindingOf(id.Val()); ref != nil && ref.Id != nil {
				for _, im := range imports {
					if im.Range().Lo <= ref.Id.Range().Lo && ref.Id.Range().Hi <= im.Range().Hi {
						want = im
					}
				}
			}
			safe("IsIdentBoundInImportDec", n, func() {
				asked++
				got := astutil.IsIdentBoundInImportDec(id, vc.Scope())
				if (got == nil) != (want == nil) || got != nil && parser.Node(got) != want {
					fail("IsIdentBoundInImportDec(%s@%d)", id.Val(), n.Range().Lo)
				}
			})
		}})
		walk.VisitNode(ast, "", again.VisitorCtx())

		for i := 0; i < 30 && len(order) > 0; i++ {
			a, b := order[rnd(len(order))], order[rnd(len(order))]
			if i%2 == 0 && b.in[0] < a.in[0] {
				a, b = b, a
			}
			want := false
			for k := range a.out {
				for j := range b.out {
					want = want || a.in[k] <= b.in[j] && b.out[j] <= a.out[k]
				}
			}
			safe("IsNodeContains", a.n, func() {
				asked++
				if got := astutil.IsNodeContains(a.n, b.n); got != want {
					fail("IsNodeContains(%s@%d, %s@%d) is %v", a.n.Type(), a.n.Range().Lo, b.n.Type(), b.n.Range().Lo, got)
				}
			})
		}
		res.Ok = true
		res.Val = map[string]interface{}{"recs": recs, "bad": bad, "asked": asked}
	}
	// the branches selected in the first statement for each of the sets of variables, as texts
	ops["select"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		n := ast.(*parser.Prog).Body()[0]
		if es, ok := n.(*parser.ExprStmt); ok {
			n = parser.UnParen(es.Expr())
		}
		out := []interface{}{}
		for _, vars := range varsOf(string(r.Arg)) {
			ts := []string{}
			for _, b := range astutil.SelectTrueBranches(n, vars, p) {
				ts = append(ts, p.Source().RngText(b.Range()))
			}
			out = append(out, ts)
		}
		res.Ok = true
		res.Val = out
	}
}
