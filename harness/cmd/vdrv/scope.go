package main

import (
	"sort"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

// scope: for every identifier met by a walk
// [lo, hi, name, key, parent type, scope id, lo of the binding (-1: none), bind kind, scope id of the binding]
// and the scope tree as [id, up, node lo, node hi, names]
func init() {
	ops["scope"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		ctx := walk.NewWalkCtx(ast, p.Symtab())
		ids := [][]interface{}{}
		bad := []string{}
		walk.AddNodeBeforeListener(&ctx.Listeners, parser.N_NAME, &walk.Listener{Id: "v", Handle: func(node parser.Node, key string, vc *walk.VisitorCtx) {
			id := node.(*parser.Ident)
			rng := id.Range()
			s := vc.Scope()
			if s == nil {
				bad = append(bad, "no scope")
				return
			}
			e := []interface{}{rng.Lo, rng.Hi, id.Val(), key, vc.ParentNodeType().String(), s.Id}
			if ref := s.BindingOf(id.Val()); ref != nil {
				sid := -1
				if ref.Scope != nil {
					sid = ref.Scope.Id
				}
				e = append(e, ref.Id.Range().Lo, int(ref.BindKind), sid)
			} else {
				e = append(e, -1, 0, -1)
			}
			ids = append(ids, e)
		}})
		walk.VisitNode(ast, "", ctx.VisitorCtx())
		tree := [][]interface{}{}
		for id, s := range p.Symtab().Scopes {
			up := -1
			if s.Up != nil {
				up = s.Up.Id
			}
			lo, hi := -1, -1
			if s.Node != nil {
				lo, hi = int(s.Node.Range().Lo), int(s.Node.Range().Hi)
			}
			tree = append(tree, []interface{}{id, s.Id, up, lo, hi})
		}
		sort.Slice(tree, func(i, j int) bool { return tree[i][0].(int) < tree[j][0].(int) })
		res.Val = map[string]interface{}{"ids": ids, "tree": tree, "bad": bad}
		res.Ok = true
	}
}
