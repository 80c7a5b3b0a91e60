package main

import (
	"encoding/json"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

// walk: record the listener events of one walk as
// [phase, type, lo, hi, key, scope, parent type, parent lo, parent hi]
// stop: number of before events after which the walk is stopped (0: never)
func init() {
	ops["walk"] = func(r *Req, res *Res) {
		var arg struct {
			Stop int  `json:"stop"`
			Path bool `json:"path"`
		}
		if r.Arg != nil {
			json.Unmarshal(r.Arg, &arg)
		}
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		ctx := walk.NewWalkCtx(ast, p.Symtab())
		ctx.Path = arg.Path
		evs := [][]interface{}{}
		n := 0
		rec := func(phase string) walk.ListenFn {
			return func(node parser.Node, key string, vc *walk.VisitorCtx) {
				n++
				rng := node.Range()
				ev := []interface{}{phase, int(node.Type()), node.Type().String(), rng.Lo, rng.Hi, key, vc.ScopeId()}
				if pn := vc.ParentNode(); pn != nil && len(evs) > 0 {
					ev = append(ev, pn.Type().String(), pn.Range().Lo, pn.Range().Hi)
				}
				if arg.Path {
					ev = append(ev, append([]string{}, vc.Path...))
				}
				evs = append(evs, ev)
				if arg.Stop > 0 && n == arg.Stop {
					vc.WalkCtx.Stop()
				}
			}
		}
		walk.AddBeforeListener(&ctx.Listeners, &walk.Listener{Id: "vb", Handle: rec("b")})
		walk.AddAfterListener(&ctx.Listeners, &walk.Listener{Id: "va", Handle: rec("a")})
		walk.VisitNode(ast, "", ctx.VisitorCtx())
		res.Val = evs
		res.Ok = true
	}
}
