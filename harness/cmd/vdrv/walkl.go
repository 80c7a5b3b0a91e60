package main

import (
	"encoding/json"
	"fmt"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

// walkl: walks of one program with many listeners. Recorded are the calls of the
// listeners; the judgement is whether the calls made for each step of the walk are the
// ones the registrations ask for, in the order of the registrations.
func init() {
	ops["walkl"] = func(r *Req, res *Res) {
		var arg struct {
			Rm    int  `json:"rm"`    // the type of node whose listener is removed, as an index in the types met
			Prune int  `json:"prune"` // the type of node whose visitor is replaced, the same
			First bool `json:"first"` // whether the listeners of single types are added before the others
		}
		if r.Arg != nil {
			json.Unmarshal(r.Arg, &arg)
		}
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		bad := []string{}
		fail := func(f string, a ...interface{}) {
			if len(bad) < 5 {
				bad = append(bad, fmt.Sprintf(f, a...))
			}
		}
		type call struct {
			who  string
			node parser.Node
		}
		// the types met and the steps
		types := []parser.NodeType{}
		seen := map[parser.NodeType]bool{}
		var steps []call
		plain := walk.NewWalkCtx(ast, p.Symtab())
		walk.AddBeforeListener(&plain.Listeners, &walk.Listener{Id: "s", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
			steps = append(steps, call{"b", n})
			if !seen[n.Type()] {
				seen[n.Type()] = true
				types = append(types, n.Type())
			}
		}})
		walk.AddAfterListener(&plain.Listeners, &walk.Listener{Id: "t", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) { steps = append(steps, call{"a", n}) }})
		walk.VisitNode(ast, "", plain.VisitorCtx())

		// the walk with all of the listeners
		var calls []call
		rec := func(who string) *walk.Listener {
			return &walk.Listener{Id: who, Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) { calls = append(calls, call{who, n}) }}
		}
		ctx := walk.NewWalkCtx(ast, p.Symtab())
		// the types which share the struct share the events
		names := map[string]bool{}
		for _, t := range types {
			names[t.String()] = true
		}
		alike := []parser.NodeType{}
		for t := range walk.NodeTypes {
			if names[t.String()] {
				alike = append(alike, t)
			}
		}
		single := func() {
			for _, t := range alike {
				walk.AddNodeBeforeListener(&ctx.Listeners, t, rec("bt:"+t.String()))
				walk.AddNodeAfterListener(&ctx.Listeners, t, rec("at:"+t.String()))
			}
		}
		if arg.First {
			single()
		}
		walk.AddBeforeListener(&ctx.Listeners, rec("b1"))
		walk.AddBeforeListener(&ctx.Listeners, rec("b2"))
		walk.AddAfterListener(&ctx.Listeners, rec("a1"))
		walk.AddAfterListener(&ctx.Listeners, rec("a2"))
		if !arg.First {
			single()
		}
		rm := types[arg.Rm%len(types)]
		for _, t := range alike {
			if t.String() == rm.String() {
				walk.AddNodeBeforeListener(&ctx.Listeners, t, rec("removed"))
				walk.AddNodeAfterListener(&ctx.Listeners, t, rec("removed"))
				walk.RemoveListener(&ctx.Listeners, walk.NodeBeforeEvent(t), &walk.Listener{Id: "removed"})
				walk.RemoveListener(&ctx.Listeners, walk.NodeAfterEvent(t), &walk.Listener{Id: "removed"})
			}
		}
		if err := walk.AddListener(&ctx.Listeners, walk.NodeBeforeEvent(rm), &walk.Listener{Id: "b1", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
			calls = append(calls, call{"duplicate", n})
		}}); err == nil {
			fail("a second listener with the same id was added without an error")
		}
		// the listeners of single types are removed and registered again: they come last
		again := arg.Rm%2 == 1
		if again {
			for _, t := range alike {
				for _, e := range []struct {
					ev  parser.NodeType
					who string
				}{{walk.NodeBeforeEvent(t), "bt:"}, {walk.NodeAfterEvent(t), "at:"}} {
					l := rec(e.who + t.String())
					walk.RemoveListener(&ctx.Listeners, e.ev, l)
					if err := walk.AddListener(&ctx.Listeners, e.ev, l); err != nil {
						fail("a listener removed can not be registered again: %v", err)
					}
				}
			}
		}
		run := func(c *walk.WalkCtx, steps []call, what string, none bool) {
			calls = nil
			walk.VisitNode(ast, "", c.VisitorCtx())
			i := 0
			for _, s := range steps {
				ty := s.node.Type().String()
				want := []string{s.who + "1", s.who + "2", s.who + "t:" + ty}
				if arg.First && !again {
					want = []string{s.who + "t:" + ty, s.who + "1", s.who + "2"}
				}
				if none {
					want = nil
				}
				for _, w := range want {
					if i >= len(calls) {
						fail("%s: %s is not called for %s@%d", what, w, ty, s.node.Range().Lo)
						return
					}
					if calls[i].who != w || calls[i].node != s.node {
						fail("%s: for %s@%d, %s is called for %s@%d instead of %s", what, ty, s.node.Range().Lo, calls[i].who, calls[i].node.Type(), calls[i].node.Range().Lo, w)
						return
					}
					i++
				}
			}
			if i < len(calls) {
				fail("%s: %s is called for %s@%d without cause", what, calls[i].who, calls[i].node.Type(), calls[i].node.Range().Lo)
			}
		}
		run(ctx, steps, "the walk", false)
		n := len(calls)
		// the listeners belong to that walk
		run(walk.NewWalkCtx(ast, p.Symtab()), steps, "a walk without listeners", true)

		// a visitor which does not descend leaves out the nodes below it and no other
		cut := types[arg.Prune%len(types)]
		met := 0
		if cut != parser.N_PROG {
			pr := walk.NewWalkCtx(ast, p.Symtab())
			pr.Listeners = ctx.Listeners
			walk.SetVisitor(&pr.Visitors, cut, func(n parser.Node, key string, vc *walk.VisitorCtx) { met++ })
			left := []call{}
			want, depth := 0, 0
			for _, s := range steps {
				if s.node.Type() == cut {
					if s.who == "b" {
						if depth == 0 {
							want++
						}
						depth++
					} else {
						depth--
					}
				} else if depth == 0 {
					left = append(left, s)
				}
			}
			run(pr, left, "the walk with a visitor for "+cut.String(), false)
			if met != want {
				fail("the visitor for %s is called %d times for %d nodes", cut, met, want)
			}
			// and it belongs to that walk as well
			met = 0
			again := walk.NewWalkCtx(ast, p.Symtab())
			again.Listeners = ctx.Listeners
			run(again, steps, "a walk after one with a visitor", false)
			if met != 0 {
				fail("the visitor for %s is called by another walk", cut)
			}
			n += len(calls)
		}
		res.Ok = true
		res.Val = map[string]interface{}{"bad": bad, "calls": n, "types": len(types)}
	}
}

