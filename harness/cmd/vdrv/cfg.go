package main

import (
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/analysis"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

// cfg: the control flow graphs of the program and of its functions, every graph as
// {lo, blocks: {id: [[marker, lo], ...]}, edges: [[src, dst, kind, tag]], head}
// where the markers are the number literals of the block in order
func init() {
	ops["cfg"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		a := analysis.NewAnalysis(ast, p.Symtab(), p.Source())
		fns := []parser.Node{}
		for _, t := range []parser.NodeType{parser.N_STMT_FN, parser.N_EXPR_FN, parser.N_EXPR_ARROW} {
			walk.AddNodeBeforeListener(&a.WalkCtx.Listeners, t, &walk.Listener{Id: "vfn", Handle: func(node parser.Node, key string, vc *walk.VisitorCtx) {
				fns = append(fns, node)
			}})
		}
		byKey := map[string][]parser.Node{}
		walk.AddBeforeListener(&a.WalkCtx.Listeners, &walk.Listener{Id: "vall", Handle: func(node parser.Node, key string, vc *walk.VisitorCtx) {
			k := node.Type().String() + " " + strconv.Itoa(int(node.Range().Lo)) + " " + strconv.Itoa(int(node.Range().Hi))
			byKey[k] = append(byKey[k], node)
		}})
		a.Analyze()
		out := []interface{}{}
		add := func(lo int, g *analysis.Graph) {
			if g == nil {
				return
			}
			blocks := map[string]interface{}{}
			edges := [][]interface{}{}
			bad := []string{}
			seen := map[*analysis.Block]bool{}
			todo := []*analysis.Block{g.Head}
			ends := map[string][]*analysis.Block{}
			for len(todo) > 0 {
				b := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				if seen[b] {
					continue
				}
				seen[b] = true
				ms := [][]interface{}{}
				for _, n := range b.Nodes {
					if in, ok := n.(*analysis.InfoNode); ok {
						if q := strings.Split(in.String(), ":"); len(q) > 1 && (q[len(q)-1] == "enter" || q[len(q)-1] == "exit") {
							k := strings.SplitN(q[0], "(", 2)[0] + " " + strconv.Itoa(int(n.Range().Lo)) + " " + strconv.Itoa(int(n.Range().Hi))
							ends[k+" "+q[len(q)-1]] = append(ends[k+" "+q[len(q)-1]], b)
						}
					}
					if n.Type() == parser.N_LIT_NUM {
						ms = append(ms, []interface{}{parser.NodeText(n, p.Source()), n.Range().Lo})
						if g.BlkOfNode(n) != b {
							bad = append(bad, "BlkOfNode")
						}
					}
				}
				id := strconv.Itoa(int(b.Id()))
				if _, ok := blocks[id]; ok {
					bad = append(bad, "block id "+id+" is not unique")
				}
				blocks[id] = map[string]interface{}{"m": ms, "cut": b.IsInCut(), "n": len(b.Nodes)}
				for _, e := range b.Outlets {
					d := -1
					if e.Dst != nil {
						d = int(e.Dst.Id())
						todo = append(todo, e.Dst)
					}
					if e.Src != b {
						bad = append(bad, "outlet of b"+id+" has another source")
					}
					t := 0
					if e.Tag&analysis.ET_CUT != 0 {
						t |= 1
					}
					if e.Tag&analysis.ET_JMP_E != 0 {
						t |= 2
					}
					edges = append(edges, []interface{}{int(b.Id()), d, int(e.Kind), t})
				}
			}
			lookups := 0
			for k, bs := range ends {
				i := strings.LastIndex(k, " ")
				ns := byKey[k[:i]]
				if len(bs) != 1 || len(ns) != 1 {
					continue
				}
				lookups++
				if k[i+1:] == "enter" && g.EntryOfNode(ns[0]) != bs[0] {
					bad = append(bad, "EntryOfNode "+strings.Split(k, " ")[0])
				}
				if k[i+1:] == "exit" && g.ExitOfNode(ns[0]) != bs[0] {
					bad = append(bad, "ExitOfNode "+strings.Split(k, " ")[0])
				}
			}
			sort.Strings(bad)
			sort.Slice(edges, func(i, j int) bool {
				for k := 0; k < 4; k++ {
					x, y := edges[i][k].(int), edges[j][k].(int)
					if x != y {
						return x < y
					}
				}
				return false
			})
			out = append(out, map[string]interface{}{"lo": lo, "head": int(g.Head.Id()), "blocks": blocks, "edges": edges, "bad": bad, "look": lookups, "dot": g.Dot()})
		}
		add(-1, a.Graph())
		for _, f := range fns {
			add(int(f.Range().Lo), a.AnalysisCtx().GraphOf(f))
		}
		res.Val = out
		res.Ok = true
	}
}
