package main

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
)

var nodeT = reflect.TypeOf((*parser.Node)(nil)).Elem()

// the nodes stored in the fields of a node, by reflection; and the ones in the type
// information attached to it, which a walk does not enter
func heldBy(n parser.Node) (out, typ []parser.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return
	}
	var fields func(v reflect.Value, to *[]parser.Node)
	fields = func(v reflect.Value, to *[]parser.Node) {
		add := func(f reflect.Value) {
			if f.IsNil() {
				return
			}
			if c, ok := f.Interface().(parser.Node); ok && !reflect.ValueOf(c).IsNil() {
				*to = append(*to, c)
			}
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			switch {
			case f.Type() == nodeT || f.Kind() == reflect.Ptr && f.Type().Implements(nodeT):
				add(f)
			case f.Kind() == reflect.Slice && (f.Type().Elem() == nodeT || f.Type().Elem().Kind() == reflect.Ptr && f.Type().Elem().Implements(nodeT)):
				for k := 0; k < f.Len(); k++ {
					add(f.Index(k))
				}
			case f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct && strings.HasSuffix(f.Type().Elem().Name(), "TypInfo"):
				if !f.IsNil() {
					fields(f.Elem(), &typ)
				}
			}
		}
	}
	fields(v.Elem(), &out)
	return
}

func init() {
	// walks the program, and the type annotations attached to its nodes on their own: every
	// node which can be reached through the fields of the nodes is entered, as often as it
	// is held by the nodes entered at most, and left as often, inside of its parent
	ops["walkr"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		type rec struct{ in, out int }
		bad := [][]interface{}{}
		desc := func(n parser.Node) string {
			return fmt.Sprintf("%s(%T)@%d-%d", n.Type(), n, n.Range().Lo, n.Range().Hi)
		}
		nodes, edges := 0, 0
		kinds := map[string]int{}
		isRoot := map[parser.Node]bool{ast: true}
		roots := []parser.Node{ast}
		for len(roots) > 0 {
			root := roots[0]
			roots = roots[1:]
			met := map[parser.Node]*rec{}
			order := []parser.Node{}
			stack := []parser.Node{}
			ctx := walk.NewWalkCtx(root, p.Symtab())
			walk.AddBeforeListener(&ctx.Listeners, &walk.Listener{Id: "vb", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
				if met[n] == nil {
					met[n] = &rec{}
					order = append(order, n)
				}
				met[n].in++
				kinds[n.Type().String()]++
				if len(stack) > 0 {
					t := stack[len(stack)-1]
					if vc.ParentNode() != t {
						bad = append(bad, []interface{}{"parent", desc(n), desc(t), key})
					}
				}
				stack = append(stack, n)
			}})
			walk.AddAfterListener(&ctx.Listeners, &walk.Listener{Id: "va", Handle: func(n parser.Node, key string, vc *walk.VisitorCtx) {
				if len(stack) == 0 || stack[len(stack)-1] != n {
					bad = append(bad, []interface{}{"unbalanced", desc(n), "", key})
					return
				}
				stack = stack[:len(stack)-1]
				met[n].out++
			}})
			walk.VisitNode(root, "", ctx.VisitorCtx())
			if len(stack) > 0 {
				bad = append(bad, []interface{}{"not left", desc(stack[len(stack)-1]), "", ""})
			}
			nodes += len(order)
			held := map[parser.Node]int{root: 1}
			todo := []parser.Node{root}
			for len(todo) > 0 {
				n := todo[0]
				todo = todo[1:]
				times := 1
				if m := met[n]; m != nil {
					times = m.in
				} else if n.Type() != parser.N_STMT_EMPTY && n.Type() != parser.N_TS_PARAM_INST && n.Type() != parser.N_EXPR_PAREN {
					bad = append(bad, []interface{}{"never entered", desc(n), desc(root), ""})
				}
				out, typ := heldBy(n)
				for _, c := range out {
					edges++
					if held[c] == 0 {
						todo = append(todo, c)
					}
					held[c] += times
				}
				for _, c := range typ {
					if !isRoot[c] {
						isRoot[c] = true
						roots = append(roots, c)
					}
				}
			}
			for _, n := range order {
				m := met[n]
				if held[n] == 0 {
					held[n] = 1
				}
				if m.in != m.out || m.in > held[n] {
					bad = append(bad, []interface{}{"entered", desc(n), fmt.Sprint(m.in, " times, left ", m.out, ", held ", held[n]), ""})
				}
			}
		}
		res.Ok = true
		res.Val = map[string]interface{}{"bad": bad, "nodes": nodes, "edges": edges, "kinds": kinds, "walks": len(isRoot)}
	}
}
