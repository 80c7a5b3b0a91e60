package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/exec"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
)

// the values of the variables: {"$i": 1} is an int, {"$o": {...}} an object
func toGo(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		r := make([]interface{}, len(x))
		for i, e := range x {
			r[i] = toGo(e)
		}
		return r
	case map[string]interface{}:
		if i, ok := x["$i"]; ok {
			return int(i.(float64))
		}
		if o, ok := x["$o"]; ok {
			r := map[string]interface{}{}
			for k, e := range o.(map[string]interface{}) {
				r[k] = toGo(e)
			}
			return r
		}
	}
	return v
}

func showVal(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return x
	case int:
		return showVal(float64(x))
	case float64:
		if x == 0 && math.Signbit(x) {
			return "n:-0"
		}
		return "n:" + strconv.FormatUint(math.Float64bits(x), 16)
	case string:
		return "s:" + x
	case []interface{}:
		r := make([]interface{}, len(x))
		for i, e := range x {
			r[i] = showVal(e)
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, e := range x {
			r[k] = showVal(e)
		}
		return r
	}
	return fmt.Sprintf("other:%T", v)
}

func varsOf(s string) []map[string]interface{} {
	raw := []map[string]interface{}{}
	if err := json.Unmarshal([]byte(s), &raw); err != nil {
		panic(err)
	}
	r := []map[string]interface{}{}
	for _, m := range raw {
		o := map[string]interface{}{}
		for k, v := range m {
			o[k] = toGo(v)
		}
		r = append(r, o)
	}
	return r
}

func init() {
	// the results of one evaluator executed with each of the sets of variables in turn
	ops["exec"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		ee := exec.NewExprEvaluator(ast, p)
		out := []interface{}{}
		for _, vars := range varsOf(string(r.Arg)) {
			v, err := ee.Exec(vars).GetResult()
			if err != nil {
				out = append(out, "err:"+err.Error())
			} else {
				out = append(out, showVal(v))
			}
		}
		ee.Release()
		res.Val = out
		res.Ok = true
	}
	// the first arguments of the calls collected in the branches which are taken
	ops["branches"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		out := []interface{}{}
		for _, vars := range varsOf(string(r.Arg)) {
			calls := []string{}
			for _, n := range astutil.CollectNodesInTrueBranches(ast, []parser.NodeType{parser.N_EXPR_CALL}, vars, p) {
				args := n.(*parser.CallExpr).Args()
				if len(args) > 0 {
					calls = append(calls, parser.NodeText(args[0], p.Source()))
				}
			}
			out = append(out, calls)
		}
		res.Val = out
		res.Ok = true
	}
}
