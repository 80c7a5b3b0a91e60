package main

import (
	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
)

func init() {
	ops["parse"] = func(r *Req, res *Res) {
		p := r.parser()
		ast, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		ctx := estree.NewConvertCtx(p)
		ctx.LineCol = !r.NoLC
		res.Val = estree.ConvertProg(ast.(*parser.Prog), ctx)
		res.Ok = true
	}
	// accept / reject only
	ops["accept"] = func(r *Req, res *Res) {
		p := r.parser()
		_, err := p.Prog()
		if err != nil {
			res.Err = errInfo(err)
			return
		}
		res.Ok = true
	}
}
