// vdrv drives the real mole code: it reads one JSON request per line and
// answers with one JSON event record per line.  It contains no oracle; the
// monitors that judge these records live in /verif/checks.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

type Req struct {
	Op   string          `json:"op"`
	Src  string          `json:"src"`
	B64  bool            `json:"b64,omitempty"`
	On   []string        `json:"on,omitempty"`
	Off  []string        `json:"off,omitempty"`
	NoLC bool            `json:"nolc,omitempty"`
	Arg  json.RawMessage `json:"arg,omitempty"`
}

type ErrInfo struct {
	Msg  string `json:"msg"`
	Line int    `json:"line"`
	Col  int    `json:"col"`
	Kind string `json:"kind"`
}

type Res struct {
	Ok    bool        `json:"ok"`
	Err   *ErrInfo    `json:"err,omitempty"`
	Panic string      `json:"panic,omitempty"`
	Hang  bool        `json:"hang,omitempty"`
	Val   interface{} `json:"val,omitempty"`
	CPUms int64       `json:"cpu,omitempty"`
}

var feats = map[string]parser.Feature{
	"STRICT": parser.FEAT_STRICT, "GLOBAL_ASYNC": parser.FEAT_GLOBAL_ASYNC, "LET_CONST": parser.FEAT_LET_CONST,
	"SPREAD": parser.FEAT_SPREAD, "BINDING_PATTERN": parser.FEAT_BINDING_PATTERN, "BINDING_REST_ELEM": parser.FEAT_BINDING_REST_ELEM,
	"MODULE": parser.FEAT_MODULE, "IMPORT_DEC": parser.FEAT_IMPORT_DEC, "EXPORT_DEC": parser.FEAT_EXPORT_DEC,
	"META_PROPERTY": parser.FEAT_META_PROPERTY, "POW": parser.FEAT_POW, "BINDING_REST_ELEM_NESTED": parser.FEAT_BINDING_REST_ELEM_NESTED,
	"ASYNC_AWAIT": parser.FEAT_ASYNC_AWAIT, "BAD_ESCAPE_IN_TAGGED_TPL": parser.FEAT_BAD_ESCAPE_IN_TAGGED_TPL,
	"ASYNC_GENERATOR": parser.FEAT_ASYNC_GENERATOR, "ASYNC_ITERATION": parser.FEAT_ASYNC_ITERATION,
	"OPT_CATCH_PARAM": parser.FEAT_OPT_CATCH_PARAM, "JSON_SUPER_SET": parser.FEAT_JSON_SUPER_SET,
	"CLASS_PRV": parser.FEAT_CLASS_PRV, "OPT_EXPR": parser.FEAT_OPT_EXPR, "NULLISH": parser.FEAT_NULLISH,
	"BIGINT": parser.FEAT_BIGINT, "DYNAMIC_IMPORT": parser.FEAT_DYNAMIC_IMPORT, "EXPORT_ALL_AS_NS": parser.FEAT_EXPORT_ALL_AS_NS,
	"NUM_SEP": parser.FEAT_NUM_SEP, "LOGIC_ASSIGN": parser.FEAT_LOGIC_ASSIGN, "CLASS_PUB_FIELD": parser.FEAT_CLASS_PUB_FIELD,
	"CLASS_PRIV_FIELD": parser.FEAT_CLASS_PRIV_FIELD, "JSX": parser.FEAT_JSX, "JSX_NS": parser.FEAT_JSX_NS,
	"CHK_REGEXP_FLAGS": parser.FEAT_CHK_REGEXP_FLAGS, "REGEXP_UNICODE": parser.FEAT_REGEXP_UNICODE,
	"REGEXP_STICKY": parser.FEAT_REGEXP_STICKY, "REGEXP_DOT_ALL": parser.FEAT_REGEXP_DOT_ALL,
	"REGEXP_HAS_INDICES": parser.FEAT_REGEXP_HAS_INDICES, "TS": parser.FEAT_TS, "DTS": parser.FEAT_DTS,
	"DECORATOR": parser.FEAT_DECORATOR,
}

func (r *Req) source() string {
	if r.B64 {
		b, err := base64.StdEncoding.DecodeString(r.Src)
		if err != nil {
			panic("vdrv: bad base64")
		}
		return string(b)
	}
	return r.Src
}

func (r *Req) opts() *parser.ParserOpts {
	opts := parser.NewParserOpts()
	for _, n := range r.Off {
		opts.Feature = opts.Feature.Off(feat(n))
	}
	for _, n := range r.On {
		opts.Feature = opts.Feature.On(feat(n))
	}
	return opts
}

func feat(n string) parser.Feature {
	f, ok := feats[n]
	if !ok {
		panic("vdrv: unknown feature " + n)
	}
	return f
}

func (r *Req) parser() *parser.Parser {
	return parser.NewParser(span.NewSource("", r.source()), r.opts())
}

func errInfo(err error) *ErrInfo {
	e := &ErrInfo{Msg: err.Error(), Kind: strings.TrimPrefix(fmt.Sprintf("%T", err), "*"), Line: -1, Col: -1}
	// messages end with " at file(line:col)"
	if i := strings.LastIndex(e.Msg, "("); i >= 0 {
		fmt.Sscanf(e.Msg[i:], "(%d:%d)", &e.Line, &e.Col)
	}
	return e
}

type handler func(r *Req, res *Res)

var ops = map[string]handler{}

func cpuMs() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano()/1e6 + ru.Stime.Nano()/1e6
}

func run(r *Req) (res *Res) {
	res = &Res{}
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			*res = Res{Panic: fmt.Sprint(x) + "\n" + st}
		}
	}()
	h, ok := ops[r.Op]
	if !ok {
		panic("vdrv: unknown op " + r.Op)
	}
	h(r, res)
	return res
}

// a request may burn this much CPU before it is called a hang; ordinary
// requests take well under 100 ms, so load on the machine cannot matter
const cpuLimitMs = 10000

func main() {
	debug.SetMaxStack(512 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			return
		}
		var r Req
		if err := json.Unmarshal(line, &r); err != nil {
			fmt.Fprintln(os.Stderr, "vdrv: bad request:", err)
			os.Exit(3)
		}
		done := make(chan *Res, 1)
		t0 := cpuMs()
		go func() { done <- run(&r) }()
		var res *Res
		tick := time.NewTicker(50 * time.Millisecond)
	wait:
		for {
			select {
			case res = <-done:
				break wait
			case <-tick.C:
				if cpuMs()-t0 > cpuLimitMs {
					enc.Encode(&Res{Hang: true, CPUms: cpuMs() - t0})
					out.Flush()
					os.Exit(4) // the runaway goroutine cannot be stopped
				}
			}
		}
		tick.Stop()
		if d := cpuMs() - t0; d > 200 {
			res.CPUms = d
		}
		if err := enc.Encode(res); err != nil {
			enc.Encode(&Res{Panic: "vdrv: response not serialisable: " + err.Error()})
		}
		if in.Buffered() == 0 {
			out.Flush()
		}
	}
}
