package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	"gsa/load"
	"gsa/sem"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var marks = regexp.MustCompile(`\b(lx|hdr|phi|undef|hdrmark)\b`)

func main() {
	debug.SetMaxStack(64 << 20)
	ov := map[string][]byte{}
	args := os.Args[1:]
	if strings.HasSuffix(args[0], ".go") {
		b, _ := os.ReadFile(args[0])
		ov["featselect/zz_dev.go"] = b
		args = args[1:]
	}
	p, err := load.Load(repoDir(), ov)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	op := map[string]bool{}
	for _, o := range strings.Split(os.Getenv("OPAQUE"), ",") {
		op[o] = true
	}
	var fs []*ssa.Function
	survey := args[0] == "ALL"
	if args[0] == "DIFF" {
		ev := sem.NewEval(p.Prog, p.Module)
		ev.Opaque = func(f *ssa.Function) bool { return op[f.Name()] }
		var ss []*sem.Summary
		var ps []*sem.T
		for _, n := range args[1:] {
			f := p.Func("featselect", n)
			if ps == nil {
				ps = ev.ParamSyms(f)
			}
			ss = append(ss, ev.Summarize(f, ps, nil, sem.True, func(*sem.Event) bool { return true }))
		}
		for i := range ss[0].Vals {
			for _, d := range sem.Diff(ss[0].Vals[i], ss[1].Vals[i]) {
				fmt.Println(i, d)
			}
		}
		for _, d := range sem.Diff(ss[0].Panic, ss[1].Panic) {
			fmt.Println("panic", d)
		}
		return
	}
	if survey {
		for f := range ssautil.AllFunctions(p.Prog) {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), p.Module) && f.Blocks != nil && f.Synthetic == "" && f.Parent() == nil && !strings.HasSuffix(p.Prog.Fset.Position(f.Pos()).Filename, "_test.go") {
				fs = append(fs, f)
			}
		}
	} else if args[0] != "LIST" {
		for _, n := range args {
			if n == "-s" {
				continue
			}
			f := p.Func("featselect", n)
			if f == nil {
				f = p.Func("cmd", n)
			}
			if f == nil {
				fmt.Println("no function", n)
				continue
			}
			fs = append(fs, f)
		}
	}
	if args[0] == "LIST" {
		for f := range ssautil.AllFunctions(p.Prog) {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), p.Module) && f.Blocks != nil && f.Synthetic == "" && f.Parent() == nil && !strings.HasSuffix(p.Prog.Fset.Position(f.Pos()).Filename, "_test.go") {
				n := f.Name()
				if r := f.Signature.Recv(); r != nil {
					t := r.Type().String()
					n = t[strings.LastIndex(t, ".")+1:] + "." + n
				}
				fmt.Println(n)
			}
		}
		return
	}
	if args[0] == "-s" {
		survey = true
	}
	for _, f := range fs {
		if survey {
			fmt.Printf("%-60s ", f.String())
		}
		one(p, f, op, survey)
	}
}

func one(p *load.Program, f *ssa.Function, op map[string]bool, survey bool) {
	t0 := time.Now()
	done := make(chan string)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if survey {
					done <- fmt.Sprint("PANIC ", r)
				} else {
					done <- fmt.Sprint("PANIC ", r, string(debug.Stack()))
				}
			}
		}()
		ev := sem.NewEval(p.Prog, p.Module)
		ev.Opaque = func(f *ssa.Function) bool { return op[f.Name()] }
		r := ev.Call(f, ev.ParamSyms(f), nil)
		d := ev.Dump(r)
		if survey {
			cnt := map[string]int{}
			for _, m := range marks.FindAllString(d, -1) {
				cnt[m]++
			}
			done <- fmt.Sprintf("%v len=%d %v notes=%d", time.Since(t0).Round(time.Millisecond), len(d), cnt, len(r.Notes))
			return
		}
		done <- fmt.Sprintf("== %s  (%v)\n%s", f, time.Since(t0), d)
	}()
	select {
	case s := <-done:
		fmt.Println(s)
	case <-time.After(20 * time.Second):
		fmt.Println("TIMEOUT")
		if survey {
			os.Exit(3)
		}
	}
}

func repoDir() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}
