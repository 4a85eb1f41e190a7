package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C01",
		Technique: "interprocedural path-sensitive error-flow and scanner typestate analysis over go/ssa",
		Explanation: "Train of every model is analysed interprocedurally, streamed and in memory, with its goroutines. Every call that can fail and every error value " +
			"made below Train is an obligation: on every path on which it may be non-nil when Train returns, Train returns an error; errors that a goroutine hands to a channel, " +
			"a shared variable or an errgroup must be looked at before Train succeeds. Every bufio.Scanner must have been read to its end and asked for its error.",
		Assumptions: []string{"semaphore.Acquire with context.Background() does not fail", "bufio.Scanner and io.ReadSeeker follow their documentation"},
		Run:         runC01,
	})
	register(&Check{
		ID:        "C02",
		Technique: "interprocedural path-sensitive error-flow and buffered-writer typestate analysis over go/ssa",
		Explanation: "Save of every model is analysed interprocedurally: every write to the destination is an obligation to return its error, every bufio.Writer must be flushed (checked) " +
			"after the last write to it on every path on which Save returns nil, and Save never returns nil without having written. The training commands return what Save returns and main exits unsuccessfully on every error.",
		Assumptions: []string{"a failed write to a bufio.Writer makes its next Flush fail (documented)"},
		Run:         runC02,
	})
	register(&Check{
		ID:        "C03",
		Technique: "interprocedural path-sensitive error-flow analysis over go/ssa",
		Explanation: "Load, search.New, Search*, the console and the query and console commands are analysed interprocedurally: every error that arises is returned on every path (in the console: returned or printed), " +
			"the scanner of the vector file is read to its end and asked for its error, every vector that Load returns has a word and at least one element, and no search succeeds for a word that was not matched.",
		Run: runC03,
	})
}

// errInteresting: instructions an error-flow analysis needs to see.
func errInteresting(in ssa.Instruction) bool {
	switch in := in.(type) {
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return true
		}
		if strings.HasPrefix(callName(in), "bufio.NewScanner") || strings.HasPrefix(callName(in), "bufio.Scanner.") {
			return true
		}
		if n := callName(in); n == "golang.org/x/sync/semaphore.Weighted.Acquire" || n == "fmt.Printf" || n == "fmt.Println" || n == "fmt.Print" {
			return false
		}
		return sigHasError(in.Common().Signature())
	case *ssa.Send:
		return isErrorType(in.X.Type())
	case *ssa.Store:
		return isErrorType(in.Val.Type())
	case *ssa.UnOp:
		if ct, ok := in.X.Type().Underlying().(*types.Chan); ok {
			return isErrorType(ct.Elem())
		}
	}
	return false
}

func constructorLike(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return true
		}
		switch res.At(i).Type().Underlying().(type) {
		case *types.Interface, *types.Signature:
			return true
		}
	}
	return false
}

func errInline(p *Prog) func(k *Call) bool {
	rel := p.reaches(errInteresting)
	return func(k *Call) bool { return rel[k.Fn] || constructorLike(k.Fn) }
}

func runC01(r *Rep) {
	r.rule(ruleErr, 8, "an error that may be non-nil when the entry point returns is reported by it")
	r.rule("scanner-consulted", 1, "a scanner is read to its end and asked for its error")
	r.rule("reads-corpus", 5, "the corpus is read: rewound and scanned")
	for _, m := range r.P.models(r) {
		for _, md := range m.trainModes() {
			ef := &errFlow{r: r, inline: errInline(r.P)}
			ef.onCall = func(x *Ctx, k *Call) (bool, *Term) {
				switch k.Name {
				case "io.Seeker.Seek", "bufio.Scanner.Scan", "bufio.Scanner.Err":
					ef.r.ok("reads-corpus", md.Name+": "+errSite(x, k))
				}
				return false, nil
			}
			ef.run(m.Train, md.S, md.Name+" Train")
		}
	}
}

func runC02(r *Rep) {
	r.rule(ruleErr, 3, "an error that may be non-nil when the entry point returns is reported by it")
	r.rule("writer-flushed", 1, "what was written to a buffer is flushed, and the flush checked, before success")
	r.rule("writes-output", 3, "success only after the output was written")
	r.rule("command-exit", 4, "a training command returns the error of Save, and main exits unsuccessfully on an error")
	p := r.P
	for _, m := range p.models(r) {
		ef := &errFlow{r: r, inline: errInline(p), writers: true}
		ef.onExit = func(x *Ctx, res []*Term, failing bool) {
			if !failing && len(res) == 1 && (x.S.auto["wrote"] == "" && x.S.nilOf(res[0]) != 0) {
				ef.r.bad("writes-output", m.Name, "Save can succeed (return at %s) without writing anything", x.Pos())
			} else if !failing {
				ef.r.ok("writes-output", m.Name)
			}
		}
		ef.run(m.Save, newState(), m.Name+" Save")
	}
	for _, c := range p.commands(r) {
		if !c.Trains {
			continue
		}
		saved := 0
		ef := &errFlow{r: r, inline: cmdInline(p)}
		ef.onCall = func(x *Ctx, k *Call) (bool, *Term) {
			if isModelMethod(p, k, "Save") {
				ef.r.ok("command-exit", c.Name+": calls Save")
				saved++
			}
			return false, nil
		}
		ef.run(c.Run, newState(), "the "+c.Name+" command")
		if saved == 0 {
			r.bad("command-exit", c.Name+": calls Save", "the %s command never calls Save", c.Name)
		}
	}
	runMainExit(r)
}

// runMainExit: main ends with a non-zero status whenever Execute fails.
func runMainExit(r *Rep) {
	p := r.P
	main := p.fn("", "main")
	if main == nil {
		r.bad("command-exit", "main", "main is not found")
		return
	}
	ef := &errFlow{r: r, inline: func(k *Call) bool { return p.inRepo(k.Fn) && k.Fn.Pkg == main.Pkg }}
	n := 0
	ef.onCall = func(x *Ctx, k *Call) (bool, *Term) {
		switch k.Name {
		case "github.com/spf13/cobra.Command.Execute", "github.com/spf13/cobra.Command.ExecuteC", "github.com/spf13/cobra.Command.ExecuteContext":
			n++
			ef.r.ok("command-exit", "main: Execute")
		case "os.Exit":
			bad := false
			for _, t := range sortedTags(x.S) {
				if x.S.nilOf(t) != 1 {
					bad = true
				}
			}
			if x.S.auto["failed"] != "" {
				bad = true
			}
			if c, ok := constInt(x.Val(x.I.(*ssa.Call).Call.Args[0])); bad && (!ok || c == 0) {
				ef.r.bad("command-exit", "main: exit status", "the program can exit with status 0 after an error (%s)", x.Pos())
			} else {
				ef.r.ok("command-exit", "main: exit status")
			}
			x.S.dead = true
		case "log.Fatal", "log.Fatalf", "log.Fatalln":
			ef.r.ok("command-exit", "main: exit status")
			x.S.dead = true
		}
		return false, nil
	}
	ef.run(main, newState(), "main")
	if n == 0 {
		r.bad("command-exit", "main: Execute", "main does not execute the command")
	}
}

func isModelMethod(p *Prog, k *Call, name string) bool {
	com := k.Com
	if com == nil {
		return false
	}
	if com.IsInvoke() {
		n := namedOf(com.Value.Type())
		return com.Method.Name() == name && n != nil && n.Obj().Name() == "Model"
	}
	if k.Fn != nil && k.Fn.Signature.Recv() != nil && k.Fn.Name() == name {
		it := p.ifaceOf("pkg/model", "Model")
		return it != nil && types.Implements(k.Fn.Signature.Recv().Type(), it)
	}
	return false
}
