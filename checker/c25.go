package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C25",
		Technique: "interprocedural path-sensitive typestate analysis of the input reader over go/ssa",
		Explanation: "Train of every model is analysed interprocedurally, streamed and in memory, with its goroutines, following the position of the input: a scanner (or any other reader of the input) " +
			"may be used for the first time only when the last operation on the input was a Seek to its first byte, the input may not be repositioned while it is being scanned, and a scanner that has reached the end is not used again.",
		Run: runC25,
	})
	register(&Check{
		ID:          "C29",
		Technique:   "interprocedural path-sensitive typestate analysis of the prompt over go/ssa",
		Explanation: "Console.Run is analysed interprocedurally: on no path is the input read again after a read whose error may be non-nil, and every error of a read ends the console. The command that runs the console does not run it a second time on any path.",
		Run:         runC29,
	})
}

func isSeekReader(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	ms := types.NewMethodSet(t.Typ)
	if _, ok := t.Typ.Underlying().(*types.Interface); !ok {
		return false
	}
	return ms.Lookup(nil, "Seek") != nil && ms.Lookup(nil, "Read") != nil
}

func readsInput(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, ok := in.(*ssa.Go); ok {
		return true
	}
	n := callName(c)
	if strings.HasPrefix(n, "bufio.") || n == "io.Seeker.Seek" || n == "io.Reader.Read" {
		return true
	}
	for _, a := range c.Common().Args {
		if it, ok := a.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Read" {
					return true
				}
			}
		}
	}
	return false
}

// relInline inlines what can reach an interesting instruction, and what may
// build the values those instructions work on.
func relInline(p *Prog, interesting func(in ssa.Instruction) bool) func(k *Call) bool {
	rel := p.reaches(interesting)
	return func(k *Call) bool { return rel[k.Fn] || constructorLike(k.Fn) }
}

func runC25(r *Rep) {
	r.rule("rewound", 3, "a pass over the input starts at its first byte")
	r.rule("undisturbed", 3, "the input is not repositioned while it is scanned, and a finished scanner is not used again")
	p := r.P
	inl := relInline(p, readsInput)
	for _, m := range p.models(r) {
		for _, md := range m.trainModes() {
			c := &Client{}
			c.Inline = inl
			use := func(x *Ctx, rd *Term, how string) {
				site := md.Name + ": " + fnName(x.F.Fn)
				r.must(x.S.auto["pos"] == "start", "rewound", site, "the input is read (%s, at %s) without having been rewound to its first byte", how, x.Pos())
				x.S.auto["pos"] = "moved"
			}
			c.Call = func(x *Ctx, k *Call) (bool, *Term) {
				s := x.S
				if isVerboseDo(k.Name) {
					return true, nil
				}
				switch {
				case strings.HasSuffix(k.Name, ".Seek") && len(k.Args) == 3:
					off, ok1 := constInt(s.norm(k.Args[1]))
					wh, ok2 := constInt(s.norm(k.Args[2]))
					if ok1 && ok2 && off == 0 && wh == 0 {
						s.auto["pos"] = "start"
					} else {
						s.auto["pos"] = "moved"
					}
					for t, tag := range s.tags {
						if tag == "scan:reading" {
							s.tags[t] = "scan:disturbed"
						}
					}
					return false, nil
				case k.Name == "bufio.NewScanner" || k.Name == "bufio.NewReader" || k.Name == "bufio.NewReaderSize":
					if v, ok := x.I.(*ssa.Call); ok && isSeekReader(k.Args[0]) {
						s.tags[mkLeaf(x.F, v, "")] = "scan:fresh"
					} else if ok {
						s.tags[mkLeaf(x.F, v, "")] = "scan:fresh"
					}
					return false, nil
				case k.Name == "bufio.Scanner.Scan" || strings.HasPrefix(k.Name, "bufio.Reader.Read"):
					sc := k.Args[0]
					site := md.Name + ": " + fnName(x.F.Fn)
					switch s.tags[sc] {
					case "scan:reading":
						r.ok("undisturbed", site)
					case "scan:disturbed":
						r.bad("undisturbed", site, "the input is repositioned while it is scanned (%s)", x.Pos())
					case "scan:end":
						r.bad("undisturbed", site, "a scanner that has reached the end is used again (%s)", x.Pos())
					default:
						use(x, sc, "scanned")
						s.tags[sc] = "scan:reading"
					}
					if v, ok := x.I.(*ssa.Call); ok && k.Name == "bufio.Scanner.Scan" {
						s.tags[mkLeaf(x.F, v, "")] = "scan?" + chanKey(sc)
					}
					return false, nil
				case strings.HasPrefix(k.Name, "bufio.Scanner."), strings.HasPrefix(k.Name, "io.NopCloser"):
					return false, nil
				}
				if k.Fn == nil || len(k.Fn.Blocks) == 0 {
					for _, a := range k.Args {
						if isSeekReader(a) && !(k.Com != nil && k.Com.IsInvoke() && !strings.HasSuffix(k.Name, "Read")) {
							use(x, a, "passed to "+k.Name)
							break
						}
					}
				}
				return false, nil
			}
			c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) { scanEdge(x.S) }
			p.analyse(r, m.Train, md.S, c, md.Name+" Train")
		}
	}
}

// scanEdge lets the marks of scanners follow the results of Scan.
func scanEdge(s *State) {
	for _, u := range sortedTags(s) {
		tag := s.tags[u]
		if !strings.HasPrefix(tag, "scan?") {
			continue
		}
		b := s.boolOf(u)
		if b < 0 {
			continue
		}
		delete(s.tags, u)
		id := tag[len("scan?"):]
		for w, t2 := range s.tags {
			if strings.HasPrefix(t2, "scan:") && chanKey(w) == id && b == 0 {
				s.tags[w] = "scan:end"
			}
		}
	}
}

// analyse runs one entry point with its goroutines.
func (p *Prog) analyse(r *Rep, fn *ssa.Function, s *State, c *Client, what string) *Engine {
	e := newEngine(p, c)
	f := e.rootFrame(fn)
	e.Run(f, s.clone())
	e.RunSpawned()
	r.absorb(e, what)
	return e
}

func isPrompt(n string) bool {
	return strings.Contains(n, "liner.State.Prompt") || strings.Contains(n, "liner.State.PasswordPrompt") ||
		strings.HasPrefix(n, "bufio.Reader.Read") || strings.HasPrefix(n, "fmt.Scan") || strings.HasPrefix(n, "fmt.Fscan") || n == "io.Reader.Read" || n == "os.File.Read"
}

func runC29(r *Rep) {
	r.rule("no-prompt-after-failure", 1, "the console does not read again after a failed read")
	r.rule("runs-once", 1, "the command ends when the console has ended")
	p := r.P
	fn := p.method("pkg/search/console", "Console", "Run")
	if fn == nil {
		r.bad("entry-points", "Console.Run", "Console.Run is not found")
		return
	}
	n := 0
	c := &Client{}
	c.Inline = relInline(p, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && (isPrompt(callName(c)) || callName(c) == "bufio.Scanner.Scan")
	})
	msg := "the console can read its input again (%s) after a read that may have failed"
	site := ""
	c.Lost = func(x *Ctx, t *Term, tag string) {
		if tag == "failedread" {
			r.bad("no-prompt-after-failure", site, msg, x.Pos())
		}
	}
	c.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) {
		for t, tag := range x.S.tags {
			if tag == "failedread" && (x.S.nilOf(t) == 1 && t.Typ != nil && !isBool(t.Typ) || isBool(t.Typ) && x.S.boolOf(t) == 1) {
				delete(x.S.tags, t)
			}
		}
	}
	c.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if isPrompt(k.Name) || k.Name == "bufio.Scanner.Scan" {
			n++
			site = fnName(fn) + ": " + short(k.Name)
			r.ok("no-prompt-after-failure", site)
			for _, t := range sortedTags(x.S) {
				if x.S.tags[t] == "failedread" && x.S.nilOf(t) != 1 {
					r.bad("no-prompt-after-failure", site, msg, x.Pos())
				}
			}
			if k.Name == "bufio.Scanner.Scan" {
				if v, ok := x.I.(*ssa.Call); ok {
					x.S.tags[mkLeaf(x.F, v, "")] = "failedread"
				}
			}
			es := errResults(x.F, x.I)
			for _, t := range es {
				delete(x.S.nils, t)
				x.S.tags[t] = "failedread"
			}
			if len(es) == 0 && k.Name != "bufio.Scanner.Scan" {
				r.bad("no-prompt-after-failure", site, "the error of the read is not available (%s)", x.Pos())
			}
		}
		return false, nil
	}
	p.analyse(r, fn, newState(), c, "Console.Run")
	p.runsOnce(r, fn)
}

// runsOnce: Run returns when no more can be read, or the user wants no more;
// the command then ends.
func (p *Prog) runsOnce(r *Rep, run *ssa.Function) {
	calls := p.reaches(func(in ssa.Instruction) bool {
		for _, g := range p.mayCall(in) {
			if g == run {
				return true
			}
		}
		return false
	})
	for _, cmd := range p.commands(r) {
		if !calls[cmd.Run] {
			continue
		}
		site := cmd.Name
		cl := &Client{}
		cl.Inline = func(k *Call) bool { return k.Fn != run && calls[k.Fn] }
		cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
			if k.Fn == run {
				r.must(x.S.auto["ran"] == "", "runs-once", site, "the console can be run again (%s) after it has ended", x.Pos())
				x.S.auto["ran"] = "y"
				return false, nil
			}
			if k.Fn == nil {
				return false, nil
			}
			if _, ok := x.I.(*ssa.Go); ok && calls[k.Fn] {
				r.bad("runs-once", site, "the console is run in a goroutine (%s)", x.Pos())
			}
			return false, nil
		}
		p.analyse(r, cmd.Run, newState(), cl, site)
	}
}
