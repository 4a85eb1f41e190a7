package main

import (
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:        "C17",
		Technique: "interprocedural path-sensitive dataflow and typestate analysis of the training commands over go/ssa",
		Explanation: "The constructor of each training command is analysed to find the variables behind its input and output flags and the function it runs; that function is then analysed path-sensitively: " +
			"wherever a file is created, replaced or removed, the path must be known not to exist (when it is the output) and the input must be known to exist; " +
			"Train gets the opened input file, Save the opened output file, and a command that reports success has done both.",
		Run: runC17,
	})
}

// cmdSetup is what the constructor of a command leaves behind.
type cmdSetup struct {
	S     *State
	Binds []*Term
	Flags map[string]*Term // pointers behind the string flags
}

// setup analyses the constructor of a command.
func (p *Prog) setup(r *Rep, c *command, inline func(k *Call) bool) []cmdSetup {
	var out []cmdSetup
	flags := map[string]*Term{}
	var binds []*Term
	cl := &Client{Inline: inline}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		if strings.Contains(k.Name, "pflag.FlagSet.StringVar") && len(k.Args) >= 3 {
			if n, ok := constStr(x.S.norm(k.Args[2])); ok {
				if o := flags[n]; o != nil && o != k.Args[1] {
					r.bad("entry-points", c.Name+" flag "+n, "the flag is bound to more than one variable")
				}
				flags[n] = k.Args[1]
			}
		}
		return false, nil
	}
	cl.Instr = func(x *Ctx) {
		st, ok := x.I.(*ssa.Store)
		if !ok {
			return
		}
		if v := x.Val(st.Val); v.Kind == 'o' && v.Op == "closure" && v.Val == c.Run {
			binds = v.Args
		}
	}
	for _, x := range p.follow(r, c.New, nil, nil, newState(), cl, false, c.Name+" constructor") {
		out = append(out, cmdSetup{S: x.S, Binds: binds, Flags: flags})
	}
	if len(out) == 0 {
		r.bad("entry-points", c.Name, "the constructor of the command does not return")
	}
	return out
}

// flagVal is the current value of the variable behind a flag.
func flagVal(s *State, ptr *Term, p *Prog) *Term {
	if g, ok := ptr.Val.(*ssa.Global); ok && ptr.Kind == 'g' && p.constGlobal(g) {
		return s.norm(mkOp("globalval", elemTyp(ptr), ptr))
	}
	if v := s.read(ptr); v != nil {
		return s.norm(v)
	}
	return nil
}

// fileWrites gives the path that a call of package os creates, replaces or
// removes, and whether the call fails when it exists.
func fileWrites(x *Ctx, k *Call) (path *Term, excl bool) {
	arg := func(i int) *Term {
		if i < len(k.Args) {
			return x.S.norm(k.Args[i])
		}
		return nil
	}
	switch k.Name {
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Truncate":
		return arg(0), false
	case "os.Rename", "os.Symlink", "os.Link":
		return arg(1), k.Name != "os.Rename"
	case "os.OpenFile":
		fl, ok := constInt(arg(1))
		if ok && fl&int64(os.O_EXCL) != 0 && fl&int64(os.O_CREATE) != 0 {
			return arg(0), true
		}
		if ok && fl&int64(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
			return nil, false
		}
		return arg(0), false
	}
	return nil, false
}

func runC17(r *Rep) {
	r.rule("no-overwrite", 3, "the output is created only when it is known not to exist")
	r.rule("input-first", 3, "nothing is created before the input is known to exist")
	r.rule("trains-on-input", 3, "Train reads the file given as input")
	r.rule("saves-to-output", 3, "Save writes to the file given as output")
	r.rule("does-both", 3, "a command that reports success has trained and saved")
	p := r.P
	n := 0
	for _, c := range p.commands(r) {
		if !c.Trains {
			continue
		}
		n++
		for _, st := range p.setup(r, c, func(k *Call) bool { return cmdInline(p)(k) || strings.HasSuffix(k.Name, ".LoadForCmd") }) {
			in, out := st.Flags["input"], st.Flags["output"]
			if in == nil || out == nil || in == out {
				r.bad("entry-points", c.Name, "the variables behind the flags input and output are not found or the same")
				continue
			}
			runC17Cmd(r, c, st, in, out)
		}
	}
	if n < 3 {
		r.bad("entry-points", "training commands", "only %d training commands found", n)
	}
}

func runC17Cmd(r *Rep, c *command, st cmdSetup, in, out *Term) {
	p := r.P
	isIn := func(s *State, t *Term) bool { return t != nil && t == flagVal(s, in, p) }
	isOut := func(s *State, t *Term) bool { return t != nil && t == flagVal(s, out, p) }
	which := func(s *State, t *Term) string {
		switch {
		case isIn(s, t):
			return "in"
		case isOut(s, t):
			return "out"
		}
		return "other"
	}
	cl := &Client{Inline: cmdInline(p)}
	// facts that the results of calls give: tag "stat:in" on an error that is nil iff the path exists
	learn := func(s *State) {
		for _, t := range sortedTags(s) {
			tag := s.tags[t]
			switch {
			case strings.HasPrefix(tag, "stat:"):
				switch s.nilOf(t) {
				case 1:
					s.auto["exists:"+tag[5:]] = "yes"
				case 0:
					if s.auto["exists:"+tag[5:]] != "yes" {
						s.auto["exists:"+tag[5:]] = "no"
					}
				default:
					continue
				}
				delete(s.tags, t)
			case strings.HasPrefix(tag, "notexist:"):
				switch s.boolOf(t) {
				case 1:
					s.auto["exists:"+tag[9:]] = "no"
				case 0:
					s.auto["exists:"+tag[9:]] = "yes"
				default:
					continue
				}
				delete(s.tags, t)
			}
		}
	}
	cl.Edge = func(x *Ctx, cond *Term, val bool, to *ssa.BasicBlock) { learn(x.S) }
	fileOf := func(s *State, t *Term) string {
		for t.Kind == 'o' && (t.Op == "iface" || t.Op == "slice" || strings.HasPrefix(t.Op, "conv")) {
			t = t.Args[0]
		}
		return strings.TrimPrefix(s.tags[t], "file:")
	}
	cl.Call = func(x *Ctx, k *Call) (bool, *Term) {
		s := x.S
		learn(s)
		site := c.Name + ": " + k.Name
		if path, excl := fileWrites(x, k); path != nil {
			if path.Kind == 'c' {
				return false, nil // another file
			}
			if isOut(s, path) || k.Name == "os.Rename" {
				r.must(excl || s.auto["exists:out"] == "no", "no-overwrite", site, "the output path is written (%s) although it may exist", x.Pos())
			} else if isIn(s, path) {
				r.bad("no-overwrite", site, "the input is written (%s)", x.Pos())
			}
			r.must(s.auto["exists:in"] == "yes", "input-first", site, "a file is created (%s) although the input may not exist", x.Pos())
		}
		switch k.Name {
		case "os.Stat", "os.Lstat", "os.Open", "os.OpenFile", "os.Create", "os.ReadFile", "io/ioutil.ReadFile":
			w := which(s, s.norm(k.Args[0]))
			v, ok := x.I.(*ssa.Call)
			if !ok {
				break
			}
			reads := k.Name == "os.Stat" || k.Name == "os.Lstat" || k.Name == "os.Open" || k.Name == "os.ReadFile" || k.Name == "io/ioutil.ReadFile"
			if reads && w != "other" {
				for _, t := range errResults(x.F, x.I) {
					delete(s.nils, t)
					s.tags[t] = "stat:" + w
				}
			}
			if !strings.HasSuffix(k.Name, "tat") {
				t0 := mkOpX("extract", v.Call.Signature().Results().At(0).Type(), nil, 0, mkLeaf(x.F, v, ""))
				s.tags[t0] = "file:" + w
			}
			return false, nil
		case "os.IsNotExist", "errors.Is", "github.com/pkg/errors.Is":
			if v, ok := x.I.(*ssa.Call); ok && len(k.Args) > 0 {
				if tag := s.tags[s.norm(k.Args[0])]; strings.HasPrefix(tag, "stat:") && (k.Name == "os.IsNotExist" || isNotExistErr(k.Args[1])) {
					s.tags[mkLeaf(x.F, v, "")] = "notexist:" + tag[5:]
				}
			}
			return false, nil
		}
		if k.Fn != nil && k.Fn.Signature.Recv() != nil && k.Fn.Name() == "Train" && len(k.Args) == 2 {
			f := fileOf(s, s.norm(k.Args[1]))
			r.must(f == "in", "trains-on-input", c.Name, "Train (%s) reads something else than the input file (%s)", x.Pos(), orUnknown(f))
			s.auto["trained"] = "1"
			return true, nil
		}
		if k.Fn != nil && k.Fn.Signature.Recv() != nil && k.Fn.Name() == "Save" && len(k.Args) == 3 {
			f := fileOf(s, s.norm(k.Args[1]))
			r.must(f == "out", "saves-to-output", c.Name, "Save (%s) writes to something else than the output file (%s)", x.Pos(), orUnknown(f))
			s.auto["saved"] = "1"
			return true, nil
		}
		// what is made from a file stands for it
		if v, ok := x.I.(*ssa.Call); ok && (k.Fn == nil || len(k.Fn.Blocks) == 0) && !strings.HasPrefix(k.Name, "os.File.") {
			for _, a := range k.Args {
				if f := fileOf(s, s.norm(a)); f != "" {
					s.tags[mkLeaf(x.F, v, "")] = "file:" + f
				}
			}
		}
		return false, nil
	}
	cl.Exit = func(x *Ctx, res []*Term) {
		learn(x.S)
		if x.F.Kind != "root" || p.errFate(c.Run, x.S, res) == 1 {
			return
		}
		r.must(x.S.auto["trained"] != "" && x.S.auto["saved"] != "", "does-both", c.Name, "the command can report success (%s) without having trained and saved", x.Pos())
	}
	p.follow(r, c.Run, nil, st.Binds, st.S, cl, true, c.Name+" command")
}

func orUnknown(s string) string {
	if s == "" {
		return "not a file it opened"
	}
	return s
}

func isNotExistErr(t *Term) bool {
	return strings.Contains(t.String(), "ErrNotExist") || strings.Contains(t.String(), "ENOENT")
}
