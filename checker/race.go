package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file decides which memory the goroutines of Train share. For each
// goroutine (and for Train while goroutines run) the accesses of all functions
// that it reaches are collected with what the address may be based on, followed
// back within the goroutine; two accesses of the same kind of memory conflict
// when one writes, neither goroutine owns the memory, and nothing orders them.

// root is what an address or a reference is based on, as seen by one thread.
type root struct {
	kind string // local, recv, field, elem, global, cell, arg, fresh, func, unknown
	val  ssa.Value
	key  string // the field or the element type
	once string // a sync.Once through which the reference was obtained
}

// rthread is a goroutine, or the function that starts goroutines.
type rthread struct {
	p     *Prog
	name  string
	fn    *ssa.Function
	main  bool
	multi bool
	site  ssa.CallInstruction
	reach map[*ssa.Function]bool
	sites map[*ssa.Function][]ssa.CallInstruction // calls in reach, by callee
	order []*ssa.Function
	locks map[ssa.Instruction]map[string]bool
	live  map[ssa.Instruction]map[string]bool // main: the goroutines that may run
	memo  map[ssa.Value][]root
	esc   map[ssa.Value]bool // local objects that others may get
	busy  map[*ssa.FieldAddr]bool
}

// raccess is an access to memory.
type raccess struct {
	t      *rthread
	in     ssa.Instruction
	class  string
	write  bool
	atomic bool
	locks  map[string]bool
	roots  []root
	base   ssa.Value
	what   string
}

func (p *Prog) newRthread(name string, fn *ssa.Function, site ssa.CallInstruction) *rthread {
	t := &rthread{p: p, name: name, fn: fn, site: site, memo: map[ssa.Value][]root{}, live: map[ssa.Instruction]map[string]bool{}}
	t.close()
	return t
}

func hasBody(f *ssa.Function) bool { return f != nil && len(f.Blocks) > 0 }

// close computes the functions that the thread reaches.
func (t *rthread) close() {
	t.reach = map[*ssa.Function]bool{t.fn: true}
	t.order = []*ssa.Function{t.fn}
	for changed := true; changed; {
		changed = false
		t.sites = map[*ssa.Function][]ssa.CallInstruction{}
		t.memo = map[ssa.Value][]root{}
		for i := 0; i < len(t.order); i++ {
			for _, b := range t.order[i].Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					for _, g := range t.callees(ci) {
						t.sites[g] = append(t.sites[g], ci)
						if !t.reach[g] {
							t.reach[g] = true
							t.order = append(t.order, g)
							changed = true
						}
					}
				}
			}
		}
	}
	sort.Slice(t.order, func(i, j int) bool { return t.order[i].String() < t.order[j].String() })
}

// callees lists the functions with a body that a call may run, including the
// ones that are handed to a function outside of the repository.
func (t *rthread) callees(ci ssa.CallInstruction) []*ssa.Function {
	com := ci.Common()
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if hasBody(f) && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	external := true
	switch {
	case com.IsInvoke():
		for _, f := range t.p.callees(com) {
			add(f)
			external = external && !hasBody(f)
		}
		// a type from outside may implement it too
	case com.StaticCallee() != nil:
		add(com.StaticCallee())
		external = !hasBody(com.StaticCallee())
	default:
		if _, ok := com.Value.(*ssa.Builtin); ok {
			return nil
		}
		external = false
		fs, ok := t.funcs(com.Value)
		if !ok {
			fs = t.p.callees(com)
		}
		for _, f := range fs {
			add(f)
		}
	}
	if external {
		for _, a := range com.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok {
				if fs, ok := t.funcs(a); ok {
					for _, f := range fs {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// funcs lists the functions that a value may be.
func (t *rthread) funcs(v ssa.Value) ([]*ssa.Function, bool) {
	var out []*ssa.Function
	for _, r := range t.walk(v) {
		switch f := r.val.(type) {
		case *ssa.MakeClosure:
			out = append(out, f.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, f)
		case *ssa.Const:
		default:
			return nil, false
		}
	}
	return out, true
}

// args lists what is passed for a parameter in this thread.
func (t *rthread) args(v *ssa.Parameter) []ssa.Value {
	f := v.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == v {
			idx = i
		}
	}
	var out []ssa.Value
	for _, ci := range t.sites[f] {
		com := ci.Common()
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		if com.StaticCallee() != f && !com.IsInvoke() {
			if s := com.StaticCallee(); s != nil && !hasBody(s) {
				continue // called by a function outside
			}
		}
		off := len(f.Params) - len(args)
		if off < 0 || idx < off {
			continue
		}
		out = append(out, args[idx-off])
	}
	return out
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// walk lists what a reference may be based on.
func (t *rthread) walk(v ssa.Value) []root {
	if rs, ok := t.memo[v]; ok {
		return rs
	}
	seen := map[ssa.Value]bool{}
	var out []root
	have := map[string]bool{}
	put := func(r root) {
		k := fmt.Sprintf("%s %p %s %s", r.kind, r.val, r.key, r.once)
		if !have[k] {
			have[k] = true
			out = append(out, r)
		}
	}
	var walk func(v ssa.Value, once string)
	loadFrom := func(a ssa.Value, at ssa.Instruction, once string) {
		if o := t.onceAt(at); o != "" {
			once = o
		}
		switch a := a.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			cell := t.p.cellAt(a)
			if cell == nil {
				put(root{kind: "unknown", val: a, once: once})
				return
			}
			if !t.reach[cell.Parent()] && !t.main {
				// captured from the function that started the goroutine
				put(root{kind: "arg", val: a, once: once})
				return
			}
			for _, st := range t.p.allStores(cell) {
				walk(st, once)
			}
		case *ssa.Global:
			put(root{kind: "global", val: a, once: once})
		case *ssa.FieldAddr:
			if cell, ok := t.localStruct(a.X); ok {
				for _, st := range t.p.structStores(cell, a.Field) {
					walk(st, once)
				}
				return
			}
			if rs, ok := t.contents(a); ok {
				for _, r := range rs {
					if st, isV := r.val.(ssa.Value); isV && r.kind == "stored" {
						walk(st, once)
					} else {
						put(r)
					}
				}
				return
			}
			put(root{kind: "field", val: a, key: fieldIDOf(a).String(), once: once})
		case *ssa.IndexAddr:
			put(root{kind: "elem", val: a, key: typKey(a.Type().Underlying().(*types.Pointer).Elem()), once: once})
		default:
			put(root{kind: "unknown", val: a, key: typKey(a.Type()), once: once})
		}
	}
	walk = func(v ssa.Value, once string) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, once)
			}
		case *ssa.ChangeType:
			walk(v.X, once)
		case *ssa.ChangeInterface:
			walk(v.X, once)
		case *ssa.MakeInterface:
			walk(v.X, once)
		case *ssa.TypeAssert:
			walk(v.X, once)
		case *ssa.Slice:
			walk(v.X, once)
		case *ssa.SliceToArrayPointer:
			walk(v.X, once)
		case *ssa.FieldAddr:
			walk(v.X, once)
		case *ssa.IndexAddr:
			walk(v.X, once)
		case *ssa.Field:
			walk(v.X, once)
		case *ssa.Index:
			walk(v.X, once)
		case *ssa.Convert:
			// a conversion between strings and slices makes a copy
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				put(root{kind: "local", val: v})
			} else if refType(v.Type()) {
				put(root{kind: "unknown", val: v})
			}
		case *ssa.UnOp:
			switch v.Op {
			case token.MUL:
				loadFrom(v.X, v, once)
			case token.ARROW:
				put(root{kind: "recv", val: v, key: sentType(v.X)})
			}
		case *ssa.Extract:
			switch tup := v.Tuple.(type) {
			case *ssa.UnOp:
				if tup.Op == token.ARROW && v.Index == 0 {
					put(root{kind: "recv", val: tup, key: sentType(tup.X)})
				}
			case *ssa.TypeAssert:
				if v.Index == 0 {
					walk(tup.X, once)
				}
			case *ssa.Lookup:
				if v.Index == 0 {
					put(root{kind: "elem", val: tup, key: typKey(v.Type())})
				}
			case *ssa.Next:
				if rg, ok := tup.Iter.(*ssa.Range); ok && v.Index > 0 && refType(v.Type()) {
					put(root{kind: "elem", val: rg, key: typKey(v.Type())})
				}
			case *ssa.Call:
				t.results(tup, v.Index, func(r ssa.Value) { walk(r, once) }, put)
			default:
				put(root{kind: "unknown", val: v})
			}
		case *ssa.Lookup:
			put(root{kind: "elem", val: v, key: typKey(v.Type())})
		case *ssa.Call:
			t.results(v, 0, func(r ssa.Value) { walk(r, once) }, put)
		case *ssa.Parameter:
			if v.Parent() == t.fn {
				put(root{kind: "arg", val: v})
				return
			}
			as := t.args(v)
			if len(as) == 0 {
				put(root{kind: "unknown", val: v, key: typKey(v.Type())})
			}
			for _, a := range as {
				walk(a, once)
			}
		case *ssa.FreeVar:
			n := 0
			for _, b := range t.p.bindingsOf(v) {
				if v.Parent() == t.fn || !t.reach[b.Parent()] {
					put(root{kind: "cell", val: b})
				} else {
					walk(b, once)
				}
				n++
			}
			if n == 0 {
				put(root{kind: "unknown", val: v})
			}
		case *ssa.Global:
			put(root{kind: "global", val: v})
		case *ssa.Const:
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
			put(root{kind: "local", val: v})
		case *ssa.MakeClosure, *ssa.Function, *ssa.Builtin:
			put(root{kind: "func", val: v})
		default:
			if refType(v.Type()) {
				put(root{kind: "unknown", val: v})
			}
		}
	}
	walk(v, "")
	t.memo[v] = out
	return out
}

// contents gives what a field of an object holds that the thread made itself or
// received: what is stored there, or something that came with it.
func (t *rthread) contents(a *ssa.FieldAddr) ([]root, bool) {
	if t.busy[a] {
		return nil, false
	}
	if t.busy == nil {
		t.busy = map[*ssa.FieldAddr]bool{}
	}
	t.busy[a] = true
	defer delete(t.busy, a)
	base := t.walk(a.X)
	delete(t.memo, a.X)
	var out []root
	for _, r := range base {
		switch r.kind {
		case "recv":
			out = append(out, r)
		case "local":
			if t.esc[r.val] || t.main {
				return nil, false
			}
			al, ok := r.val.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			for _, st := range t.p.structStores(al, a.Field) {
				out = append(out, root{kind: "stored", val: st})
			}
		default:
			return nil, false
		}
	}
	return out, len(base) > 0
}

// results follows the i-th result of a call.
func (t *rthread) results(c *ssa.Call, i int, walk func(ssa.Value), put func(root)) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			walk(c.Call.Args[0])
			put(root{kind: "local", val: c})
		}
		return
	}
	n := 0
	for _, f := range t.callees(c) {
		if f.Signature.Results().Len() <= i || !types.Identical(f.Signature.Results(), c.Call.Signature().Results()) {
			continue
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > i {
				walk(ret.Results[i])
				n++
			}
		}
	}
	if n == 0 {
		put(root{kind: "fresh", val: c})
		for _, a := range c.Call.Args {
			if refType(a.Type()) {
				walk(a)
			}
		}
	}
}

// cellAt gives the variable that an address is, if it is one.
func (p *Prog) cellAt(v ssa.Value) *ssa.Alloc { return cellOf(v) }

// allStores lists what is stored into a variable, also into a part of it.
func (p *Prog) allStores(cell *ssa.Alloc) []ssa.Value {
	out := append([]ssa.Value(nil), p.cellStores(cell)...)
	if _, ok := cell.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
		out = append(out, p.structStores(cell, -1)...)
	}
	return out
}

// structStores lists what is stored into a field of a variable (any, when field
// is -1), with what is stored into the whole.
func (p *Prog) structStores(cell *ssa.Alloc, field int) []ssa.Value {
	var out []ssa.Value
	if field >= 0 {
		out = append(out, p.cellStores(cell)...)
	}
	for _, f := range p.family(cell.Parent()) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && cellOf(fa.X) == cell && (field < 0 || fa.Field == field) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// family lists a function and the function literals in it.
func (p *Prog) family(f *ssa.Function) []*ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	out := []*ssa.Function{f}
	for i := 0; i < len(out); i++ {
		out = append(out, out[i].AnonFuncs...)
	}
	return out
}

// localStruct: the pointer is the address of a struct variable, which is used
// for nothing but its fields and its value.
func (t *rthread) localStruct(v ssa.Value) (*ssa.Alloc, bool) {
	cell := cellOf(v)
	if cell == nil || !t.reach[cell.Parent()] {
		return nil, false
	}
	if _, ok := cell.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
		return nil, false
	}
	for _, f := range t.p.family(cell.Parent()) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil || cellOf(*op) != cell {
						continue
					}
					switch in := in.(type) {
					case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
					case *ssa.Store:
						if in.Val == *op {
							return nil, false
						}
					default:
						return nil, false
					}
				}
			}
		}
	}
	return cell, true
}

func sentType(v ssa.Value) string {
	if c, ok := v.Type().Underlying().(*types.Chan); ok {
		return typKey(c.Elem())
	}
	return "?"
}

// ---- locks ----

// onceAt gives the sync.Once that is known to be done, or is being done.
func (t *rthread) onceAt(in ssa.Instruction) string {
	var out []string
	for k := range t.locks[in] {
		if strings.HasPrefix(k, "in ") || strings.HasPrefix(k, "after ") {
			out = append(out, k[strings.Index(k, " ")+1:])
		}
	}
	if len(out) == 0 {
		return ""
	}
	sort.Strings(out)
	return out[0]
}

// lockKey names a lock, when it is not private to the thread.
func (t *rthread) lockKey(v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a pointer to a lock
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			return "*" + fieldIDOf(a).String()
		case *ssa.Global:
			return "*" + a.String()
		}
	}
	switch a := v.(type) {
	case *ssa.FieldAddr:
		for _, r := range t.walk(a.X) {
			if r.kind == "local" || r.kind == "fresh" {
				return ""
			}
		}
		return fieldIDOf(a).String()
	case *ssa.Global:
		return a.String()
	}
	for _, r := range t.walk(v) {
		if r.kind == "cell" || r.kind == "arg" || r.kind == "global" {
			return fmt.Sprintf("%s", r.val)
		}
	}
	return ""
}

// lockset computes the locks that are certainly held at each instruction.
func (t *rthread) lockset() {
	entry := map[*ssa.Function]map[string]bool{t.fn: {}}
	for round := 0; round < 20; round++ {
		t.locks = map[ssa.Instruction]map[string]bool{}
		next := map[*ssa.Function]map[string]bool{t.fn: {}}
		meet := func(f *ssa.Function, s map[string]bool) {
			if f == t.fn {
				return
			}
			if next[f] == nil {
				next[f] = copySet(s)
				return
			}
			for k := range next[f] {
				if !s[k] {
					delete(next[f], k)
				}
			}
		}
		for _, f := range t.order {
			e := entry[f]
			if e == nil {
				continue
			}
			in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: copySet(e)}
			work := []*ssa.BasicBlock{f.Blocks[0]}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				s := copySet(in[b])
				for _, i := range b.Instrs {
					t.locks[i] = copySet(s)
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := i.(*ssa.Go); isGo {
						continue
					}
					name := callName(ci)
					_, deferred := i.(*ssa.Defer)
					if deferred {
						continue
					}
					arg := func() string { return t.lockKey(ci.Common().Args[0]) }
					switch name {
					case "sync.Mutex.Lock", "sync.RWMutex.Lock":
						if k := arg(); k != "" {
							s["w "+k] = true
						}
					case "sync.RWMutex.RLock":
						if k := arg(); k != "" {
							s["r "+k] = true
						}
					case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
						delete(s, "w "+arg())
					case "sync.RWMutex.RUnlock":
						delete(s, "r "+arg())
					case "sync.Once.Do":
						if k := arg(); k != "" {
							s["after "+k] = true
						}
					}
				}
				for _, nb := range b.Succs {
					old, ok := in[nb]
					if !ok {
						in[nb] = copySet(s)
						work = append(work, nb)
						continue
					}
					n := len(old)
					for k := range old {
						if !s[k] {
							delete(old, k)
						}
					}
					if len(old) != n {
						work = append(work, nb)
					}
				}
			}
		}
		for g, cs := range t.sites {
			for _, ci := range cs {
				ls, ok := t.locks[ci]
				if !ok {
					continue
				}
				ls = copySet(ls)
				if _, d := ci.(*ssa.Defer); d {
					ls = map[string]bool{}
				}
				if callName(ci) == "sync.Once.Do" {
					if k := t.lockKey(ci.Common().Args[0]); k != "" {
						ls["in "+k] = true
					}
				}
				meet(g, ls)
			}
		}
		same := len(next) == len(entry)
		for f, s := range next {
			if fmt.Sprint(s) != fmt.Sprint(entry[f]) || entry[f] == nil {
				same = false
			}
		}
		if same {
			break
		}
		entry = next
	}
	t.memo = map[ssa.Value][]root{}
}

func copySet(m map[string]bool) map[string]bool {
	o := make(map[string]bool, len(m))
	for k := range m {
		o[k] = true
	}
	return o
}

// ordered: locks order the two accesses.
func ordered(a, b *raccess) bool {
	if a.atomic && b.atomic {
		return true
	}
	guard := func(x *raccess) map[string]bool {
		g := copySet(x.locks)
		// obtained through a sync.Once, by whatever way
		if !x.write && len(x.roots) > 0 && x.roots[0].once != "" {
			same := true
			for _, r := range x.roots {
				same = same && r.once == x.roots[0].once
			}
			if same {
				g["after "+x.roots[0].once] = true
			}
		}
		return g
	}
	ga, gb := guard(a), guard(b)
	for k := range ga {
		f := strings.SplitN(k, " ", 2)
		switch f[0] {
		case "w":
			if gb[k] || gb["r "+f[1]] && !b.write {
				return true
			}
		case "r":
			if gb["w "+f[1]] && !a.write {
				return true
			}
		case "in":
			if gb[k] || gb["after "+f[1]] && !b.write {
				return true
			}
		case "after":
			if gb["in "+f[1]] && !a.write {
				return true
			}
		}
	}
	return false
}

// ---- accesses ----

// classesOf names the memory at an address: the field, the element type, or the
// type of a variable; a struct is all of its fields.
func classesOf(addr ssa.Value) []string {
	pt, ok := addr.Type().Underlying().(*types.Pointer)
	if !ok {
		return []string{"? " + typKey(addr.Type())}
	}
	var out []string
	var fields func(t types.Type)
	fields = func(t types.Type) {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				out = append(out, "field "+short(typKey(t))+"."+st.Field(i).Name())
				fields(st.Field(i).Type())
			}
		}
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		out = append(out, "field "+fieldIDOf(a).String())
	case *ssa.IndexAddr:
		out = append(out, "elem "+short(typKey(pt.Elem())))
	default:
		if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
			out = append(out, "var "+short(typKey(pt.Elem())))
		}
	}
	fields(pt.Elem())
	return out
}

// externSafe: a function outside of the repository that does not change what it
// gets, or may be used by several goroutines.
func externSafe(n string) bool {
	for _, pre := range []string{
		"sync.", "sync/atomic.", "golang.org/x/sync/", "context.", "fmt.Print", "fmt.Sprint", "fmt.Errorf", "errors.", "github.com/pkg/errors.",
		"strings.", "math.", "math/bits.", "strconv.", "time.", "unicode.", "unicode/utf8.", "os.Stdout", "bytes.New", "bufio.New", "runtime.", "log.Print",
		"math/rand.Float64", "math/rand.Intn", "math/rand.Int", "math/rand.Perm", "error.Error", "reflect.DeepEqual",
	} {
		if strings.HasPrefix(n, pre) {
			return !strings.HasPrefix(n, "strings.Builder.") && !strings.HasPrefix(n, "strings.Reader.") && !strings.HasPrefix(n, "time.Timer.Reset")
		}
	}
	return false
}

// accesses lists what a thread does to memory that it may not own.
func (t *rthread) accesses(each func(a *raccess)) {
	for _, f := range t.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if t.main && t.live[in] == nil {
					continue
				}
				t.access(in, each)
			}
		}
	}
}

func (t *rthread) access(in ssa.Instruction, each func(a *raccess)) {
	emit := func(class string, base ssa.Value, write, atomic bool) {
		each(&raccess{t: t, in: in, class: class, write: write, atomic: atomic, locks: t.locks[in], roots: t.walk(base), base: base})
	}
	at := func(addr ssa.Value, write, atomic bool) {
		for _, c := range classesOf(addr) {
			emit(c, addr, write, atomic)
		}
	}
	elems := func(v ssa.Value, write bool) {
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			emit("elem "+short(typKey(u.Elem())), v, write, false)
		case *types.Map:
			emit("map "+short(typKey(v.Type())), v, write, false)
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Array); ok {
				emit("elem "+short(typKey(u.Elem().Underlying().(*types.Array).Elem())), v, write, false)
			}
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		at(in.Addr, true, false)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			at(in.X, false, false)
		}
	case *ssa.MapUpdate:
		elems(in.Map, true)
	case *ssa.Lookup:
		elems(in.X, false)
	case *ssa.Range:
		elems(in.X, false)
	case *ssa.Call, *ssa.Defer:
		ci := in.(ssa.CallInstruction)
		com := ci.Common()
		if bi, ok := com.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				elems(com.Args[0], true)
				if len(com.Args) > 1 {
					elems(com.Args[1], false)
				}
			case "copy":
				elems(com.Args[0], true)
				elems(com.Args[1], false)
			case "delete", "clear":
				elems(com.Args[0], true)
			case "len":
				if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
					elems(com.Args[0], false)
				}
			}
			return
		}
		n := callName(ci)
		if strings.HasPrefix(n, "sync/atomic.") && com.StaticCallee() != nil && com.Signature().Recv() == nil {
			at(com.Args[0], !strings.HasPrefix(n, "sync/atomic.Load"), true)
			return
		}
		bodies := 0
		for _, g := range t.callees(ci) {
			if com.IsInvoke() || com.StaticCallee() == g || com.StaticCallee() == nil {
				bodies++
			}
		}
		if com.StaticCallee() != nil && bodies > 0 || externSafe(n) {
			return
		}
		if com.IsInvoke() && bodies > 0 {
			return // one of the repository's types
		}
		if com.StaticCallee() == nil && !com.IsInvoke() {
			return
		}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		for _, a := range args {
			switch u := a.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				elems(a, true)
			case *types.Pointer:
				if _, ok := u.Elem().Underlying().(*types.Struct); ok {
					emit("object "+short(typKey(u.Elem())), a, true, false)
				}
				at(a, true, false)
			case *types.Interface:
				if a.Type().String() != "error" {
					emit("object behind an interface", a, true, false)
				}
			}
		}
	}
}

// owned: all that the access may be based on belongs to the thread alone.
func (a *raccess) owned(transfer map[string]bool) bool {
	for _, r := range a.roots {
		switch r.kind {
		case "local":
			if a.t.main || a.t.esc[r.val] {
				return false
			}
		case "fresh", "func":
		case "recv":
			if !transfer[r.key] {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// escapes computes the local objects that are stored where others may find them.
func (t *rthread) escapes() {
	t.esc = map[ssa.Value]bool{}
	mark := func(v ssa.Value) {
		if !refType(v.Type()) {
			return
		}
		for _, r := range t.walk(v) {
			if r.kind == "local" {
				t.esc[r.val] = true
			}
		}
	}
	shared := func(addr ssa.Value) bool {
		for _, r := range t.walk(addr) {
			if r.kind != "local" && r.kind != "fresh" {
				return true
			}
			if r.kind == "local" && t.esc[r.val] {
				return true
			}
		}
		return false
	}
	for n := -1; n != len(t.esc); {
		n = len(t.esc)
		for _, f := range t.order {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if shared(in.Addr) {
							mark(in.Val)
						}
					case *ssa.MapUpdate:
						if shared(in.Map) {
							mark(in.Key)
							mark(in.Value)
						}
					case *ssa.Go:
						for _, a := range in.Call.Args {
							mark(a)
						}
						mark(in.Call.Value)
					}
				}
			}
		}
	}
	t.memo = map[ssa.Value][]root{}
}

// ---- the objects that an address may be based on, in any thread ----

// objects gives the instructions that make what v may refer to; ok is false when
// they are not all known.
func (p *Prog) objects(v ssa.Value) (map[ssa.Value]bool, bool) {
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.ChangeInterface:
			walk(v.X)
		case *ssa.MakeInterface:
			walk(v.X)
		case *ssa.TypeAssert:
			walk(v.X)
		case *ssa.Slice:
			walk(v.X)
		case *ssa.FieldAddr:
			walk(v.X)
		case *ssa.IndexAddr:
			walk(v.X)
		case *ssa.Field:
			walk(v.X)
		case *ssa.Convert:
			out[v] = true
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				p.sent(v.X, walk)
				return
			}
			if v.Op != token.MUL {
				ok = false
				return
			}
			if cell := cellOf(v.X); cell != nil {
				for _, st := range p.allStores(cell) {
					walk(st)
				}
				return
			}
			fa, isF := v.X.(*ssa.FieldAddr)
			if !isF {
				ok = false
				return
			}
			id := fieldIDOf(fa)
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, isS := in.(*ssa.Store); isS {
							if fb, isF := st.Addr.(*ssa.FieldAddr); isF && fieldIDOf(fb) == id {
								walk(st.Val)
							}
						}
					}
				}
			}
		case *ssa.Extract:
			if c, isC := v.Tuple.(*ssa.Call); isC {
				p.objResults(c, v.Index, walk, out)
				return
			}
			if ta, isT := v.Tuple.(*ssa.TypeAssert); isT {
				walk(ta.X)
				return
			}
			if u, isU := v.Tuple.(*ssa.UnOp); isU && u.Op == token.ARROW {
				p.sent(u.X, walk)
				return
			}
			ok = false
		case *ssa.Call:
			p.objResults(v, 0, walk, out)
		case *ssa.Parameter:
			as := p.argsOf(v)
			if len(as) == 0 {
				ok = false
			}
			for _, a := range as {
				walk(a)
			}
		case *ssa.FreeVar:
			bs := p.bindingsOf(v)
			if len(bs) == 0 {
				ok = false
			}
			for _, b := range bs {
				walk(b)
			}
		case *ssa.Const:
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Global, *ssa.MakeClosure, *ssa.Function:
			out[v] = true
		default:
			ok = false
		}
	}
	walk(v)
	return out, ok
}

// sent follows what is sent over channels with the same elements.
func (p *Prog) sent(ch ssa.Value, walk func(ssa.Value)) {
	k := sentType(ch)
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sd, ok := in.(*ssa.Send); ok && sentType(sd.Chan) == k {
					walk(sd.X)
				}
			}
		}
	}
}

func (p *Prog) objResults(c *ssa.Call, i int, walk func(ssa.Value), out map[ssa.Value]bool) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			walk(c.Call.Args[0])
			out[c] = true
		}
		return
	}
	n := 0
	for _, f := range p.callees(&c.Call) {
		if !hasBody(f) || f.Signature.Results().Len() <= i {
			continue
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > i {
				walk(ret.Results[i])
				n++
			}
		}
	}
	if n == 0 {
		out[c] = true
	}
}

// mayAlias: the two may refer to the same object.
func (p *Prog) mayAlias(a, b ssa.Value) bool {
	oa, ka := p.objects(a)
	ob, kb := p.objects(b)
	if !ka || !kb {
		return true
	}
	for o := range oa {
		if ob[o] {
			return true
		}
	}
	return false
}

// ---- objects that are made anew for each goroutine ----

// reachesAvoiding: there is a path from the end of one instruction to another
// one of the same function that does not pass a third.
func reachesAvoiding(from, to, avoid ssa.Instruction) bool {
	if from.Parent() != to.Parent() || avoid.Parent() != from.Parent() {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, start int) bool
	scan = func(b *ssa.BasicBlock, start int) bool {
		for _, in := range b.Instrs[start:] {
			if in == avoid {
				return false
			}
			if in == to {
				return true
			}
		}
		for _, nb := range b.Succs {
			if !seen[nb] {
				seen[nb] = true
				if scan(nb, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range from.Block().Instrs {
		if in == from {
			return scan(from.Block(), i+1)
		}
	}
	return true
}

// madeFor gives the object that a go statement passes (or lets the function
// capture) when it is one that Train makes anew before each such statement.
func madeFor(r root, sites map[ssa.Instruction]bool, fn *ssa.Function) (ssa.Instruction, bool) {
	var objs []ssa.Value
	switch r.kind {
	case "cell":
		objs = append(objs, r.val)
	case "arg":
		switch v := r.val.(type) {
		case *ssa.FreeVar:
			// the content of a captured variable: it is as old as the variable
			if cell := cellOf(v); cell != nil {
				objs = append(objs, cell)
			}
		case *ssa.Parameter:
			for s := range sites {
				com := s.(ssa.CallInstruction).Common()
				off := len(fn.Params) - len(com.Args)
				for i, q := range fn.Params {
					if q == v && i >= off && off >= 0 {
						objs = append(objs, com.Args[i-off])
					}
				}
			}
		}
	}
	if len(objs) != 1 {
		return nil, false
	}
	switch o := objs[0].(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		in := o.(ssa.Instruction)
		for s := range sites {
			if s.Parent() != in.Parent() || reachesAvoiding(s, s, in) {
				return nil, false
			}
		}
		return in, true
	}
	return nil, false
}
