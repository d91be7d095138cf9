package main

// Reference interpreter for B: the oracle of the program-level properties.  It
// is written from doc/bref and the library description, works on the AST of
// ast.go (never on the compiler's output), and refuses (traps) whatever the
// language leaves undefined, so that a generated case with an undefined
// outcome is dropped instead of being compared.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strconv"
)

type Trap struct{ Msg string }

func (t Trap) Error() string { return t.Msg }

func trap(format string, a ...any) { panic(Trap{fmt.Sprintf(format, a...)}) }

type Obj struct {
	base int64
	id   int
	data []byte
	def  []bool // nil: all defined; one entry per byte
	ro   bool
	dead bool
}

// Out is what a run of a program shows.
type Out struct {
	Stdout, Stderr []byte
	Merged         []byte // both, in the order of the calls
	Status         int
	Steps          int
}

type cfun struct {
	name   string
	params int
	native func(m *Machine, a []int64) int64
	code   []op
	nslots int
	slots  []slotInfo
}

type slotInfo struct {
	vec  bool
	size int64 // words of the vector
}

type frame struct {
	objs []*Obj // cell of each slot
	vecs []*Obj // words of vector slots
}

type exprFn func(m *Machine, fr *frame) int64

type opKind int

const (
	opEval opKind = iota
	opJmp
	opJz
	opSwitch
	opRet
	opAuto
)

type op struct {
	k      opKind
	e      exprFn
	target int
	cases  map[int64]int
	slots  []int
}

type Machine struct {
	layout  int
	lay     *layout
	objs    []*Obj
	globals map[string]*Obj
	funcs   map[string]*cfun
	byAddr  map[int64]*cfun
	addrOf  map[string]int64
	out     Out
	steps   int
	depth   int
	limit   int
	Chunks  []int // standard input comes in pieces of these sizes
	stackSz int
	In      map[int][]byte // input files by descriptor
	OutFds  map[int][]byte // written to other descriptors
	exited  bool
	// reading and writing of other descriptors than those of In and OutFds is not defined
	strictFd bool
}

type exitPanic struct{ status int }

func (m *Machine) newObj(n int, undef bool) *Obj { return m.newObjIn(n, undef, false) }

func (m *Machine) newObjIn(n int, undef, auto bool) *Obj {
	o := &Obj{id: len(m.objs), data: make([]byte, n)}
	if undef {
		o.def = make([]bool, n)
	}
	m.objs = append(m.objs, o)
	if m.lay != nil {
		m.lay.place(o, n, auto)
	}
	return o
}

// Two address layouts: a program whose outcome depends on addresses shows a
// different outcome under them.  Programs whose text was changed at random are
// run under many more (layout.go).
func (m *Machine) addr(o *Obj) int64 {
	if m.lay != nil {
		return o.base
	}
	if m.layout == 0 {
		return int64(o.id+16)<<24 + 0x100
	}
	return int64(0x70000000-3*o.id)<<24 + 0x7318
}

func (m *Machine) find(a int64, n int) (*Obj, int) {
	if m.lay != nil {
		o := m.lay.find(a)
		if o == nil || o.dead || a < o.base || a+int64(n) > o.base+int64(len(o.data)) {
			trap("access outside of an object")
		}
		return o, int(a - o.base)
	}
	var id, off int64
	if m.layout == 0 {
		id, off = a>>24-16, a&0xffffff-0x100
	} else {
		k := 0x70000000 - a>>24
		if k%3 != 0 {
			trap("wild address %x", a)
		}
		id, off = k/3, a&0xffffff-0x7318
	}
	if id < 0 || id >= int64(len(m.objs)) {
		trap("wild address %x", a)
	}
	o := m.objs[id]
	if o.dead {
		trap("dangling address")
	}
	if off < 0 || off+int64(n) > int64(len(o.data)) {
		trap("access outside of an object")
	}
	return o, int(off)
}

func (m *Machine) load(a int64) int64 {
	if a&7 != 0 {
		trap("unaligned word access")
	}
	o, off := m.find(a, 8)
	if o.def != nil {
		for i := 0; i < 8; i++ {
			if !o.def[off+i] {
				trap("undefined word is read")
			}
		}
	}
	return int64(binary.LittleEndian.Uint64(o.data[off:]))
}

func (m *Machine) store(a, v int64) {
	if a&7 != 0 {
		trap("unaligned word access")
	}
	o, off := m.find(a, 8)
	if o.ro {
		trap("store to a string")
	}
	binary.LittleEndian.PutUint64(o.data[off:], uint64(v))
	if o.def != nil {
		for i := 0; i < 8; i++ {
			o.def[off+i] = true
		}
	}
}

func (m *Machine) loadByte(a int64) byte {
	o, off := m.find(a, 1)
	if o.def != nil && !o.def[off] {
		trap("undefined byte is read")
	}
	return o.data[off]
}

func (m *Machine) storeByte(a int64, b byte) {
	o, off := m.find(a, 1)
	if o.ro {
		trap("store to a string")
	}
	o.data[off] = b
	if o.def != nil {
		o.def[off] = true
	}
}

// ---- compiling the AST ----

type scope struct {
	m      *Machine
	f      *cfun
	slots  map[string]int
	ext    map[string]bool
	labels map[string]int
	fix    []fixup
}

type fixup struct {
	at   int
	name string
}

func NewMachine(progs []*Prog, layout int) *Machine {
	m := &Machine{layout: layout, globals: map[string]*Obj{}, funcs: map[string]*cfun{},
		byAddr: map[int64]*cfun{}, addrOf: map[string]int64{}, limit: 200000,
		In: map[int][]byte{}}
	if layout > 1 {
		m.lay = newLayout(layout)
	}
	for n, f := range natives {
		m.funcs[n] = &cfun{name: n, native: f}
	}
	m.globals["fout"] = m.newObj(8, false)
	// definitions: the last one of a name counts
	last := map[string]*Decl{}
	var order []string
	for _, p := range progs {
		for _, d := range p.Decls {
			if last[d.Name] == nil {
				order = append(order, d.Name)
			}
			last[d.Name] = d
		}
	}
	for _, n := range order {
		d := last[n]
		if d.IsFunc {
			m.funcs[n] = &cfun{name: n, params: len(d.Params)}
			continue
		}
		m.defVar(d)
	}
	for _, n := range order {
		if d := last[n]; d.IsFunc {
			m.compile(d)
		}
	}
	return m
}

func (m *Machine) defVar(d *Decl) {
	val := func(v IVal) int64 {
		if v.IsS {
			return m.addr(m.strObj(v.Str))
		}
		return v.N
	}
	if !d.Vec {
		n := len(d.Init)
		if n == 0 {
			n = 1
		}
		o := m.newObj(8*n, false)
		for i, v := range d.Init {
			binary.LittleEndian.PutUint64(o.data[8*i:], uint64(val(v)))
		}
		m.globals[d.Name] = o
		return
	}
	n := int(d.Size)
	if len(d.Init) > n {
		n = len(d.Init)
	}
	if n == 0 {
		n = 1
	}
	w := m.newObj(8*n, false)
	for i, v := range d.Init {
		binary.LittleEndian.PutUint64(w.data[8*i:], uint64(val(v)))
	}
	c := m.newObj(8, false)
	binary.LittleEndian.PutUint64(c.data, uint64(m.addr(w)))
	m.globals[d.Name] = c
}

func (m *Machine) strObj(b []byte) *Obj {
	if m.lay != nil {
		if o := m.lay.sameStr(b); o != nil {
			return o
		}
	}
	o := m.newObj(len(b)+1, false)
	copy(o.data, b)
	o.ro = true
	if m.lay != nil {
		m.lay.strs = append(m.lay.strs, o)
	}
	return o
}

func (m *Machine) funcAddr(f *cfun) int64 {
	if a, ok := m.addrOf[f.name]; ok {
		return a
	}
	a := int64(0x1000 + 16*len(m.addrOf))
	if m.layout == 1 {
		a = int64(0x90000 - 32*len(m.addrOf))
	}
	if m.lay != nil {
		a = m.lay.funcAddr(len(m.addrOf))
	}
	m.addrOf[f.name] = a
	m.byAddr[a] = f
	return a
}

func (m *Machine) global(n string) *Obj {
	o := m.globals[n]
	if o == nil {
		o = m.newObj(8, false)
		m.globals[n] = o
	}
	return o
}

func (m *Machine) compile(d *Decl) {
	f := m.funcs[d.Name]
	sc := &scope{m: m, f: f, slots: map[string]int{}, ext: map[string]bool{}, labels: map[string]int{}}
	for _, p := range d.Params {
		sc.slots[p] = f.nslots
		f.nslots++
		f.slots = append(f.slots, slotInfo{})
	}
	sc.stmt(d.Body, nil)
	sc.emit(op{k: opRet})
	for _, x := range sc.fix {
		t, ok := sc.labels[x.name]
		if !ok {
			trap("undefined label %s", x.name)
		}
		f.code[x.at].target = t
	}
}

func (sc *scope) emit(o op) int {
	sc.f.code = append(sc.f.code, o)
	return len(sc.f.code) - 1
}
func (sc *scope) here() int { return len(sc.f.code) }

func (sc *scope) stmt(s *Stmt, cases map[int64]int) {
	switch s.K {
	case SExpr:
		sc.emit(op{k: opEval, e: sc.rv(s.A)})
	case SNull:
	case SBlock:
		for _, x := range s.List {
			sc.stmt(x, cases)
		}
	case SIf:
		j := sc.emit(op{k: opJz, e: sc.rv(s.A)})
		sc.stmt(s.Body, nil)
		if s.Else != nil {
			k := sc.emit(op{k: opJmp})
			sc.f.code[j].target = sc.here()
			sc.stmt(s.Else, nil)
			sc.f.code[k].target = sc.here()
		} else {
			sc.f.code[j].target = sc.here()
		}
	case SWhile:
		top := sc.here()
		j := sc.emit(op{k: opJz, e: sc.rv(s.A)})
		sc.stmt(s.Body, nil)
		sc.emit(op{k: opJmp, target: top})
		sc.f.code[j].target = sc.here()
	case SSwitch:
		e := sc.rv(s.A)
		cs := map[int64]int{}
		j := sc.emit(op{k: opSwitch, e: e, cases: cs})
		sc.stmt(s.Body, cs)
		sc.f.code[j].target = sc.here()
	case SCase:
		if cases == nil {
			trap("case outside of switch")
		}
		if _, dup := cases[s.N]; dup {
			trap("duplicate case")
		}
		cases[s.N] = sc.here()
		sc.stmt(s.Body, cases)
	case SLabel:
		if _, dup := sc.labels[s.Name]; dup {
			trap("duplicate label")
		}
		sc.labels[s.Name] = sc.here()
		sc.stmt(s.Body, cases)
	case SGoto:
		sc.fix = append(sc.fix, fixup{sc.emit(op{k: opJmp}), s.Name})
	case SReturn:
		o := op{k: opRet}
		if s.A != nil {
			o.e = sc.rv(s.A)
		}
		sc.emit(o)
	case SAuto:
		var sl []int
		for _, v := range s.Vars {
			if _, dup := sc.slots[v.Name]; dup {
				trap("duplicate auto")
			}
			sc.slots[v.Name] = sc.f.nslots
			sl = append(sl, sc.f.nslots)
			sc.f.nslots++
			n := v.Size
			if v.Vec && n == 0 {
				n = 1
			}
			sc.f.slots = append(sc.f.slots, slotInfo{vec: v.Vec, size: n})
		}
		sc.emit(op{k: opAuto, slots: sl})
	case SExtrn:
		for _, n := range s.Names {
			if f := sc.m.funcs[n]; f != nil {
				trap("extrn of function %s", n)
			}
			sc.ext[n] = true
		}
	}
}

// lv compiles an lvalue: the result is its address.
func (sc *scope) lv(e *Expr) exprFn {
	switch e.K {
	case EName:
		if i, ok := sc.slots[e.Name]; ok {
			return func(m *Machine, fr *frame) int64 { return m.addr(fr.objs[i]) }
		}
		if sc.ext[e.Name] {
			n := e.Name
			return func(m *Machine, fr *frame) int64 { return m.addr(m.global(n)) }
		}
		trap("not a variable: %s", e.Name)
	case EUn:
		if e.Op == "*" {
			return sc.rv(e.A)
		}
	case EPre:
		a := sc.lv(e.A)
		d := int64(1)
		if e.Op == "--" {
			d = -1
		}
		return func(m *Machine, fr *frame) int64 {
			p := a(m, fr)
			m.store(p, m.load(p)+d)
			return p
		}
	case EIndex:
		b, i := sc.rv(e.A), sc.rv(e.B)
		return func(m *Machine, fr *frame) int64 {
			p := b(m, fr)
			return p + 8*i(m, fr)
		}
	}
	trap("not an lvalue: %d", e.K)
	return nil
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func binop(o string, a, b int64) int64 {
	switch o {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/", "%":
		if b == 0 || b == -1 && a == -1<<63 {
			trap("division")
		}
		if o == "/" {
			return a / b
		}
		return a % b
	case "&":
		return a & b
	case "|":
		return a | b
	case "<<", ">>":
		if b < 0 || b > 63 {
			trap("shift count")
		}
		if o == "<<" {
			return a << uint(b)
		}
		return int64(uint64(a) >> uint(b))
	case "<":
		return b2i(a < b)
	case "<=":
		return b2i(a <= b)
	case ">":
		return b2i(a > b)
	case ">=":
		return b2i(a >= b)
	case "==":
		return b2i(a == b)
	case "!=":
		return b2i(a != b)
	}
	panic("binop " + o)
}

// rv compiles a value.
func (sc *scope) rv(e *Expr) exprFn {
	m := sc.m
	switch e.K {
	case ENum, EChr:
		n := e.N
		return func(*Machine, *frame) int64 { return n }
	case EStr:
		a := m.addr(m.strObj(e.Bytes))
		return func(*Machine, *frame) int64 { return a }
	case EParen:
		return sc.rv(e.A)
	case EName:
		if _, ok := sc.slots[e.Name]; !ok && !sc.ext[e.Name] {
			f := m.funcs[e.Name]
			if f == nil {
				trap("unknown name %s", e.Name)
			}
			a := m.funcAddr(f)
			return func(*Machine, *frame) int64 { return a }
		}
		a := sc.lv(e)
		return func(m *Machine, fr *frame) int64 { return m.load(a(m, fr)) }
	case EIndex, EPre:
		a := sc.lv(e)
		return func(m *Machine, fr *frame) int64 { return m.load(a(m, fr)) }
	case EPost:
		a := sc.lv(e.A)
		d := int64(1)
		if e.Op == "--" {
			d = -1
		}
		return func(m *Machine, fr *frame) int64 {
			p := a(m, fr)
			v := m.load(p)
			m.store(p, v+d)
			return v
		}
	case EUn:
		switch e.Op {
		case "*":
			a := sc.rv(e.A)
			return func(m *Machine, fr *frame) int64 { return m.load(a(m, fr)) }
		case "&":
			return sc.lv(e.A)
		case "!":
			a := sc.rv(e.A)
			return func(m *Machine, fr *frame) int64 { return b2i(a(m, fr) == 0) }
		case "-":
			a := sc.rv(e.A)
			return func(m *Machine, fr *frame) int64 { return -a(m, fr) }
		}
	case EBin:
		a, b, o := sc.rv(e.A), sc.rv(e.B), e.Op
		return func(m *Machine, fr *frame) int64 {
			x := a(m, fr)
			return binop(o, x, b(m, fr))
		}
	case ECond:
		a, b, c := sc.rv(e.A), sc.rv(e.B), sc.rv(e.C)
		return func(m *Machine, fr *frame) int64 {
			if a(m, fr) != 0 {
				return b(m, fr)
			}
			return c(m, fr)
		}
	case EAssign:
		a, b, o := sc.lv(e.A), sc.rv(e.B), e.Op[1:]
		if o == "" {
			return func(m *Machine, fr *frame) int64 {
				p := a(m, fr)
				v := b(m, fr)
				m.store(p, v)
				return v
			}
		}
		return func(m *Machine, fr *frame) int64 {
			p := a(m, fr)
			v := b(m, fr)
			v = binop(o, m.load(p), v)
			m.store(p, v)
			return v
		}
	case ECall:
		args := make([]exprFn, len(e.Args))
		for i, x := range e.Args {
			args[i] = sc.rv(x)
		}
		var fv exprFn
		var direct *cfun
		if e.A.K == EName {
			if _, ok := sc.slots[e.A.Name]; !ok && !sc.ext[e.A.Name] {
				direct = m.funcs[e.A.Name]
				if direct == nil {
					trap("unknown function %s", e.A.Name)
				}
			}
		}
		if direct == nil {
			fv = sc.rv(e.A)
		}
		return func(m *Machine, fr *frame) int64 {
			f := direct
			if f == nil {
				f = m.byAddr[fv(m, fr)]
				if f == nil {
					trap("call of something else than a function")
				}
			}
			av := make([]int64, len(args))
			for i, x := range args {
				av[i] = x(m, fr)
			}
			return m.call(f, av)
		}
	}
	panic("rv " + strconv.Itoa(int(e.K)) + e.Op)
}

func (m *Machine) tick() {
	m.steps++
	if m.steps > m.limit {
		trap("too many steps")
	}
}

func (m *Machine) call(f *cfun, args []int64) int64 {
	m.tick()
	if f.native != nil {
		return f.native(m, args)
	}
	if len(args) < f.params {
		trap("missing argument")
	}
	m.depth++
	if m.depth > 3000 {
		trap("recursion too deep")
	}
	fr := &frame{objs: make([]*Obj, f.nslots), vecs: make([]*Obj, f.nslots)}
	own := make([]*Obj, 0, f.nslots)
	sz := 0
	var mark layoutMark
	if m.lay != nil {
		mark = m.lay.enter()
	}
	for i, s := range f.slots {
		o := m.newObjIn(8, false, true)
		fr.objs[i] = o
		own = append(own, o)
		if i < f.params {
			binary.LittleEndian.PutUint64(o.data, uint64(args[i]))
		} else if s.vec {
			v := m.newObjIn(int(8*s.size), true, true)
			own = append(own, v)
			fr.vecs[i] = v
			binary.LittleEndian.PutUint64(o.data, uint64(m.addr(v)))
			sz += int(s.size) * 8
		}
		sz += 8
	}
	m.stackSz += sz + 200
	if m.stackSz > 2<<20 {
		trap("stack too large")
	}
	pc := 0
	var res int64
loop:
	for {
		m.tick()
		o := &f.code[pc]
		pc++
		switch o.k {
		case opEval:
			o.e(m, fr)
		case opJmp:
			pc = o.target
		case opJz:
			if o.e(m, fr) == 0 {
				pc = o.target
			}
		case opSwitch:
			v := o.e(m, fr)
			if t, ok := o.cases[v]; ok {
				pc = t
			} else {
				pc = o.target
			}
		case opRet:
			if o.e != nil {
				res = o.e(m, fr)
			}
			break loop
		case opAuto:
			for _, i := range o.slots {
				c := fr.objs[i]
				if f.slots[i].vec {
					v := fr.vecs[i]
					binary.LittleEndian.PutUint64(c.data, uint64(m.addr(v)))
					// the words are not initialised
					for k := range v.def {
						v.def[k] = false
					}
				} else {
					binary.LittleEndian.PutUint64(c.data, 0)
				}
			}
		}
	}
	for _, o := range own {
		o.dead = true
		o.data, o.def = nil, nil
	}
	if m.lay != nil {
		m.lay.leave(mark)
	}
	m.stackSz -= sz + 200
	m.depth--
	return res
}

// Run calls main.
func (m *Machine) Run() (out Out, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Trap:
				err = x
			case exitPanic:
				m.out.Status = x.status
				m.out.Steps = m.steps
				out = m.out
			default:
				panic(r)
			}
		}
	}()
	f := m.funcs["main"]
	if f == nil {
		trap("no main")
	}
	v := m.call(f, nil)
	m.out.Status = int(v & 255)
	m.out.Steps = m.steps
	return m.out, nil
}

// interpret runs the program under both address layouts.
func interpret(setup func(*Machine), progs ...*Prog) (out Out, err error) {
	return interpretIn(2, setup, progs...)
}

// interpretIn runs it under n.
func interpretIn(n int, setup func(*Machine), progs ...*Prog) (out Out, err error) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(Trap); ok {
				err = t
				return
			}
			panic(r)
		}
	}()
	for i := 0; i < n; i++ {
		m := NewMachine(progs, i)
		if setup != nil {
			setup(m)
		}
		o, err := m.Run()
		if err != nil {
			return Out{}, err
		}
		if i == 0 {
			out = o
		} else if !bytes.Equal(out.Merged, o.Merged) || out.Status != o.Status {
			return Out{}, Trap{"outcome depends on addresses"}
		}
	}
	return out, nil
}

// ---- the library ----

func (m *Machine) put(fd int, b []byte) {
	switch fd {
	case 1:
		m.out.Stdout = append(m.out.Stdout, b...)
	case 2:
		m.out.Stderr = append(m.out.Stderr, b...)
	default:
		trap("write to descriptor %d", fd)
	}
	m.out.Merged = append(m.out.Merged, b...)
	if len(m.out.Merged) > 1<<20 {
		trap("too much output")
	}
}

func (m *Machine) stdout() int {
	v := int64(binary.LittleEndian.Uint64(m.globals["fout"].data))
	if v != 0 && v != 1 {
		trap("fout %d", v)
	}
	return int(v) + 1
}

func wordBytes(v int64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(v))
	i := 0
	for i < 7 && b[i] == 0 {
		i++
	}
	return b[i:]
}

func need(a []int64, n int) {
	if len(a) < n {
		trap("missing argument of a library function")
	}
}

var natives map[string]func(m *Machine, a []int64) int64

// The result of a library function without a documented result must not be
// used: it differs between the layouts.
func init() {
	natives = map[string]func(m *Machine, a []int64) int64{
		"write":  func(m *Machine, a []int64) int64 { need(a, 1); m.put(m.stdout(), wordBytes(a[0])); return 0 },
		"writeb": func(m *Machine, a []int64) int64 { need(a, 1); m.put(m.stdout(), []byte{byte(a[0])}); return 0 },
		"printd": func(m *Machine, a []int64) int64 {
			need(a, 1)
			m.put(m.stdout(), strconv.AppendInt(nil, a[0], 10))
			return 0
		},
		"printo": func(m *Machine, a []int64) int64 {
			need(a, 1)
			m.put(m.stdout(), strconv.AppendUint(nil, uint64(a[0]), 8))
			return 0
		},
		"printf": nPrintf,
		"flush":  func(m *Machine, a []int64) int64 { return 0 },
		"exit":   func(m *Machine, a []int64) int64 { panic(exitPanic{0}) },
		"char": func(m *Machine, a []int64) int64 {
			need(a, 2)
			return int64(m.loadByte(a[0] + a[1]))
		},
		"lchar": func(m *Machine, a []int64) int64 {
			need(a, 3)
			m.storeByte(a[0]+a[1], byte(a[2]))
			return 0
		},
		"read": func(m *Machine, a []int64) int64 {
			in := m.In[0]
			if len(in) == 0 {
				return 4
			}
			m.In[0] = in[1:]
			m.took(1)
			if in[0] >= 1 && in[0] <= 127 {
				return int64(in[0])
			}
			return 0
		},
		"nread": func(m *Machine, a []int64) int64 {
			need(a, 3)
			in, ok := m.In[int(a[0])]
			if !ok || a[0] != int64(int(a[0])) {
				if m.strictFd {
					trap("descriptor")
				}
				return -9
			}
			n := a[2]
			if n < 0 {
				trap("nread count")
			}
			if n > int64(len(in)) {
				n = int64(len(in))
			}
			if a[0] == 0 {
				if len(m.Chunks) > 0 && n > int64(m.Chunks[0]) {
					n = int64(m.Chunks[0])
				}
				m.took(int(n))
			}
			for i := int64(0); i < n; i++ {
				m.storeByte(a[1]+i, in[i])
			}
			m.In[int(a[0])] = in[n:]
			return n
		},
		"nwrite": func(m *Machine, a []int64) int64 {
			need(a, 3)
			if a[2] < 0 || a[2] > 1<<20 {
				trap("nwrite count")
			}
			b := make([]byte, a[2])
			for i := range b {
				b[i] = m.loadByte(a[1] + int64(i))
			}
			if a[0] == 1 || a[0] == 2 {
				m.put(int(a[0]), b)
				return a[2]
			}
			if o, ok := m.OutFds[int(a[0])]; ok && a[0] == int64(int(a[0])) {
				m.OutFds[int(a[0])] = append(o, b...)
				return a[2]
			}
			if m.strictFd {
				trap("descriptor")
			}
			return -9
		},
	}
	// no documented result: another one in each layout
	for _, n := range []string{"write", "writeb", "printd", "printo", "printf", "flush", "lchar"} {
		f := natives[n]
		natives[n] = func(m *Machine, a []int64) int64 {
			f(m, a)
			return []int64{0, -1, 1, 255, 77 << 40, -1 << 63, 8}[m.layout%7]
		}
	}
}

func nPrintf(m *Machine, a []int64) int64 {
	need(a, 1)
	fd := m.stdout()
	next := 1
	arg := func() int64 {
		if next >= len(a) {
			trap("printf argument missing")
		}
		next++
		return a[next-1]
	}
	for i := a[0]; ; i++ {
		c := m.loadByte(i)
		if c == 0 {
			return 0
		}
		if c != '%' {
			m.put(fd, []byte{c})
			continue
		}
		i++
		switch m.loadByte(i) {
		case 'd':
			m.put(fd, strconv.AppendInt(nil, arg(), 10))
		case 'o':
			v := arg()
			u := uint64(v)
			if v < 0 {
				m.put(fd, []byte{'-'})
				u = -u
			}
			m.put(fd, strconv.AppendUint(nil, u, 8))
		case 'c':
			m.put(fd, wordBytes(arg()))
		case 's':
			for p := arg(); ; p++ {
				b := m.loadByte(p)
				if b == 0 {
					break
				}
				m.put(fd, []byte{b})
			}
		case '%':
			m.put(fd, []byte{'%'})
		default:
			m.put(fd, []byte{'%'})
			i--
		}
	}
}

// took notes that n bytes of standard input are used up.
func (m *Machine) took(n int) {
	if len(m.Chunks) == 0 || n == 0 {
		return
	}
	m.Chunks[0] -= n
	if m.Chunks[0] == 0 {
		m.Chunks = m.Chunks[1:]
	}
}
