package main

// Further address layouts for the interpreter: scattered, round, and as dense
// as real ones (with stack frames that take the place of earlier ones and
// equal strings in one place).  A program whose outcome is the same under all
// of them does not depend on addresses in a way that matters.

import (
	"bytes"
	"sort"
)

// all small primes and many twos divide round addresses
const roundUnit = 3 * 3 * 5 * 5 * 7 * 11 * 13 * 17 * 19 << 12

type layout struct {
	kind  int // 0 scattered, 1 round, 2 dense
	rnd   uint64
	slots map[int64]*Obj
	// dense: objects by address, stack by falling address
	stat, stk []*Obj
	top, sp   int64
	code      int64
	gap       int64
	used      map[int64]bool
	strs      []*Obj
}

type layoutMark struct {
	n  int
	sp int64
}

func newLayout(k int) *layout {
	l := &layout{kind: []int{0, 2, 0, 1, 2, 0}[k%6], rnd: uint64(k) * 77777, slots: map[int64]*Obj{}, used: map[int64]bool{}}
	if k%6 == 1 {
		l.top, l.code, l.sp = 0x404000, 0x401000, 0x7ffc10000000
	} else {
		l.top, l.code, l.sp = 0x555500008000, 0x555500005000, 0x7fff00000000
	}
	l.top += int64(l.draw()%4096) &^ 15
	l.code += int64(l.draw()%4096) &^ 15
	l.sp += int64(l.draw()%(1<<24)) &^ 15
	l.gap = int64(l.draw() % 3 * 8)
	return l
}

func (l *layout) draw() uint64 {
	l.rnd++
	return mix(l.rnd)
}

func (l *layout) place(o *Obj, n int, auto bool) {
	switch {
	case auto && l.kind != 2:
		l.scatter(o)
		l.stk = append(l.stk, o)
	case auto:
		l.sp -= int64((n + 7) &^ 7)
		o.base = l.sp
		l.stk = append(l.stk, o)
	case l.kind == 2:
		o.base = l.top
		l.top += int64((n+7)&^7) + l.gap
		if n > 32 {
			l.top = (l.top + 15) &^ 15
		}
		l.stat = append(l.stat, o)
	default:
		l.scatter(o)
	}
}

func (l *layout) slot(o *Obj) int64 {
	if l.kind == 0 {
		return o.base >> 25
	}
	return o.base / roundUnit
}

func (l *layout) scatter(o *Obj) {
	for {
		s := int64(l.draw() % (1 << 22))
		if l.kind == 1 {
			s %= 1 << 20
		}
		if s < 2 || l.slots[s] != nil {
			continue
		}
		l.slots[s] = o
		if l.kind == 0 {
			o.base = s<<25 + int64(l.draw()%(1<<23))&^7 + 4096
		} else {
			o.base = s * roundUnit
		}
		return
	}
}

func (l *layout) find(a int64) *Obj {
	switch l.kind {
	case 0:
		return l.slots[a>>25]
	case 1:
		return l.slots[a/roundUnit]
	}
	if i := sort.Search(len(l.stat), func(i int) bool { return l.stat[i].base > a }); i > 0 {
		if o := l.stat[i-1]; a < o.base+int64(len(o.data)) {
			return o
		}
	}
	if i := sort.Search(len(l.stk), func(i int) bool { return l.stk[i].base <= a }); i < len(l.stk) {
		return l.stk[i]
	}
	return nil
}

func (l *layout) funcAddr(n int) int64 {
	if l.kind == 2 {
		l.code += 16 + int64(l.draw()%20*16)
		return l.code
	}
	for {
		a := int64(l.draw() % (1 << 47))
		if l.kind == 1 {
			a = int64(l.draw()%(1<<15)) * roundUnit
		}
		if a != 0 && !l.used[a] {
			l.used[a] = true
			return a
		}
	}
}

func (l *layout) enter() layoutMark {
	m := layoutMark{len(l.stk), l.sp}
	l.sp -= 32 + l.gap
	return m
}

func (l *layout) leave(m layoutMark) {
	if l.kind != 2 {
		for _, o := range l.stk[m.n:] {
			delete(l.slots, l.slot(o))
		}
	}
	l.stk, l.sp = l.stk[:m.n], m.sp
}

// sameStr gives the string object of which b is the end.
func (l *layout) sameStr(b []byte) *Obj {
	if l.kind != 2 {
		return nil
	}
	z := append(append([]byte{}, b...), 0)
	for _, o := range l.strs {
		if bytes.Equal(o.data, z) {
			return o
		}
		if bytes.HasSuffix(o.data, z) {
			return &Obj{id: o.id, base: o.base + int64(len(o.data)-len(z)), data: z, ro: true}
		}
	}
	return nil
}
