package iterable

import "github.com/solarisdb/solaris/golibs/verifsym"

// mmodel is the insertion-ordered map and its iterators as the documentation has them: the entries in the order they were
// added, an iterator knows the last entry it returned
type mmodel struct {
	m    *Map[int, int]
	ents []ment
	its  [2]Iterator[MapEntry[int, int]]
	pos  [2]int
}

type ment struct {
	k, v  int
	alive bool
}

func (w *mmodel) find(k int) int {
	for i := range w.ents {
		if w.ents[i].k == k && w.ents[i].alive {
			return i
		}
	}
	return -1
}

func (w *mmodel) after(pos int) int {
	for ; pos < len(w.ents); pos++ {
		if w.ents[pos].alive {
			return pos
		}
	}
	return -1
}

func (w *mmodel) add(k, v int) {
	err := w.m.Add(k, v)
	if w.find(k) >= 0 {
		verifsym.Assert(err != nil, "map: a key is added once")
		return
	}
	verifsym.Assert(err == nil, "map: an absent key is added")
	w.ents = append(w.ents, ment{k, v, true})
}

func (w *mmodel) remove(k int) {
	w.m.Remove(k)
	if i := w.find(k); i >= 0 {
		w.ents[i].alive = false
	}
}

func (w *mmodel) next(i int, ask bool) bool {
	n := w.after(w.pos[i])
	if ask {
		verifsym.Assert(w.its[i].HasNext() == (n >= 0), "iterator: HasNext tells if there is an entry not returned yet")
	}
	e, ok := w.its[i].Next()
	if n < 0 {
		verifsym.Assert(!ok, "iterator: a removed entry or one already returned is not returned")
		return false
	}
	verifsym.Assert(ok, "iterator: an entry is not left out")
	verifsym.Assert(e.Key == w.ents[n].k && e.Value == w.ents[n].v, "iterator: the entries come in the order they were added")
	w.pos[i] = n + 1
	return true
}

func (w *mmodel) check() {
	n := 0
	for i, e := range w.ents {
		if e.alive {
			v, ok := w.m.Get(e.k)
			verifsym.Assert(ok && v == w.ents[i].v, "map: a key is found while it is in the map with the value added")
			n++
		} else if w.find(e.k) < 0 {
			_, ok := w.m.Get(e.k)
			verifsym.Assert(!ok, "map: a removed key is not found")
		}
	}
	verifsym.Assert(w.m.Len() == n, "map: the length is the number of entries")
	k, ok := w.m.First()
	i := w.after(0)
	verifsym.Assert(ok == (i >= 0), "map: there is a first key unless the map is empty")
	if ok {
		verifsym.Assert(k == w.ents[i].k, "map: the first key is the one added first")
	}
}

func (w *mmodel) run(steps, its int) {
	w.m = NewMap[int, int]()
	for s := 0; s < steps; s++ {
		n := string(rune('0' + s))
		op := verifsym.Choose("op"+n, 2+3*its)
		if s == steps-1 {
			verifsym.Assume(op != 0) // the end adds an entry anyway
		}
		switch {
		case op == 0:
			w.add(verifsym.AnyInt("k"+n), verifsym.AnyInt("v"+n))
		case op == 1:
			verifsym.Assume(s > 0)
			w.remove(verifsym.AnyInt("k" + n))
		default:
			op -= 2
			i := op % its
			if i == 1 && w.its[0] == nil {
				verifsym.Assume(false) // the two iterators are alike
			}
			if w.its[i] == nil {
				if op >= its {
					verifsym.Assume(false)
				}
				w.its[i], w.pos[i] = w.m.Iterator(), 0
				continue
			}
			switch op / its {
			case 0:
				w.next(i, false)
			case 1:
				w.next(i, true)
			case 2:
				verifsym.Assert(w.its[i].Close() == nil, "iterator: close")
				w.its[i] = nil
			}
		}
	}
	for i := range w.its {
		if w.its[i] != nil {
			for w.next(i, i == 0) {
			}
			if i == 0 {
				verifsym.Assert(!w.its[i].HasNext(), "iterator: the end stays the end")
			}
			w.its[i].Close()
		}
	}
	w.check()
	w.its[0], w.pos[0] = w.m.Iterator(), 0
	for w.next(0, true) {
		verifsym.Reach("left")
	}
	k := verifsym.AnyInt("kend")
	if w.find(k) < 0 {
		w.add(k, 7)
		verifsym.Assert(w.next(0, true), "iterator: an entry added later is returned")
		w.its[0].Close()
		w.remove(k)
		w.check()
	}
	verifsym.Reach("end")
}

// every sequence of 6 steps: adding an entry or removing one by any key, opening, asking, moving or closing one of 2 iterators; then everything is read to the end; any integer keys and values
//
//sym:harness prop=C15 budget=100s reach=end,left
func HMap() { (&mmodel{}).run(6, 2) }

// as HMap with 7 steps and 1 iterator
//
//sym:harness prop=C15 tier=thorough budget=400s reach=end,left
func HMapOne() { (&mmodel{}).run(7, 1) }

// as HMap with 7 steps
//
//sym:harness prop=C15 tier=thorough budget=800s reach=end,left
func HMapDeep() { (&mmodel{}).run(7, 2) }
