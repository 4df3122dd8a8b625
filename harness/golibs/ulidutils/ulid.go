package ulidutils

import (
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// every 128-bit id: NextID is id+1 mod 2^128 and greater unless it wraps
//
//sym:harness prop=C19 budget=120s reach=done
func HNext() {
	id := ulid.ULID(verifsym.ULID("id"))
	nu, err := ulid.Parse(NextID(id.String()))
	verifsym.Assert(err == nil, "NextID returns a ULID")
	carry := true
	for i := 15; i >= 0; i-- {
		verifsym.Assert(nu[i] == id[i]+byte(verifsym.IteInt(carry, 1, 0)), "NextID is the 128-bit successor")
		carry = verifsym.And(carry, id[i] == 255)
	}
	verifsym.Assert(verifsym.Or(carry, nu.Compare(id) > 0), "NextID is greater")
	verifsym.Reach("done")
}

// every 128-bit id: PrevID is id-1 mod 2^128 and smaller unless it wraps
//
//sym:harness prop=C19 budget=120s reach=done
func HPrev() {
	id := ulid.ULID(verifsym.ULID("id"))
	pu, err := ulid.Parse(PrevID(id.String()))
	verifsym.Assert(err == nil, "PrevID returns a ULID")
	borrow := true
	for i := 15; i >= 0; i-- {
		verifsym.Assert(pu[i] == id[i]-byte(verifsym.IteInt(borrow, 1, 0)), "PrevID is the 128-bit predecessor")
		borrow = verifsym.And(borrow, id[i] == 0)
	}
	verifsym.Assert(verifsym.Or(borrow, pu.Compare(id) < 0), "PrevID is smaller")
	verifsym.Reach("done")
}

// every two 128-bit ids: no id lies strictly between an id and its NextID, or between PrevID and the id
//
//sym:harness prop=C19 budget=120s reach=adjacent
func HAdjacent() {
	a := ulid.ULID(verifsym.ULID("a"))
	b := ulid.ULID(verifsym.ULID("b"))
	verifsym.Assume(a.Compare(MaxULID) < 0)
	verifsym.Assume(b.Compare(a) > 0)
	n := NextID(a.String())
	verifsym.Assert(n <= b.String(), "NextID(a) <= every id greater than a, also as text")
	p := PrevID(b.String())
	verifsym.Assert(p >= a.String(), "PrevID(b) >= every id smaller than b, also as text")
	verifsym.Reach("adjacent")
}

// every two 128-bit ids through the real text encoder and decoder: decode(encode(x)) == x and the text order is the id
// order
//
//sym:harness prop=C19 budget=200s reach=done
func HTextForm() {
	a := ulid.ULID(verifsym.ULID("a"))
	b := ulid.ULID(verifsym.ULID("b"))
	ta, err := a.MarshalText()
	verifsym.Assert(err == nil, "an id has a text form")
	tb, _ := b.MarshalText()
	var u ulid.ULID
	verifsym.Assert(u.UnmarshalText(ta) == nil, "the text form of an id parses")
	verifsym.Assert(u == a, "the text form of an id parses back to the id")
	lt, done := false, false
	for i := range ta {
		lt = verifsym.Or(lt, verifsym.And(!done, ta[i] < tb[i]))
		done = verifsym.Or(done, ta[i] != tb[i])
	}
	verifsym.Assert(lt == (a.Compare(b) < 0), "the text order is the id order")
	s := a.String()
	for i := range ta {
		verifsym.Assert(s[i] == ta[i], "String is the text form")
	}
	verifsym.Reach("done")
}

// three ids made in a row, the id source being any strictly increasing one
//
//sym:harness prop=C19 budget=60s reach=made
func HNewIDs() {
	a, b := NewID(), NewID()
	c := New()
	verifsym.Assert(a < b && b < c.String(), "an id made earlier is smaller")
	verifsym.Assert(NextID(a) <= b, "NextID of an id is not beyond the id made next")
	verifsym.Reach("made")
}
