package model

import (
	"encoding/binary"
	"math/rand/v2"
	"sort"
)

// MOLayout describes where things are placed in a MO file.
type MOLayout struct {
	Big       bool
	Hash      bool
	Minor     int
	Unsorted  bool // originals not sorted
	TransDown bool // translation strings before originals
	Pad       int  // extra bytes between sections
	Order     int  // order of the sections
	Overlap   bool // share the terminator/equal strings
	TailCut   bool // no terminating NUL after the very last string
}

func RandMOLayout(r *rand.Rand) MOLayout {
	return MOLayout{Big: r.IntN(2) == 0, Hash: r.IntN(2) == 0, Minor: r.IntN(2), Unsorted: r.IntN(4) == 0, TransDown: r.IntN(4) == 0, Pad: []int{0, 0, 4, 3, 17}[r.IntN(5)], Overlap: r.IntN(4) == 0, Order: []int{0, 0, 0, 1, 2, 3, 4, 5}[r.IntN(8)]}
}

// MOPair is the raw original and translation string of a MO file.
type MOPair struct{ Orig, Trans string }

// Pairs returns the MO strings (obsolete and fuzzy entries are not part of MO files;
// plural forms must be contiguous from 0).
func (c *Catalog) Pairs() []MOPair {
	var ps []MOPair
	if c.HasHeader {
		ps = append(ps, MOPair{"", c.HeaderText()})
	}
	for _, e := range c.Entries {
		if e.Obsolete || e.Fuzzy() {
			continue
		}
		o := e.ID
		if e.Ctx != "" {
			o = e.Ctx + "\x04" + o
		}
		t := e.Str[0]
		if e.HasPlural {
			o += "\x00" + e.Plural
			for i := 1; i < len(e.Str); i++ {
				t += "\x00" + e.Str[i]
			}
		}
		ps = append(ps, MOPair{o, t})
	}
	return ps
}

func hashpjw(s string) uint32 {
	var h uint32
	for i := 0; i < len(s) && s[i] != 0; i++ {
		h = h<<4 + uint32(s[i])
		if g := h & 0xf0000000; g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

// MO writes a MO file for the pairs.
func MO(r *rand.Rand, ps []MOPair, l MOLayout) []byte {
	ps = append([]MOPair{}, ps...)
	if l.Unsorted {
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	} else {
		sort.Slice(ps, func(i, j int) bool { return ps[i].Orig < ps[j].Orig })
	}
	var bo binary.ByteOrder = binary.LittleEndian
	if l.Big {
		bo = binary.BigEndian
	}
	n := len(ps)
	hSize := 0
	if l.Hash {
		hSize = n*4/3 + 3
		for !prime(hSize) {
			hSize++
		}
	}

	// the strings
	var blob []byte
	type span struct{ len, pos int }
	placed := map[string]int{}
	put := func(s string) span {
		pos, ok := placed[s]
		if !ok || !l.Overlap {
			pos = len(blob)
			blob = append(blob, s...)
			blob = append(blob, 0)
			placed[s] = pos
		}
		return span{len(s), pos}
	}
	oSpan, tSpan := make([]span, n), make([]span, n)
	originals := func() {
		for i, p := range ps {
			oSpan[i] = put(p.Orig)
		}
	}
	translations := func() {
		for i, p := range ps {
			tSpan[i] = put(p.Trans)
		}
	}
	if l.TransDown {
		translations()
		originals()
	} else {
		originals()
		translations()
	}

	// the sections: originals, translations, hash table, strings
	size := []int{8 * n, 8 * n, 4 * hSize, len(blob)}
	pos := make([]int, 4)
	end := 28
	for i, sec := range [][]int{{0, 1, 2, 3}, {1, 0, 2, 3}, {3, 0, 1, 2}, {3, 2, 1, 0}, {0, 3, 1, 2}, {2, 1, 3, 0}}[l.Order%6] {
		if i < 3 {
			end += l.Pad
		}
		pos[sec] = end
		end += size[sec]
	}
	buf := make([]byte, end)
	for i := 28; i < len(buf); i++ {
		buf[i] = 0xEE
	}
	oTab, tTab, hTab, data := pos[0], pos[1], pos[2], pos[3]
	copy(buf[data:], blob)
	bo.PutUint32(buf[0:], 0x950412de)
	bo.PutUint32(buf[4:], uint32(l.Minor))
	bo.PutUint32(buf[8:], uint32(n))
	bo.PutUint32(buf[12:], uint32(oTab))
	bo.PutUint32(buf[16:], uint32(tTab))
	bo.PutUint32(buf[20:], uint32(hSize))
	bo.PutUint32(buf[24:], uint32(hTab))
	for i := range ps {
		bo.PutUint32(buf[oTab+8*i:], uint32(oSpan[i].len))
		bo.PutUint32(buf[oTab+8*i+4:], uint32(data+oSpan[i].pos))
		bo.PutUint32(buf[tTab+8*i:], uint32(tSpan[i].len))
		bo.PutUint32(buf[tTab+8*i+4:], uint32(data+tSpan[i].pos))
	}
	if l.Hash {
		for i, p := range ps {
			h := hashpjw(p.Orig)
			idx := h % uint32(hSize)
			incr := 1 + h%uint32(hSize-2)
			for bo.Uint32(buf[hTab+4*int(idx):]) != 0 && bo.Uint32(buf[hTab+4*int(idx):]) != 0xEEEEEEEE {
				idx = (idx + incr) % uint32(hSize)
			}
			bo.PutUint32(buf[hTab+4*int(idx):], uint32(i+1))
		}
		for i := 0; i < hSize; i++ {
			if bo.Uint32(buf[hTab+4*i:]) == 0xEEEEEEEE {
				bo.PutUint32(buf[hTab+4*i:], 0)
			}
		}
	}
	return buf
}

func prime(n int) bool {
	for d := 2; d*d <= n; d++ {
		if n%d == 0 {
			return false
		}
	}
	return n > 1
}
