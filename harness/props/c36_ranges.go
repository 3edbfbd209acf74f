package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type rangesCase struct {
	A    [2]int `json:"a"`
	B    [2]int `json:"b"`
	Far  bool   `json:"far,omitempty"` // in different files
	Src  []byte `json:"src"`
	Wild bool   `json:"wild,omitempty"` // the ranges need not be well formed
	Bare bool   `json:"bare,omitempty"` // only the byte offsets are given
}

func genRanges(t *rapid.T) rangesCase {
	c := rangesCase{Far: model.Chance(t, 8), Bare: model.Chance(t, 15)}
	c.Src = []byte(strings.Repeat("ab\ncé", 1+model.Int(t, 0, 3, "n"))[:model.Int(t, 0, 5, "cut")])
	lo, hi := 0, 12
	if model.Chance(t, 20) {
		c.Wild, lo, hi = true, -3, 20
	}
	draw := func() [2]int {
		a, b := model.Int(t, lo, hi, "a"), model.Int(t, lo, hi, "b")
		if !c.Wild && a > b {
			a, b = b, a
		}
		return [2]int{a, b}
	}
	c.A, c.B = draw(), draw()
	return c
}

// rangesText is what the positions of the ranges refer to.
const rangesText = "ab\ncd\nefg\nhijklmnopqrstu"

func rangesPos(b int) hcl.Pos {
	p := hcl.Pos{Line: 1, Column: 1, Byte: b}
	if b > 0 {
		p.Line, p.Column = model.Advance(1, 1, []byte(rangesText[:b]))
	}
	return p
}

func checkRanges(c rangesCase, r *engine.Rec) error {
	rangesPos := rangesPos
	if c.Bare {
		rangesPos = func(b int) hcl.Pos { return hcl.Pos{Byte: b} }
	}
	mk := func(x [2]int) hcl.Range {
		return hcl.Range{Filename: "t.hcl", Start: rangesPos(x[0]), End: rangesPos(x[1])}
	}
	a, b := mk(c.A), mk(c.B)
	if c.Far {
		b.Filename = "u.hcl"
	}
	r.Sample(fmt.Sprintf("%v %v", c.A, c.B))
	is := func(what string, got hcl.Range, lo, hi int) error {
		if got != (hcl.Range{Filename: "t.hcl", Start: rangesPos(lo), End: rangesPos(hi)}) {
			return errf("%s of %v and %v is %#v, expected %d-%d", what, c.A, c.B, got, lo, hi)
		}
		return nil
	}
	over, overlap := hcl.RangeOver(a, b), a.Overlap(b)
	before, mid, after := a.PartitionAround(b)
	overlaps := a.Overlaps(b)
	between := hcl.RangeBetween(a, b)
	_ = a.String()
	if *a.Ptr() != a {
		return errf("the pointer is to %#v, not %#v", *a.Ptr(), a)
	}
	cut := a.SliceBytes(c.Src)
	lo, hi := min(max(c.A[0], 0), len(c.Src)), min(max(c.A[1], 0), len(c.Src))
	can := lo == c.A[0] && hi == c.A[1] && lo <= hi
	if a.CanSliceBytes(c.Src) != can {
		return errf("range %v can slice %d bytes: should be %v", c.A, len(c.Src), can)
	}
	if !bytes.Equal(cut, c.Src[lo:max(lo, hi)]) {
		return errf("slicing %q to %v gives %q", c.Src, c.A, cut)
	}
	for off := -4; off < 22; off++ {
		want := off >= c.A[0] && off < c.A[1]
		if a.ContainsOffset(off) != want || a.ContainsPos(hcl.Pos{Line: 1, Column: 1, Byte: off}) != want {
			return errf("range %v contains %d: should be %v", c.A, off, want)
		}
	}
	if c.Wild {
		r.Label("not well formed")
		return nil
	}
	emptyA, emptyB := c.A[0] == c.A[1], c.B[0] == c.B[1]
	if a.Empty() != emptyA {
		return errf("range %v is empty: %v", c.A, a.Empty())
	}
	r.NonTrivialIf(!emptyA && !emptyB)
	// The characters the ranges share.
	ilo, ihi := max(c.A[0], c.B[0]), min(c.A[1], c.B[1])
	share := ilo < ihi && !c.Far
	if overlaps != share {
		return errf("ranges %v and %v (different files: %v) overlap: %v", c.A, c.B, c.Far, overlaps)
	}
	if overlaps != b.Overlaps(a) {
		return errf("overlapping of %v and %v is not symmetric", c.A, c.B)
	}
	if share {
		r.Label("overlap")
		for _, err := range []error{
			is("overlap", overlap, ilo, ihi),
			is("overlap", mid, ilo, ihi),
			is("part before", before, c.A[0], ilo),
			is("part after", after, ihi, c.A[1]),
		} {
			if err != nil {
				return err
			}
		}
	} else {
		for _, g := range []hcl.Range{overlap, before, mid, after} {
			if !g.Empty() || g.Filename != "t.hcl" || g.Start.Byte < c.A[0] || g.End.Byte > c.A[1] {
				return errf("%v and %v share nothing, but a part is %#v", c.A, c.B, g)
			}
		}
	}
	if c.Far {
		return nil
	}
	switch {
	case emptyA && emptyB:
		if !over.Empty() {
			return errf("the cover of the empty ranges %v and %v is %#v", c.A, c.B, over)
		}
	case emptyA:
		return is("cover", over, c.B[0], c.B[1])
	case emptyB:
		return is("cover", over, c.A[0], c.A[1])
	default:
		if err := is("cover", over, min(c.A[0], c.B[0]), max(c.A[1], c.B[1])); err != nil {
			return err
		}
	}
	if c.A[0] <= c.B[1] {
		return is("span", between, c.A[0], c.B[1])
	}
	return nil
}

type scanCase struct {
	Text  string `json:"text"`
	Split string `json:"split"`
	Start [3]int `json:"start"`
	Frag  bool   `json:"frag,omitempty"`
	Fail  int    `json:"fail,omitempty"`
	Stall bool   `json:"stall,omitempty"` // return nothing instead of an error
}

var scanPieces = []string{"a", "b", " ", "\t", "\n", "\r\n", "\r", "\u00e9", "e\u0301", "\u65e5", "\U0001f468\u200d\U0001f469\u200d\U0001f467", "\U0001f1e9\U0001f1ea", "xyz", "\n\n", ",", "\u0915\u093f"}

func genScan(t *rapid.T) scanCase {
	c := scanCase{Split: model.Pick(t, []string{"lines", "words", "clusters", "commas", "chunks", "copies"})}
	for i := model.Count(t, 0, 24); i > 0; i-- {
		c.Text += model.Pick(t, scanPieces)
	}
	if model.Chance(t, 60) {
		c.Frag = true
		c.Start = [3]int{model.Int(t, 1, 9, "line"), model.Int(t, 1, 9, "col"), model.Int(t, 0, 60, "byte")}
	}
	if model.Chance(t, 5) {
		c.Text += strings.Repeat("\u0301", model.Int(t, 1, 40, "marks")) + "a"
	}
	if model.Chance(t, 3) {
		// A very long character.
		c.Text = "a" + strings.Repeat("\u0301", 40000) + "\nb\n"
		c.Split = "lines"
	}
	if model.Chance(t, 10) {
		c.Fail = model.Int(t, 1, 4, "fail")
		c.Stall = model.Chance(t, 40)
	}
	return c
}

var errSplit = errors.New("split function failed")

// splitter is a split function together with the offset of each token.
func (c scanCase) splitter() bufio.SplitFunc {
	switch c.Split {
	case "lines":
		return bufio.ScanLines
	case "words":
		return bufio.ScanWords
	case "clusters":
		return textseg.ScanGraphemeClusters
	case "commas":
		// Leading and trailing bytes that do not belong to a token.
		return func(data []byte, atEOF bool) (int, []byte, error) {
			n := 0
			for n < len(data) && data[n] == ',' {
				n++
			}
			if n == len(data) {
				return n, nil, nil
			}
			end := bytes.IndexByte(data[n:], ',')
			if end < 0 {
				return len(data), data[n:], nil
			}
			return n + end + 1, data[n : n+end], nil
		}
	case "copies":
		// Tokens that are not slices of the buffer.
		return func(data []byte, atEOF bool) (int, []byte, error) {
			n, tok, err := bufio.ScanLines(data, atEOF)
			return n, append([]byte{}, tok...), err
		}
	default:
		// Two characters at a time.
		return func(data []byte, atEOF bool) (int, []byte, error) {
			n, _, _ := textseg.ScanGraphemeClusters(data, true)
			m, _, _ := textseg.ScanGraphemeClusters(data[n:], true)
			return n + m, data[:n+m], nil
		}
	}
}

func checkScan(c scanCase, r *engine.Rec) error {
	src := []byte(c.Text)
	keep := clone(src)
	base := startPos
	if c.Frag {
		base = hcl.Pos{Line: c.Start[0], Column: c.Start[1], Byte: c.Start[2]}
	}
	// The tokens with their offsets, and the positions of all offsets.
	split := c.splitter()
	type tok struct {
		lo, hi int
	}
	var want []tok
	fail := false
	for off := 0; off < len(src); {
		if c.Fail > 0 && len(want) == c.Fail {
			fail = true
			break
		}
		n, t, _ := split(src[off:], true)
		if t != nil {
			lo := off
			if len(t) > 0 {
				lo += bytes.Index(src[off:off+n], t)
			} else if c.Split == "words" || c.Split == "commas" {
				return errf("bad split function")
			}
			want = append(want, tok{lo, lo + len(t)})
		} else if n == 0 {
			break
		}
		off += n
	}
	bound := map[int]hcl.Pos{0: base}
	p := base
	for off := 0; off < len(src); {
		n, _, _ := textseg.ScanGraphemeClusters(src[off:], true)
		p.Line, p.Column = model.Advance(p.Line, p.Column, src[off:off+n])
		off += n
		p.Byte = base.Byte + off
		bound[off] = p
	}
	for _, t := range want {
		if _, ok := bound[t.lo]; !ok {
			return nil // inside a character
		}
		if _, ok := bound[t.hi]; !ok {
			return nil
		}
	}
	if len(c.Text) < 1000 {
		r.Sample(fmt.Sprintf("%s of %q", c.Split, c.Text))
	}
	r.Label("%s", c.Split)
	r.NonTrivialIf(len(want) >= 3)
	calls := 0
	cb := func(data []byte, atEOF bool) (int, []byte, error) {
		n, t, err := split(data, atEOF)
		if calls == c.Fail && c.Fail > 0 {
			if c.Stall {
				return 0, nil, nil
			}
			return 0, nil, errSplit
		}
		if t != nil {
			calls++
		}
		return n, t, err
	}
	var sc *hcl.RangeScanner
	if c.Frag {
		sc = hcl.NewRangeScannerFragment(src, "t.txt", base, cb)
	} else {
		sc = hcl.NewRangeScanner(src, "t.txt", cb)
	}
	for i, w := range want {
		if !sc.Scan() {
			return errf("scanning %s of %q stops after %d of %d tokens: %v", c.Split, c.Text, i, len(want), sc.Err())
		}
		if got := (hcl.Range{Filename: "t.txt", Start: bound[w.lo], End: bound[w.hi]}); sc.Range() != got {
			return errf("scanning %s of %q: the range of token %d %q is %#v, expected %#v", c.Split, c.Text, i, src[w.lo:w.hi], sc.Range(), got)
		}
		if !bytes.Equal(sc.Bytes(), src[w.lo:w.hi]) {
			return errf("scanning %s of %q: token %d is %q, expected %q", c.Split, c.Text, i, sc.Bytes(), src[w.lo:w.hi])
		}
	}
	if sc.Scan() {
		return errf("scanning %s of %q: there is another token %q after %d", c.Split, c.Text, sc.Bytes(), len(want))
	}
	if (sc.Err() != nil) != (fail && !c.Stall) {
		return errf("scanning %s of %q: error %v, expected %v", c.Split, c.Text, sc.Err(), fail)
	}
	if !sameBytes(keep, src) {
		return errf("scanning changed the buffer")
	}
	return nil
}

func init() {
	engine.Add("C36", "intervals", "two ranges that are not empty", 900000, genRanges, checkRanges)
	engine.Add("C36", "scanner", "at least three tokens", 300000, genScan, checkScan)
}
