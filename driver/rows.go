package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/roaring"
	"github.com/gernest/roaring/shardwidth"
)

// rows scenario: runs programs of RowsGen.tla on real rows. Each abstract point stands
// for a group of columns, so that the same programs meet every kind of container and
// any number of shards.

const (
	shardW  = uint64(shardwidth.ShardWidth)
	rowRegs = 4
	bsiRegs = 3
)

type rowOp struct {
	O   string `json:"o"`
	D   int    `json:"d"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	As  []int  `json:"as"`
	S   []int  `json:"s"`
	X   int    `json:"x"`
	N   int64  `json:"n"`
	I   int    `json:"i"`
	Lim int    `json:"lim"`
	Off int    `json:"off"`
	Vs  []struct {
		P int      `json:"p"`
		V [3]int64 `json:"v"`
	} `json:"vs"`
}

type rowWorld struct {
	groups [][]uint64     // point-1 -> columns, ascending
	of     map[uint64]int // column -> point
	probes []uint64       // columns in no group
	all    []uint64       // all columns of all groups, ascending
	point  []int          // their points
	lone   []int
}

func newRowWorld(r *rng, points int) *rowWorld {
	shards := []uint64{0, 1, 2, 3, 7, 15, 16, 1 << 12, 1<<12 + 1, 1 << 33, 1 << 40}
	r.Shuffle(len(shards), func(i, j int) { shards[i], shards[j] = shards[j], shards[i] })
	shards = shards[:1+r.Intn(4)]
	taken := map[uint64]bool{}
	var groups [][]uint64
	try := func(g []uint64) {
		for _, c := range g {
			if taken[c] {
				return
			}
		}
		for _, c := range g {
			taken[c] = true
		}
		sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
		groups = append(groups, g)
	}
	span := func(from, n, step uint64) (g []uint64) {
		for i := uint64(0); i < n; i++ {
			g = append(g, from+i*step)
		}
		return
	}
	kinds := 20
	if r.chance(45) {
		// single columns only
		kinds = 9
	}
	for len(groups) < points {
		base := pick(r, shards) * shardW
		cont := base + uint64(r.Intn(16))<<16
		switch k := kinds - 1 - r.Intn(kinds); {
		case k < 3:
			try([]uint64{base + uint64(r.Intn(int(shardW)))})
		case k < 4:
			try([]uint64{base})
		case k < 5:
			try([]uint64{base + shardW - 1})
		case k < 6:
			try([]uint64{cont + 65535})
		case k < 7:
			try([]uint64{cont})
		case k < 9:
			try([]uint64{cont + uint64(r.Intn(65536))})
		case k < 11: // a run inside of a container
			try(span(cont+uint64(r.Intn(60000)), uint64(2+r.Intn(3000)), 1))
		case k < 12: // a run over a container boundary
			if off := uint64(r.Intn(15)); true {
				try(span(base+off<<16+65000, uint64(600+r.Intn(4000)), 1))
			}
		case k < 13: // to the end of the shard
			try(span(base+shardW-300, 300, 1))
		case k < 14: // around the largest array
			try(span(cont+uint64(r.Intn(100)), uint64(4094+r.Intn(4)), uint64(1+r.Intn(14))))
		case k < 16: // three combs that together fill a container
			for i := uint64(0); i < 3; i++ {
				try(span(cont+i, (65536-i+2)/3, 3))
			}
		case k < 17: // a full container
			try(span(cont, 65536, 1))
		case k < 19: // columns in several shards
			var g []uint64
			if r.chance(40) {
				// in a lot of them
				first := pick(r, shards)
				for n := uint64(5 + r.Intn(60)); n > 0; n-- {
					g = append(g, (first+n)*shardW+uint64(r.Intn(int(shardW))))
				}
				try(g)
				continue
			}
			for _, s := range shards {
				g = append(g, s*shardW+uint64(r.Intn(int(shardW))))
			}
			try(g)
		default: // sparse
			try(span(base+uint64(r.Intn(1000)), uint64(100+r.Intn(900)), 997))
		}
	}
	groups = groups[:points]
	sort.Slice(groups, func(i, j int) bool { return groups[i][0] < groups[j][0] })
	w := &rowWorld{groups: groups, of: map[uint64]int{}}
	for i, g := range groups {
		for _, c := range g {
			w.of[c] = i + 1
		}
		if len(g) == 1 {
			w.lone = append(w.lone, i+1)
		}
	}
	for c := range w.of {
		w.all = append(w.all, c)
	}
	sort.Slice(w.all, func(i, j int) bool { return w.all[i] < w.all[j] })
	for _, c := range w.all {
		w.point = append(w.point, w.of[c])
	}
	for _, g := range groups {
		for _, c := range []uint64{g[0] - 1, g[len(g)-1] + 1, g[0] + shardW, g[0] ^ 1<<16, g[0] ^ 1<<32} {
			if w.of[c] == 0 {
				w.probes = append(w.probes, c)
			}
		}
	}
	return w
}

func (w *rowWorld) cols(r *rng, points []int, shuffle bool) (cols []uint64) {
	for _, p := range points {
		cols = append(cols, w.groups[p-1]...)
	}
	if shuffle {
		r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	} else {
		sort.Slice(cols, func(i, j int) bool { return cols[i] < cols[j] })
	}
	return
}

func (w *rowWorld) dump(row *rows.Row) (o obj) {
	o = obj{"pts": []int{}, "partial": 0, "stray": 0, "asc": true, "count": uint64(0), "empty": false, "any": false, "inc": []int{}, "probe": 0, "same": true, "err": ""}
	if err := guard(func() error {
		cols := row.Columns()
		n := make([]int, len(w.groups)+1)
		stray, asc := 0, true
		at := 0
		for i, c := range cols {
			for at < len(w.all) && w.all[at] < c {
				at++
			}
			p := 0
			if at < len(w.all) && w.all[at] == c {
				p = w.point[at]
			} else {
				p = w.of[c]
			}
			n[p]++
			if p == 0 {
				stray++
			}
			if i > 0 && cols[i-1] >= c {
				asc = false
			}
		}
		pts, inc := []int{}, []int{}
		partial := 0
		for p, g := range w.groups {
			if n[p+1] == len(g) {
				pts = append(pts, p+1)
			} else if n[p+1] > 0 {
				partial++
			}
			all, any := true, false
			for _, c := range []uint64{g[0], g[len(g)/2], g[len(g)-1]} {
				if row.Includes(c) {
					any = true
				} else {
					all = false
				}
			}
			if any && !all {
				partial++
			}
			if all {
				inc = append(inc, p+1)
			}
		}
		probe := 0
		for _, c := range w.probes {
			if row.Includes(c) {
				probe++
			}
		}
		same := true
		sc := row.ShardColumns()
		if len(sc) != len(cols) {
			same = false
		} else {
			for i := range sc {
				same = same && uint64(sc[i]) == cols[i]%shardW
			}
		}
		if len(cols) < 3000 {
			b, err := json.Marshal(row)
			if err != nil {
				return err
			}
			var js struct{ Columns []uint64 }
			if err := json.Unmarshal(b, &js); err != nil {
				return err
			}
			t, err := row.ToTable()
			if err != nil {
				return err
			}
			same = same && len(js.Columns) == len(cols) && len(t.Rows) == len(cols)
			for i := 0; same && i < len(cols); i++ {
				same = js.Columns[i] == cols[i] && len(t.Rows[i]) == 1 && uint64(t.Rows[i][0].Int()) == cols[i]
			}
		}
		o["pts"], o["inc"], o["partial"], o["stray"], o["asc"], o["probe"], o["same"] = pts, inc, partial, stray, asc, probe, same
		o["count"], o["empty"], o["any"] = row.Count(), row.IsEmpty(), row.Any()
		return nil
	}); err != nil {
		o["err"] = err.Error()
	}
	return
}

func limbs(v uint64) []int64 {
	return []int64{int64(v >> 42), int64(v >> 21 & (1<<21 - 1)), int64(v & (1<<21 - 1))}
}

func (w *rowWorld) dumpBsi(b rows.BSIData) (o obj) {
	o = obj{"vs": []obj{}, "stray": 0, "mixed": 0, "err": ""}
	if err := guard(func() error {
		vals := map[uint64]uint64{}
		known := make([]uint64, len(w.all))
		for i, r := range b {
			at := 0
			cols := r.Columns()
			if r.Count() != uint64(len(cols)) {
				return fmt.Errorf("lane counts %d columns and lists %d", r.Count(), len(cols))
			}
			for _, c := range cols {
				for at < len(w.all) && w.all[at] < c {
					at++
				}
				if at < len(w.all) && w.all[at] == c {
					known[at] |= 1 << i
				} else {
					vals[c] |= 1 << i
				}
			}
		}
		vs := []obj{}
		mixed := 0
		first := make([]uint64, len(w.groups))
		seen := make([]bool, len(w.groups))
		for i, v := range known {
			p := w.point[i] - 1
			if !seen[p] {
				first[p], seen[p] = v, true
			} else if first[p] != v {
				mixed++
			}
		}
		for p, v := range first {
			if v != 0 {
				vs = append(vs, obj{"p": p + 1, "v": limbs(v)})
			}
		}
		o["vs"], o["mixed"], o["stray"] = vs, mixed, len(vals)
		return nil
	}); err != nil {
		o["err"] = err.Error()
	}
	return
}

// ranges lists the maximal runs of ascending columns as <<hi, lo, length>>
func ranges(cols []uint64) (out [][]int64) {
	out = [][]int64{}
	for i := 0; i < len(cols); {
		j := i + 1
		for j < len(cols) && cols[j] == cols[j-1]+1 {
			j++
		}
		out = append(out, []int64{int64(cols[i] >> 20), int64(cols[i] & (1<<20 - 1)), int64(j - i)})
		i = j
	}
	return
}

func rowsMain(args []string) {
	fs := flag.NewFlagSet("rows", flag.ExitOnError)
	out := fs.String("out", "", "")
	fs.String("dir", "", "")
	ops := fs.String("ops", "", "json list of programs")
	seed := fs.Int64("seed", 1, "")
	points := fs.Int("points", 12, "")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]json.RawMessage
	check(json.Unmarshal(b, &hs))
	e := newEmitter(*out)
	defer e.Close()
	for i, h := range hs {
		r := newRng(*seed*1000 + int64(i))
		w := newRowWorld(r, *points)
		weights := []int{}
		for _, g := range w.groups {
			weights = append(weights, len(g))
		}
		lone := append([]int{}, w.lone...)
		e.Emit(obj{"ev": "new", "rows": rowRegs, "bsis": bsiRegs, "w": weights, "lone": lone})
		runRows(e, r, w, h)
	}
}

func runRows(e *Emitter, r *rng, w *rowWorld, h []json.RawMessage) {
	reg := make([]*rows.Row, rowRegs)
	for i := range reg {
		reg[i] = rows.NewRow()
	}
	bsi := make([]rows.BSIData, bsiRegs)
	var builder rows.RowBuilder
	var bb rows.BsiBuilder
	for _, raw := range h {
		var o rowOp
		check(json.Unmarshal(raw, &o))
		res := obj{"-": 0}
		err := guard(func() error {
			switch o.O {
			case "new":
				reg[o.D-1] = rows.NewRow(w.cols(r, o.S, r.chance(50))...)
			case "bitmap":
				reg[o.D-1] = rows.NewRowFromBitmap(roaring.NewBitmap(w.cols(r, o.S, true)...))
			case "build":
				for _, c := range w.cols(r, o.S, false) {
					builder.Add(c)
				}
				reg[o.D-1] = builder.Build()
			case "set":
				n := 0
				for _, c := range w.cols(r, []int{o.X}, r.chance(50)) {
					if reg[o.D-1].SetBit(c) {
						n++
					}
				}
				res["changed"] = n
			case "clear":
				n := 0
				row := reg[o.D-1]
				for _, c := range w.groups[o.X-1] {
					for i := range row.Segments {
						if row.Segments[i].Shard() == c/shardW && row.Segments[i].ClearBit(c) {
							n++
						}
					}
				}
				res["changed"] = n
			case "union", "diff":
				var as []*rows.Row
				for _, a := range o.As {
					as = append(as, reg[a-1])
				}
				if o.O == "union" {
					reg[o.D-1] = reg[o.A-1].Union(as...)
				} else {
					reg[o.D-1] = reg[o.A-1].Difference(as...)
				}
			case "inter":
				reg[o.D-1] = reg[o.A-1].Intersect(reg[o.B-1])
			case "xor":
				reg[o.D-1] = reg[o.A-1].Xor(reg[o.B-1])
			case "merge":
				reg[o.D-1].Merge(reg[o.A-1])
			case "freeze":
				reg[o.D-1].Freeze()
			case "meet":
				n := uint64(0)
				x, y := reg[o.A-1], reg[o.B-1]
				for i := range x.Segments {
					for j := range y.Segments {
						if x.Segments[i].Shard() == y.Segments[j].Shard() {
							n += x.Segments[i].IntersectionCount(&y.Segments[j])
						}
					}
				}
				res["count"] = n
			case "clone":
				reg[o.D-1] = reg[o.A-1].Clone()
			case "roaring":
				reg[o.D-1] = rows.NewRowFromRoaring(reg[o.A-1].Roaring())
			case "shift":
				// runs that stay in their shard
				var pts []int
				for p, g := range w.groups {
					ok := len(ranges(g)) < 50 && reg[o.A-1].Includes(g[0])
					for _, c := range g {
						ok = ok && (c+uint64(o.N))/shardW == c/shardW
					}
					if ok {
						pts = append(pts, p+1)
					}
				}
				x := rows.NewRow(w.cols(r, pts, true)...)
				res["in"] = ranges(x.Columns())
				y, err := x.Shift(o.N)
				if err != nil {
					return err
				}
				res["out"] = ranges(y.Columns())
				y.SetBit(w.probes[0])
				res["after"] = ranges(x.Columns())
				if y.Count() != uint64(len(y.Columns())) {
					return fmt.Errorf("shifted row counts %d columns and lists %d", y.Count(), len(y.Columns()))
				}
				if !shiftable(res["in"].([][]int64), o.N) {
					res["in"], res["out"], res["after"] = [][]int64{}, [][]int64{}, [][]int64{}
				}
			case "binsert":
				var val = map[uint64]uint64{}
				var pts []int
				for _, v := range o.Vs {
					pts = append(pts, v.P)
					for _, c := range w.groups[v.P-1] {
						val[c] = uint64(v.V[0])<<42 | uint64(v.V[1])<<21 | uint64(v.V[2])
					}
				}
				for _, c := range w.cols(r, pts, false) {
					bb.Insert(c, val[c])
				}
				bsi[o.D-1] = bb.Build()
			case "badd":
				bsi[o.D-1] = rows.AddBSI(bsi[o.A-1], bsi[o.B-1])
			case "bpoke":
				for len(bsi[o.D-1]) <= o.I {
					bsi[o.D-1] = append(bsi[o.D-1], rows.NewRow())
				}
				for _, c := range w.groups[o.X-1] {
					bsi[o.D-1][o.I].SetBit(c)
				}
			case "pivot":
				f := []int{}
				for _, p := range o.S {
					if len(w.groups[p-1]) == 1 {
						f = append(f, p)
					}
				}
				var lim, off *uint64
				if o.Lim >= 0 {
					v := uint64(o.Lim)
					lim = &v
				}
				if o.Off >= 0 {
					v := uint64(o.Off)
					off = &v
				}
				got := []obj{}
				bsi[o.A-1].PivotDescending(rows.NewRow(w.cols(r, f, true)...), 0, lim, off, func(v uint64, cols ...uint64) {
					for _, c := range cols {
						got = append(got, obj{"p": w.of[c], "v": limbs(v)})
					}
				})
				res["f"], res["out"] = f, got
			default:
				check(fmt.Errorf("unknown operation %s", o.O))
			}
			return nil
		})
		ev := obj{"ev": "op", "o": raw, "res": res, "err": errString(err)}
		var ds, bs []obj
		for _, x := range reg {
			ds = append(ds, w.dump(x))
		}
		for _, x := range bsi {
			bs = append(bs, w.dumpBsi(x))
		}
		ev["rows"], ev["vals"] = ds, bs
		e.Emit(ev)
	}
}

// shiftable tells if the runs can be compared one by one: none leaves its shard and none
// spans two numbers of <<hi, lo>>
func shiftable(rs [][]int64, n int64) bool {
	for _, r := range rs {
		if r[1]+r[2]+n > 1<<20 {
			return false
		}
	}
	return true
}
