// C31: monitor for statistics export: the exported file is parsed as the script
// in it would be, and its rows are matched one to one with the frames that went
// through the step.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

type row [8]float64

// parse reads the table in an exported file, and the text around it
func parse(c *kit.C, what, name string) (rows []row, rest string) {
	b, err := os.ReadFile(name)
	if err != nil {
		c.Fatal("%s: %v", what, err)
	}
	s := string(b)
	if n := strings.Count(s, "<html>"); n != 1 || !strings.HasSuffix(strings.TrimSpace(s), "</html>") || strings.Count(s, "</html>") != 1 || strings.Count(s, "</script>") != 2 {
		c.Fatal("%s: incomplete or garbled file of %d bytes, ends in %q", what, len(s), s[max(0, len(s)-60):])
	}
	loc := reTable.FindStringSubmatchIndex(s)
	if loc == nil {
		c.Fatal("%s: no table", what)
	}
	i := strings.Index(s[loc[3]:], ";")
	if i < 0 {
		c.Fatal("%s: table does not end", what)
	}
	table := s[loc[3] : loc[3]+i]
	rest = s[:loc[3]] + "TABLE" + s[loc[3]+i:]
	var t []json.RawMessage
	if err := json.Unmarshal([]byte(strings.Replace(table, "'", `"`, -1)), &t); err != nil {
		c.Fatal("%s: table is not well-formed: %v in ...%q", what, err, table[max(0, len(table)-200):])
	}
	if len(t) == 0 {
		c.Fatal("%s: table without header", what)
	}
	var head []string
	if err := json.Unmarshal(t[0], &head); err != nil || len(head) != 8 {
		c.Fatal("%s: header row %s", what, t[0])
	}
	for _, x := range t[1:] {
		var v []float64
		if err := json.Unmarshal(x, &v); err != nil || len(v) != 8 {
			c.Fatal("%s: row %s", what, x)
		}
		var r row
		copy(r[:], v)
		rows = append(rows, r)
	}
	return
}

var reTable = regexp.MustCompile(`dataArray\s*=(\s*)\[\s*\[\s*['"]`)

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// frame makes an image with stars, and the row it should give
func frame(r *rand.Rand, id, w, h int) (*fits.Image, row) {
	d := kit.Noise(r, w*h, 50+1000*r.Float64(), 0.1+30*r.Float64())
	if r.Intn(4) == 0 {
		for i := range d { // normalised
			d[i] /= 65535
		}
	}
	if r.Intn(6) == 0 {
		d[r.Intn(len(d))] = -1e6 * r.Float32()
	}
	f := kit.Img(id, w, h, d)
	f.Stars = make([]star.Star, r.Intn(3000)*r.Intn(2))
	if r.Intn(2) == 0 { // around the limit of a filter
		f.Stars = f.Stars[:0]
		for j := r.Intn(5); j > 0; j-- {
			f.Stars = append(f.Stars, star.Star{})
		}
	}
	f.HFR = 10 * r.Float32()
	if r.Intn(5) == 0 {
		f.Stars, f.HFR = nil, 0
	}
	min, mean, max, sd := kit.MMM(d)
	return f, row{float64(id), float64(min), float64(mean), float64(max), float64(mean), sd, float64(len(f.Stars)), float64(f.HFR)}
}

func near(a, b row) bool {
	for i := range a {
		if !kit.Near(float32(a[i]), float32(b[i]), 2e-5, 2e-5) {
			return false
		}
	}
	return true
}

// match checks that the rows are those expected, in any order
func match(c *kit.C, what string, got, want []row) {
	used := make([]bool, len(got))
	for _, w := range want {
		ok := false
		for j, g := range got {
			if !used[j] && g[0] == w[0] && near(g, w) {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			var same []row
			for _, g := range got {
				if g[0] == w[0] {
					same = append(same, g)
				}
			}
			c.Fatal("%s: no row for frame %v among %d rows for %d frames; rows with its id: %v", what, w, len(got), len(want), same)
		}
	}
	if len(got) != len(want) {
		c.Fatal("%s: %d rows for %d frames", what, len(got), len(want))
	}
	c.Count("rows matched", len(got))
}

func main() {
	kit.Main("C31", "one evaluation = one run of a pipeline exporting statistics; distinct = frames x rows x threads x way of running", func(k *kit.K) {
		kit.ExactStats()
		var rest string
		k.Case("one", func(c *kit.C) {
			name := filepath.Join(filepath.Base(c.Dir()), "one.html")
			f, w := frame(c.Rng, 3, 8, 8)
			ctx, _ := kit.Context()
			if _, err := kit.Run1(ref.NewOpExportStats(name), f, ctx); err != nil {
				c.Fatal("%v", err)
			}
			var rows []row
			rows, rest = parse(c, "one", name)
			match(c, "one", rows, []row{w})
		})
		for i := 0; i < k.N(60, 1500); i++ {
			k.Case(fmt.Sprintf("export/%d", i), func(c *kit.C) { export(c, rest) })
			if i%3 == 0 {
				k.Case(fmt.Sprintf("batches/%d", i), func(c *kit.C) { batches(c, rest) })
				k.Case(fmt.Sprintf("errors/%d", i), func(c *kit.C) { failing(c) })
			}
		}
	})
}

// ids in any order, sometimes large
func ids(r *rand.Rand, n int) []int {
	p := r.Perm(n)
	switch r.Intn(3) {
	case 0:
		for i := range p {
			p[i] = i
		}
	case 1:
		for i := range p {
			p[i] = p[i]*1000 + r.Intn(1000)
		}
	}
	return p
}

func newOp(c *kit.C, name string) *ref.OpExportStats {
	if c.Rng.Intn(2) == 0 {
		return ref.NewOpExportStats(name)
	}
	var s ops.OpSequence
	b, _ := json.Marshal(name)
	if err := json.Unmarshal([]byte(`{"type":"seq","steps":[{"type":"exportStats","fileName":`+string(b)+`}]}`), &s); err != nil {
		c.Fatal("job: %v", err)
	}
	return s.Steps[0].(*ref.OpExportStats)
}

// a step which changes the frame after its statistics were exported
type changer struct{ ops.OpBase }

func (changer) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.Promise, err error) {
	for _, in := range ins {
		in := in
		outs = append(outs, func() (*fits.Image, error) {
			f, err := in()
			if f != nil {
				for i := range f.Data {
					f.Data[i] = 7
				}
				f.Stats.Clear()
				f.Stars, f.HFR = nil, -3
			}
			return f, err
		})
	}
	return
}

func export(c *kit.C, rest string) {
	r := c.Rng
	name := filepath.Join(filepath.Base(c.Dir()), []string{"stats.html", "out", "a b.htm"}[r.Intn(3)])
	if r.Intn(2) == 0 { // left by another run
		os.WriteFile(name, []byte(strings.Repeat("<html>\n  ,[1,2,3,4,5,6,7,8]\n];</html>", 10+r.Intn(3000))), 0644)
	}
	op := newOp(c, name)
	op2name := name + "2"
	two := r.Intn(3) == 0
	op2 := newOp(c, op2name)
	for run := 0; run < 1+r.Intn(3); run++ {
		ctx, _ := kit.Context()
		ctx.MaxThreads = []int{1, 2, 4, 8, 16}[r.Intn(5)]
		var want, want2 []row
		min := r.Intn(2) * r.Intn(1500)
		if r.Intn(3) == 0 {
			min = 1 + r.Intn(4)
		}
		n := []int{1, 1 + r.Intn(4), 1 + r.Intn(40), 100 + r.Intn(200)}[r.Intn(4)]
		var wantIDs []int
		for calls := 0; calls < 1+r.Intn(3); calls++ { // batches of the same run
			var ins []ops.Promise
			for j, id := range ids(r, n) {
				f, w := frame(r, id+calls*1000000, 3+r.Intn(5), 3+r.Intn(5))
				delay := time.Duration(0)
				if r.Intn(6) == 0 && n < 100 {
					delay = time.Duration(r.Intn(1000)) * time.Microsecond
				}
				kind := r.Intn(7)
				ins = append(ins, func() (*fits.Image, error) {
					if delay > 0 {
						time.Sleep(delay)
					}
					if kind == 0 {
						return nil, nil
					}
					if kind == 1 && run == 1 {
						return nil, errors.New("broken frame")
					}
					return f, nil
				})
				if kind == 0 || kind == 1 && run == 1 || min > 0 && len(f.Stars) < min {
					continue
				}
				want = append(want, w)
				wantIDs = append(wantIDs, f.ID)
				if two {
					want2 = append(want2, w)
				}
				_ = j
			}
			seq := ops.NewOpSequence(ref.NewOpFilter(min), op)
			if two {
				seq = ops.NewOpSequence(ref.NewOpFilter(min), op, op2)
			}
			seq.Append(&changer{})
			outs, err := seq.MakePromises(ins, ctx)
			if err != nil {
				c.Fatal("%v", err)
			}
			got := map[int]bool{}
			if r.Intn(2) == 0 {
				fs, _ := ops.MaterializeAll(outs, ctx.MaxThreads, false)
				for _, f := range fs {
					got[f.ID] = true
				}
			} else {
				var mu sync.Mutex
				var wg sync.WaitGroup
				for _, o := range outs {
					wg.Add(1)
					go func(o ops.Promise) {
						defer wg.Done()
						f, _ := o()
						mu.Lock()
						if f != nil {
							got[f.ID] = true
						}
						mu.Unlock()
					}(o)
				}
				wg.Wait()
			}
			for _, id := range wantIDs {
				if id/1000000 == calls && !got[id] {
					c.Fatal("frame %d was not passed on", id)
				}
			}
		}
		what := fmt.Sprintf("run %d, %d frames per call, %d threads, at least %d stars", run, n, ctx.MaxThreads, min)
		check := func(name string, want []row) {
			if len(want) == 0 {
				return // no file is needed
			}
			rows, rst := parse(c, what, name)
			match(c, what, rows, want)
			if rst != rest && rest != "" {
				c.Fatal("%s: text around the table of %d rows differs from that with one row", what, len(rows))
			}
		}
		check(name, want)
		if two {
			check(op2name, want2)
		}
		c.Seen(run, n, ctx.MaxThreads, len(want), two)
		c.Sample("%s: %d rows", what, len(want))
	}
}

func batches(c *kit.C, rest string) {
	r := c.Rng
	name := filepath.Join(filepath.Base(c.Dir()), "batches.html")
	old := runtime.GOMAXPROCS(1 + r.Intn(4))
	defer runtime.GOMAXPROCS(old)
	n := 2 + r.Intn(30)
	var want []row
	var ins []ops.Promise
	for _, id := range ids(r, n) {
		f, w := frame(r, id, 256, 64+r.Intn(2)*0)
		skip := r.Intn(12) == 0 && len(want) > 2
		d := kit.Copy32(f.Data)
		st, hfr := f.Stars, f.HFR
		ins = append(ins, func() (*fits.Image, error) {
			if skip {
				return nil, nil
			}
			g := kit.Img(f.ID, 256, 64, kit.Copy32(d))
			g.Stars, g.HFR = st, hfr
			return g, nil
		})
		if !skip {
			want = append(want, w)
		}
	}
	ctx, _ := kit.Context()
	ctx.StackMemoryMB = 1
	batchOp := stack.NewOpStackBatches(ops.NewOpSequence(newOp(c, name), stack.NewOpStack(stack.StMean, stack.StWeightNone, 3, 3)))
	outs, err := batchOp.MakePromises(ins, ctx)
	if err == nil && len(outs) == 1 {
		_, err = outs[0]()
	}
	if err != nil {
		c.Count("batched runs failing", 1) // e.g. a batch of skipped frames
		return
	}
	what := fmt.Sprintf("batched stacking of %d frames", n)
	rows, rst := parse(c, what, name)
	match(c, what, rows, want)
	if rst != rest && rest != "" {
		c.Fatal("%s: text around the table of %d rows differs from that with one row", what, len(rows))
	}
	c.Seen("batches", n, len(rows))
	c.Count("batched runs", 1)
}

// no file name, or one that cannot be written
func failing(c *kit.C) {
	r := c.Rng
	dir := filepath.Base(c.Dir())
	os.Mkdir(filepath.Join(dir, "d"), 0755)
	for _, name := range []string{"", filepath.Join(dir, "missing", "x.html"), filepath.Join(dir, "d")} {
		op := newOp(c, name)
		ctx, _ := kit.Context()
		for j := 0; j < 1+r.Intn(3); j++ {
			f, _ := frame(r, j, 5, 5)
			g, err := kit.Run1(op, f, ctx)
			if name == "" && (err != nil || g != f) {
				c.Fatal("without a file name: frame %v, error %v", g != nil, err)
			}
			if name != "" && err == nil {
				c.Fatal("file which cannot be created: no error for frame %d", j)
			}
		}
		c.Seen("errors", name != "")
	}
}
