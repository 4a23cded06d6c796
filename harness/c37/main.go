// C37: monitor for leaving out frames: which frames come out of the filter step
// is compared with their star counts, and complete runs in which poor frames are
// left out are compared, pixel by pixel and row by row, with runs that never
// saw them.
package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func detect() *pre.OpStarDetect { return pre.NewOpStarDetect(8, 1.5, 0, 1.4, "") }

func main() {
	kit.Main("C37", "one evaluation = one set of frames through the filter, or a run with poor frames and its twin without; distinct = threshold x which frames are left out x steps", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(200, 4000); i++ {
			k.Case(fmt.Sprintf("filter/%d", i), func(c *kit.C) { filter(c) })
			if i%5 == 0 {
				k.Case(fmt.Sprintf("twin/%d", i), func(c *kit.C) { twin(c, i/5) })
			}
		}
	})
}

// frames with known star counts through the filter
func filter(c *kit.C) {
	r := c.Rng
	n := 1 + r.Intn(20)
	type in struct {
		f    *fits.Image
		skip bool
		data []float32
		sts  []star.Star
		meta kit.Meta
	}
	var ins []in
	var counts []int
	for i := 0; i < n; i++ {
		x := in{skip: r.Intn(7) == 0, data: kit.Noise(r, 20, 100, 5)}
		x.f = kit.Img(10+3*i, 5, 4, kit.Copy32(x.data))
		ns := []int{0, 1, 2, 3 + r.Intn(5), 30 + r.Intn(300)}[r.Intn(5)]
		for s := 0; s < ns; s++ {
			x.f.Stars = append(x.f.Stars, star.Star{X: r.Float32(), Y: r.Float32(), Mass: r.Float32()})
		}
		if ns == 0 && r.Intn(2) == 0 {
			x.f.Stars = []star.Star{}
		}
		x.f.HFR, x.f.FileName, x.f.Exposure = r.Float32(), fmt.Sprint("f", i), r.Float32()
		if ns < 3 && r.Intn(2) == 0 {
			x.f.HFR = 0
		}
		x.sts, x.meta = append([]star.Star{}, x.f.Stars...), kit.MetaOf(x.f)
		counts = append(counts, ns)
		ins = append(ins, x)
	}
	min := counts[r.Intn(n)] + r.Intn(3) - 1
	if r.Intn(10) == 0 {
		min = []int{-5, 0, 1 << 20}[r.Intn(3)]
	}
	op := ref.NewOpFilter(min)
	ctx, _ := kit.Context()
	ctx.MaxThreads = 1 + r.Intn(8)
	var ps []ops.Promise
	for i := range ins {
		x := ins[i]
		ps = append(ps, func() (*fits.Image, error) {
			if x.skip {
				return nil, nil
			}
			return x.f, nil
		})
	}
	outs, err := op.MakePromises(ps, ctx)
	if err != nil || len(outs) != n {
		c.Fatal("%d promises for %d frames: %v", len(outs), n, err)
	}
	res, errs := make([]*fits.Image, n), make([]error, n)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func(i int) { defer wg.Done(); res[i], errs[i] = outs[i]() }(i)
	}
	wg.Wait()
	pat := ""
	for i, x := range ins {
		stays := !x.skip && (min <= 0 || counts[i] >= min)
		if errs[i] != nil {
			c.Fatal("threshold %d, frame with %d stars: %v", min, counts[i], errs[i])
		}
		if stays && res[i] != x.f {
			c.Fatal("threshold %d: frame with %d stars is not passed on", min, counts[i])
		}
		if !stays && res[i] != nil {
			c.Fatal("threshold %d: frame with %d stars (left out before: %v) is passed on", min, counts[i], x.skip)
		}
		if stays {
			pat += "x"
			kit.CheckMeta(c, x.f, x.meta, "filter")
			if fmt.Sprint(x.f.Stars) != fmt.Sprint(x.sts) {
				c.Fatal("threshold %d: stars of a frame with %d stars changed", min, counts[i])
			}
			for j, v := range x.data {
				if x.f.Data[j] != v {
					c.Fatal("threshold %d: pixel %d changed", min, j)
				}
			}
		} else {
			pat += "-"
		}
	}
	// all at once: the ones which stay, in order
	all, err := ops.MaterializeAll(outs, ctx.MaxThreads, false)
	if err != nil || len(all) != strings.Count(pat, "x") {
		c.Fatal("threshold %d: %d frames of %s come out: %v", min, len(all), pat, err)
	}
	for i, j := 0, 0; i < n; i++ {
		if pat[i] == 'x' {
			if all[j] != ins[i].f {
				c.Fatal("threshold %d, %s: frame %d comes out in position %d", min, pat, all[j].ID, j)
			}
			j++
		}
	}
	c.Seen(min, pat)
	c.Count("frames filtered", n)
}

// steps of a run
type plan struct {
	min                 int
	alignRef, histoRef  string
	hist                post.HistoNormMode
	mode                stack.StackMode
	weight              stack.StackWeighting
	lo, hi, thr         float32
	batched, late, noAl bool
}

type result struct {
	f    *fits.Image
	err  error
	rows []string
	ctx  *ops.Context
}

var rowID = regexp.MustCompile(`^\s*,\[\d+,`)

func (p plan) run(files []string, out string, threads int) (x result) {
	os.MkdirAll(out, 0755)
	html := out + "/s.html"
	steps := []ops.Operator{detect()}
	if !p.late {
		steps = append(steps, ref.NewOpFilter(p.min))
	}
	steps = append(steps, ref.NewOpExportStats(html),
		ref.NewOpSelectReference(ref.SRHisto, p.histoRef, detect()),
		ref.NewOpSelectReference(ref.SRAlign, p.alignRef, detect()))
	if p.late {
		steps = append(steps, ref.NewOpFilter(p.min))
	}
	steps = append(steps, post.NewOpMatchHistogram(p.hist))
	if !p.noAl {
		steps = append(steps, post.NewOpAlign(20, p.thr, post.OOBModeNaN))
	}
	steps = append(steps, stack.NewOpStack(p.mode, p.weight, p.lo, p.hi))
	var st ops.Operator = ops.NewOpSequence(steps...)
	if p.batched {
		st = stack.NewOpStackBatches(ops.NewOpSequence(steps...))
	}
	ctx, _ := kit.Context()
	ctx.MaxThreads = threads
	x.ctx = ctx
	ps, err := ops.NewOpSequence(ops.NewOpLoadMany(files), st).MakePromises(nil, ctx)
	if err != nil {
		x.err = err
		return
	}
	var fs []*fits.Image
	fs, x.err = ops.MaterializeAll(ps, threads, false)
	if len(fs) == 1 {
		x.f = fs[0]
	}
	if b, err := ioutil.ReadFile(html); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if rowID.MatchString(l) {
				x.rows = append(x.rows, rowID.ReplaceAllString(l, "[#,"))
			}
		}
		sort.Strings(x.rows)
	}
	return
}

// a run over good and poor frames, and one over the good frames only
func twin(c *kit.C, no int) {
	r := c.Rng
	dir := filepath.Base(c.Dir())
	defer c.K.CleanDir(dir)
	w, h := 100+r.Intn(50), 100+r.Intn(50)
	field := kit.StarField(r, w, h, 18+r.Intn(12), 16, 12)
	alien := kit.StarField(r, w, h, 18+r.Intn(12), 16, 12)
	for _, f := range [][]kit.Star{field, alien} {
		for i := range f {
			f[i].Flux, f[i].Sigma = 60000+100000*r.Float64(), 1.4+0.2*r.Float64()
		}
	}
	n := 3 + r.Intn(8)
	var files []string
	kinds := map[string]int{} // 0 good, 1 few stars, 2 another field
	count := map[string]int{}
	aliens := no%3 == 0
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s/f%02d.fits", dir, i)
		k := 0
		if r.Intn(3) == 0 {
			k = 1
			if aliens && r.Intn(2) == 0 {
				k = 2
			}
		}
		if i < 2 { // at least two good ones
			k = 0
		}
		d := kit.Noise(r, w*h, 200+30*r.Float64(), 3+3*r.Float64())
		stars := [][]kit.Star{field, field, alien}[k]
		if k == 1 {
			stars = stars[:r.Intn(9)]
		}
		dx, dy := r.Float64()*4-2, r.Float64()*4-2
		for _, s := range stars {
			s.X += dx
			s.Y += dy
			kit.Render(d, w, h, s)
		}
		f := kit.Img(0, w, h, d)
		f.Exposure = 1 + float32(r.Intn(30))
		if err := f.WriteFile(name); err != nil {
			c.Fatal("VK: %v", err)
		}
		ctx, _ := kit.Context()
		ps, err := ops.NewOpSequence(ops.NewOpLoad(0, name), detect()).MakePromises(nil, ctx)
		if err != nil {
			c.Fatal("VK: %v", err)
		}
		g, err := ps[0]()
		if err != nil {
			c.Fatal("VK: %v", err)
		}
		kinds[name], count[name] = k, len(g.Stars)
		files = append(files, name)
	}
	first := files[0]
	r.Shuffle(n, func(i, j int) { files[i], files[j] = files[j], files[i] })
	p := plan{min: count[files[r.Intn(n)]] + r.Intn(2), mode: stack.StackMode(r.Intn(7)), lo: -1, hi: -1, thr: []float32{2, 0.4, 0.3, 0.25}[r.Intn(4)], batched: r.Intn(2) == 0}
	p.weight = []stack.StackWeighting{stack.StWeightNone, stack.StWeightExposure, stack.StWeightInverseNoise}[r.Intn(3)]
	if p.mode != stack.StMedian && p.mode != stack.StMean {
		p.lo, p.hi = 2+float32(r.Intn(2)), 2+float32(r.Intn(2))
	}
	p.hist = []post.HistoNormMode{post.HNMNone, post.HNMLocation, post.HNMLocScale}[r.Intn(3)]
	p.alignRef, p.histoRef = "%starsHFR", []string{"%location", "%starsHFR"}[r.Intn(2)]
	p.late = r.Intn(4) == 0
	if aliens || p.late {
		p.alignRef, p.histoRef = first, first
	}
	if r.Intn(8) == 0 && !aliens {
		p.noAl = true
	}
	threads := 1 + r.Intn(6)
	var good []string
	var rowsOf []string // frames which reach the export
	for _, f := range files {
		if p.min <= 0 || count[f] >= p.min {
			good = append(good, f)
		}
		if p.late || p.min <= 0 || count[f] >= p.min {
			rowsOf = append(rowsOf, f)
		}
	}
	pat := ""
	for _, f := range files {
		pat += fmt.Sprintf("%d/%d ", kinds[f], count[f])
	}
	what := fmt.Sprintf("%+v, kind/stars of the frames %s, %d threads", p, pat, threads)
	what = strings.Replace(what, dir, "DIR", -1)
	a := p.run(files, dir+"/a", threads)
	if len(good) == 0 {
		if a.err == nil && a.f != nil {
			c.Fatal("%s: no frame passes the filter, but there is a result", what)
		}
		c.Seen("none left", len(files), p.batched)
		c.Count("runs without any good frame", 1)
		return
	}
	// frames which cannot be aligned are left out as well
	if !p.noAl {
		q := p
		q.batched = false
		b := q.run(good, dir+"/p", 1)
		var al []string
		for _, f := range good {
			ctx := *b.ctx
			ps, err := ops.NewOpSequence(ops.NewOpLoad(0, f), detect(), post.NewOpAlign(20, p.thr, post.OOBModeNaN)).MakePromises(nil, &ctx)
			if err != nil {
				c.Fatal("VK: %v", err)
			}
			if g, err := ps[0](); err == nil && g != nil {
				al = append(al, f)
			}
		}
		if len(al) < len(good) {
			if p.alignRef != first || p.hist != post.HNMNone && p.histoRef != first {
				return // leaving out could change the choice of the reference
			}
			c.Count("frames which cannot be aligned", len(good)-len(al))
		}
		good = al
	}
	if len(good) == 0 {
		if a.err == nil && a.f != nil {
			c.Fatal("%s: no frame can be aligned, but there is a result", what)
		}
		return
	}
	q := p
	q.min = 0
	b := q.run(good, dir+"/b", 1+r.Intn(6))
	if (a.err == nil) != (b.err == nil) {
		c.Fatal("%s: error %v, without the poor frames %v", what, a.err, b.err)
	}
	if len(a.rows) != len(rowsOf) && a.err == nil {
		c.Fatal("%s: %d of %d frames are exported", what, len(a.rows), len(rowsOf))
	}
	if a.err != nil {
		return
	}
	if a.f == nil || b.f == nil || fmt.Sprint(a.f.Naxisn) != fmt.Sprint(b.f.Naxisn) {
		c.Fatal("%s: no result, or another size (%v, %v)", what, a.f != nil, b.f != nil)
	}
	for i := range a.f.Data {
		if u, v := a.f.Data[i], b.f.Data[i]; !kit.Same(u, v) && !kit.Near(u, v, 1e-3, 1e-5) {
			c.Fatal("%s: pixel %d of the stack is %v, without the %d poor frames it is %v", what, i, u, len(files)-len(good), v)
		}
	}
	if a.f.Exposure != b.f.Exposure {
		c.Fatal("%s: exposure of the stack %v, without the poor frames %v", what, a.f.Exposure, b.f.Exposure)
	}
	if !p.late {
		rows := map[string]bool{}
		for _, l := range a.rows {
			rows[l] = true
		}
		for _, l := range b.rows {
			if !rows[l] {
				c.Fatal("%s: row %s is exported only without the poor frames", what, l)
			}
		}
	}
	c.Count("pixels compared", len(a.f.Data))
	c.Count("frames left out", len(files)-len(good))
	c.Seen("twin", len(files), len(good), p.mode, p.weight, p.hist, p.batched, p.late, p.noAl)
	c.Sample("%s", what)
}
