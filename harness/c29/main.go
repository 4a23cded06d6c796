// C29: monitor for reference selection: frames with known star counts, half-flux
// radii and locations, some of them skipped or failing, are pulled through
// selectRef by many threads; every evaluation of an input and every frame passed
// on is recorded, and the reference left in the context is compared with the
// one the mode defines.
package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// frame is what is known about one input
type frame struct {
	img   *fits.Image // nil if skipped
	err   error
	id    int
	stars []star.Star
	hfr   float32
	loc   float32
	min   float32
	max   float32
	data  []float32
	delay time.Duration
	calls int32
}

func (fr *frame) promise() ops.Promise {
	return func() (*fits.Image, error) {
		atomic.AddInt32(&fr.calls, 1)
		if fr.delay > 0 {
			time.Sleep(fr.delay)
		} else {
			runtime.Gosched()
		}
		return fr.img, fr.err
	}
}

func newFrame(r *rand.Rand, id int) *frame {
	w, h := 6+r.Intn(8), 5+r.Intn(8)
	d := kit.Noise(r, w*h, 100+float64(r.Intn(2000)), 1+20*r.Float64())
	f := kit.Img(id, w, h, d)
	n := r.Intn(60)
	if r.Intn(8) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		f.Stars = append(f.Stars, star.Star{X: r.Float32() * float32(w), Y: r.Float32() * float32(h), Mass: float32(id)*1000 + float32(i)})
	}
	f.HFR = 0.5 + 5*r.Float32()
	f.FileName = fmt.Sprintf("frame%d.fits", id)
	if stats.LSEstimator != stats.LSEMeanStdDev { // the location is not the mean
		for i := r.Intn(w * h / 5); i > 0; i-- {
			d[r.Intn(w*h)] += 3000 * r.Float32()
		}
	}
	fr := &frame{img: f, id: id, stars: append([]star.Star(nil), f.Stars...), hfr: f.HFR, data: kit.Copy32(d)}
	fr.min, fr.loc, fr.max, _ = kit.MMM(d)
	if stats.LSEstimator != stats.LSEMeanStdDev {
		fr.loc = stats.NewStats(kit.Copy32(d), int32(w)).Location()
	}
	if r.Intn(3) == 0 {
		fr.delay = time.Duration(r.Intn(1500)) * time.Microsecond
	}
	return fr
}

func newFrames(r *rand.Rand, n int) (fs []*frame) {
	perm := r.Perm(n + 10)
	for i := 0; i < n; i++ {
		id := i
		if n%3 == 0 {
			id = perm[i]
		}
		fs = append(fs, newFrame(r, id))
	}
	return
}

// some frames are skipped; returns how many remain
func skip(r *rand.Rand, fs []*frame, prob float64) (left int) {
	for _, f := range fs {
		if r.Float64() < prob {
			f.img = nil
		} else {
			left++
		}
	}
	return
}

// pull evaluates the promises from several goroutines in random order. The
// frames are changed as soon as they come out, as later steps do.
func pull(r *rand.Rand, outs []ops.Promise, threads int, change bool) (res []*fits.Image, errs []error) {
	res, errs = make([]*fits.Image, len(outs)), make([]error, len(outs))
	order := make(chan int, len(outs))
	perm := r.Perm(len(outs))
	if r.Intn(2) == 0 {
		sort.Ints(perm)
	}
	for _, i := range perm {
		order <- i
	}
	close(order)
	var wg sync.WaitGroup
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range order {
				res[i], errs[i] = outs[i]()
				if f := res[i]; f != nil && change {
					for x := range f.Data {
						f.Data[x] = -1
					}
					f.Stats.Clear()
					f.Stars, f.HFR = nil, -1
				}
			}
		}()
	}
	wg.Wait()
	return
}

// passed checks that each frame came out once, in its position, unchanged
func passed(c *kit.C, what string, fs []*frame, res []*fits.Image, errs []error, changed bool) {
	for i, f := range fs {
		if errs[i] != nil {
			c.Fatal("%s: frame %d: %v", what, i, errs[i])
		}
		if res[i] != f.img {
			got := "nothing"
			if res[i] != nil {
				got = fmt.Sprintf("the frame with id %d", res[i].ID)
			}
			c.Fatal("%s: position %d of %d (id %d, skipped %v) passed on %s", what, i, len(fs), f.id, f.img == nil, got)
		}
		if n := atomic.LoadInt32(&f.calls); n != 1 {
			c.Fatal("%s: input %d of %d was evaluated %d times", what, i, len(fs), n)
		}
		if f.img == nil || changed {
			continue
		}
		if f.img.ID != f.id || f.img.HFR != f.hfr || len(f.img.Stars) != len(f.stars) {
			c.Fatal("%s: frame %d: id, stars or HFR changed", what, i)
		}
		for x, v := range f.data {
			if f.img.Data[x] != v {
				c.Fatal("%s: frame %d: pixel %d changed from %v to %v", what, i, x, v, f.img.Data[x])
			}
		}
	}
	c.Count("frames passed on", len(fs))
}

// chosen reports whether the context's reference is the given frame
func chosen(ctx *ops.Context, target ref.SelRefTarget, f *frame) bool {
	if target == ref.SRAlign {
		if ctx.AlignHFR != f.hfr || len(ctx.AlignStars) != len(f.stars) || ctx.AlignStars == nil {
			return false
		}
		for i, s := range f.stars {
			if ctx.AlignStars[i] != s {
				return false
			}
		}
		return true
	}
	m := ctx.MatchHisto
	return m != nil && kit.Near(m.Location(), f.loc, 1e-3, 1e-5) && m.Min() == f.min && m.Max() == f.max
}

// acceptable returns the frames the mode defines as the reference
func acceptable(mode string, fs []*frame) (o []*frame) {
	var left []*frame
	for _, f := range fs {
		if f.img != nil {
			left = append(left, f)
		}
	}
	if mode == "%rgb" {
		if len(fs) > 3 {
			if fs[3].img == nil {
				return left // not defined
			}
			return fs[3:4]
		}
		mode = "%starsHFR"
	}
	switch mode {
	case "%starsHFR":
		best := math.Inf(-1)
		score := func(f *frame) float64 {
			if len(f.stars) == 0 || f.hfr == 0 {
				return 0
			}
			return float64(len(f.stars)) / float64(f.hfr)
		}
		for _, f := range left {
			best = math.Max(best, score(f))
		}
		for _, f := range left {
			if score(f) >= best*(1-1e-6) {
				o = append(o, f)
			}
		}
	case "%location":
		var ls []float64
		for _, f := range left {
			ls = append(ls, float64(f.loc))
		}
		sort.Float64s(ls)
		if len(ls) == 0 {
			return nil
		}
		a, b := ls[(len(ls)-1)/2], ls[len(ls)/2]
		for _, f := range left {
			if l := float64(f.loc); l >= a-1e-3 && l <= b+1e-3 {
				o = append(o, f)
			}
		}
	default:
		id, _ := strconv.Atoi(mode)
		for _, f := range left {
			if f.id == id {
				o = append(o, f)
			}
		}
	}
	return
}

func checkRef(c *kit.C, what string, ctx *ops.Context, target ref.SelRefTarget, mode string, fs []*frame) *frame {
	acc := acceptable(mode, fs)
	for _, f := range acc {
		if chosen(ctx, target, f) {
			if target == ref.SRAlign && f.img != nil && fmt.Sprint(ctx.AlignNaxisn) != fmt.Sprint(f.img.Naxisn) {
				c.Fatal("%s: reference size %v, want that of frame %d, %v", what, ctx.AlignNaxisn, f.id, f.img.Naxisn)
			}
			return f
		}
	}
	var ids []int
	for _, f := range acc {
		ids = append(ids, f.id)
	}
	got := "none of the frames"
	for _, f := range fs {
		if chosen(ctx, target, f) {
			got = fmt.Sprintf("frame %d (%d stars, HFR %v, location %v, skipped %v)", f.id, len(f.stars), f.hfr, f.loc, f.img == nil)
		}
	}
	c.Fatal("%s: reference is %s, want one of the ids %v", what, got, ids)
	return nil
}

func randMode(r *rand.Rand, fs []*frame) string {
	switch r.Intn(4) {
	case 0:
		return "%location"
	case 1:
		return "%rgb"
	case 2:
		var ids []int
		for _, f := range fs {
			if f.img != nil {
				ids = append(ids, f.id)
			}
		}
		if len(ids) > 0 {
			return strconv.Itoa(ids[r.Intn(len(ids))])
		}
	}
	return "%starsHFR"
}

func ctxFor(r *rand.Rand) *ops.Context {
	ctx, _ := kit.Context()
	ctx.MaxThreads = []int{1, 2, 3, 8, 16}[r.Intn(5)]
	return ctx
}

func stars() *pre.OpStarDetect { return pre.NewOpStarDetect(8, 1.5, 0, 1.4, "") }

func main() {
	kit.Main("C29", "one evaluation = one set of frames pulled through reference selection; distinct = mode x target x frames x skips x reference", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(120, 4000); i++ {
			k.Case(fmt.Sprintf("select/%d", i), func(c *kit.C) { sel(c) })
			k.Case(fmt.Sprintf("fail/%d", i), func(c *kit.C) { fail(c) })
			if i%2 == 0 {
				k.Case(fmt.Sprintf("batches/%d", i), func(c *kit.C) { batches(c) })
				k.Case(fmt.Sprintf("two/%d", i), func(c *kit.C) { two(c) })
			}
			if i%6 == 0 {
				k.Case(fmt.Sprintf("file/%d", i), func(c *kit.C) { file(c) })
			}
		}
	})
}

func targetOf(r *rand.Rand) ref.SelRefTarget { return []ref.SelRefTarget{ref.SRAlign, ref.SRHisto}[r.Intn(2)] }

func proms(fs []*frame) (ps []ops.Promise) {
	for _, f := range fs {
		ps = append(ps, f.promise())
	}
	return
}

// one set of frames, one selection
func sel(c *kit.C) {
	r := c.Rng
	if r.Intn(3) == 0 {
		stats.LSEstimator = stats.LSEHistogram
		defer func() { stats.LSEstimator = stats.LSEMeanStdDev }()
	}
	fs := newFrames(r, 1+r.Intn(14))
	for skip(r, fs, []float64{0, 0, 0.2, 0.6}[r.Intn(4)]) == 0 {
		fs = newFrames(r, 1+r.Intn(14))
	}
	switch r.Intn(6) {
	case 0: // ties and frames without stars
		for _, f := range fs {
			if f.img != nil {
				f.img.Stars, f.stars = nil, nil
			}
		}
	case 1: // one clear winner, placed anywhere, with the smallest star count
		f := fs[r.Intn(len(fs))]
		if f.img != nil {
			f.img.Stars, f.stars = []star.Star{{X: 1}}, []star.Star{{X: 1}}
			f.hfr, f.img.HFR = 1e-3, 1e-3
		}
	case 2:
		f := fs[r.Intn(len(fs))]
		if f.img != nil {
			f.hfr, f.img.HFR = 0, 0
		}
	}
	mode, target := randMode(r, fs), targetOf(r)
	op := ref.NewOpSelectReference(target, mode, stars())
	ctx := ctxFor(r)
	outs, err := op.MakePromises(proms(fs), ctx)
	if err != nil || len(outs) != len(fs) {
		c.Fatal("%d promises for %d frames: %v", len(outs), len(fs), err)
	}
	change := r.Intn(2) == 0
	what := fmt.Sprintf("mode %s target %d", mode, target)
	if mode == "%rgb" && len(fs) > 3 && fs[3].img == nil {
		pull(r, outs, 4, false) // which frame, if any, is not defined: must just end
		c.Count("skipped colour reference", 1)
		return
	}
	res, errs := pull(r, outs, 1+r.Intn(8), change)
	passed(c, what, fs, res, errs, change)
	f := checkRef(c, what, ctx, target, mode, fs)
	if r.Intn(2) == 0 { // batched stacking evaluates its first frame twice
		for n := 0; n < 2; n++ {
			i := r.Intn(len(fs))
			img, err := outs[i]()
			if err != nil || (img == nil) != (fs[i].img == nil) || img != nil && img.ID != fs[i].img.ID {
				c.Fatal("%s: position %d of %d (id %d, skipped %v), evaluated again, passed on %v %v", what, i, len(fs), fs[i].id, fs[i].img == nil, img != nil, err)
			}
			c.Count("frames evaluated again", 1)
		}
	}
	skips := ""
	for _, f := range fs {
		skips += map[bool]string{true: "-", false: "x"}[f.img == nil]
	}
	c.Seen(mode, target, skips, f.id)
	c.Sample("%s frames %s: reference %d", what, skips, f.id)
}

// no reference can be selected: each frame reports an error
func fail(c *kit.C) {
	r := c.Rng
	fs := newFrames(r, 1+r.Intn(9))
	target := targetOf(r)
	mode, what := "", ""
	sd := stars()
	once := true
	switch r.Intn(8) {
	case 0:
		mode, what = strconv.Itoa(1000+r.Intn(10)), "unknown id"
		skip(r, fs, 0.3)
	case 1:
		f := fs[r.Intn(len(fs))]
		f.img, mode, what = nil, strconv.Itoa(f.id), "id of skipped frame"
	case 2:
		skip(r, fs, 2)
		mode, what = []string{"%starsHFR", "%location", "%rgb", "0"}[r.Intn(4)], "all frames skipped"
	case 3:
		mode, what, once = "missing.fits", "missing file", false
	case 4:
		mode, what, once = []string{"/etc/hostname", "../x.fits"}[r.Intn(2)], "refused file", false
	case 5:
		mode, what, once = "%unknown", "unknown mode", false
	case 6:
		f := fs[r.Intn(len(fs))]
		f.img, f.err, what = nil, errors.New("broken frame"), "failing frame"
		mode = []string{"%starsHFR", "%location", "%rgb"}[r.Intn(3)]
	case 7:
		mode, what, sd, once = "missing.fits", "missing file without star detection", nil, false
	}
	op := ref.NewOpSelectReference(target, mode, sd)
	ctx := ctxFor(r)
	outs, err := op.MakePromises(proms(fs), ctx)
	if err != nil {
		c.Seen("fail", what, "on construction")
		return
	}
	all := r.Intn(2) == 0
	res, errs := make([]*fits.Image, len(outs)), make([]error, len(outs))
	if all {
		_, err := ops.MaterializeAll(outs, 1+r.Intn(8), r.Intn(2) == 0)
		if err == nil {
			c.Fatal("%s, mode %s: no error", what, mode)
		}
	} else {
		res, errs = pull(r, outs, 1+r.Intn(8), false)
		for i := range errs {
			if what == "failing frame" && fs[i].err == nil {
				continue // a reference might be selected from the others
			}
			if errs[i] == nil {
				c.Fatal("%s, mode %s, target %d: frame %d of %d gives no error (%v)", what, mode, target, i, len(fs), res[i] != nil)
			}
		}
	}
	for i, f := range fs {
		if n := atomic.LoadInt32(&f.calls); n > 1 && once {
			c.Fatal("%s, mode %s: input %d was evaluated %d times", what, mode, i, n)
		}
	}
	c.Seen("fail", what, mode, len(fs), all)
	c.Count("failing selections", 1)
}

// later batches keep the reference of the first
func batches(c *kit.C) {
	r := c.Rng
	var op ops.Operator
	var mode string
	target := targetOf(r)
	ctx := ctxFor(r)
	mode = []string{"%starsHFR", "%location", "%rgb"}[r.Intn(3)]
	op = ref.NewOpSelectReference(target, mode, stars())
	var first *frame
	for b := 0; b < 2+r.Intn(3); b++ {
		var fs []*frame
		for {
			fs = newFrames(r, 1+r.Intn(8))
			for i := range fs {
				fs[i].id += 100 * b
				if fs[i].img != nil {
					fs[i].img.ID += 100 * b
				}
			}
			if left := skip(r, fs, 0.2); (left > 0 || b > 0) && !(mode == "%rgb" && len(fs) > 3 && fs[3].img == nil) {
				break
			}
		}
		what := fmt.Sprintf("mode %s target %d batch %d", mode, target, b)
		outs, err := op.MakePromises(proms(fs), ctx)
		if err != nil {
			c.Fatal("%s: %v", what, err)
		}
		change := r.Intn(2) == 0
		res, errs := pull(r, outs, 1+r.Intn(8), change)
		passed(c, what, fs, res, errs, change)
		if b == 0 {
			first = checkRef(c, what, ctx, target, mode, fs)
		} else if !chosen(ctx, target, first) {
			c.Fatal("%s: the reference of the first batch, frame %d, was replaced", what, first.id)
		}
		c.Seen("batches", mode, target, b, len(fs), first.id)
	}
	// another run selects anew
	fs := newFrames(r, 2+r.Intn(2))
	ctx2 := ctxFor(r)
	outs, err := op.MakePromises(proms(fs), ctx2)
	if err != nil {
		c.Fatal("second run: %v", err)
	}
	res, errs := pull(r, outs, 1+r.Intn(8), false)
	passed(c, "second run", fs, res, errs, false)
	checkRef(c, "second run", ctx2, target, mode, fs)
	if !chosen(ctx, target, first) {
		c.Fatal("second run replaced the reference of the first")
	}
}

// alignment and histogram references in one pipeline
func two(c *kit.C) {
	r := c.Rng
	fs := newFrames(r, 1+r.Intn(10))
	for skip(r, fs, 0.2) == 0 {
		fs = newFrames(r, 1+r.Intn(10))
	}
	ma, mh := randMode(r, fs), randMode(r, fs)
	if len(fs) > 3 && fs[3].img == nil && (ma == "%rgb" || mh == "%rgb") {
		ma, mh = "%starsHFR", "%location"
	}
	a, h := ref.NewOpSelectReference(ref.SRAlign, ma, stars()), ref.NewOpSelectReference(ref.SRHisto, mh, stars())
	seq := ops.NewOpSequence(a, h)
	if r.Intn(2) == 0 {
		seq = ops.NewOpSequence(h, ops.NewOpSequence(ref.NewOpFilter(0), a))
	}
	ctx := ctxFor(r)
	outs, err := seq.MakePromises(proms(fs), ctx)
	if err != nil || len(outs) != len(fs) {
		c.Fatal("two: %v", err)
	}
	what := fmt.Sprintf("alignment %s, histogram %s", ma, mh)
	change := r.Intn(2) == 0
	res, errs := pull(r, outs, 1+r.Intn(8), change)
	passed(c, what, fs, res, errs, change)
	f := checkRef(c, what, ctx, ref.SRAlign, ma, fs)
	g := checkRef(c, what, ctx, ref.SRHisto, mh, fs)
	c.Seen("two", ma, mh, len(fs), f.id, g.id)
}

// the reference comes from a file, or there is none
func file(c *kit.C) {
	r := c.Rng
	w, h := 64+r.Intn(60), 64+r.Intn(60)
	d := kit.Noise(r, w*h, 500+100*r.Float64(), 5)
	for _, s := range kit.StarField(r, w, h, 3+r.Intn(12), 14, 16) {
		s.Flux, s.Sigma = 30000+60000*r.Float64(), 1.5
		kit.Render(d, w, h, s)
	}
	name := filepath.Join(filepath.Base(c.Dir()), fmt.Sprintf("ref%d.fits", r.Intn(100)))
	if err := kit.Img(0, w, h, d).WriteFile(name); err != nil {
		c.Fatal("VK: %v", err)
	}
	sd := stars()
	// what loading and detecting by hand gives
	c2, _ := kit.Context()
	own, err := ops.NewOpSequence(ops.NewOpLoad(0, name), sd).MakePromises(nil, c2)
	if err != nil {
		c.Fatal("VK: %v", err)
	}
	want, err := own[0]()
	if err != nil {
		c.Fatal("VK: %v", err)
	}
	for _, target := range []ref.SelRefTarget{ref.SRAlign, ref.SRHisto} {
		fs := newFrames(r, 1+r.Intn(8))
		skip(r, fs, 0.2)
		op := ref.NewOpSelectReference(target, name, sd)
		if target == ref.SRHisto && r.Intn(2) == 0 {
			op = ref.NewOpSelectReference(target, name, nil)
		}
		ctx := ctxFor(r)
		for b := 0; b < 2; b++ {
			outs, err := op.MakePromises(proms(fs), ctx)
			if err != nil {
				c.Fatal("file: %v", err)
			}
			res, errs := pull(r, outs, 1+r.Intn(8), false)
			passed(c, "reference file", fs, res, errs, false)
			if target == ref.SRAlign {
				if ctx.AlignHFR != want.HFR || fmt.Sprint(ctx.AlignStars) != fmt.Sprint(want.Stars) || fmt.Sprint(ctx.AlignNaxisn) != fmt.Sprint(want.Naxisn) {
					c.Fatal("reference file: %d stars with HFR %v of a %v image, want %d with %v of %v", len(ctx.AlignStars), ctx.AlignHFR, ctx.AlignNaxisn,
						len(want.Stars), want.HFR, want.Naxisn)
				}
			} else if m := ctx.MatchHisto; m == nil || m.Min() != want.Stats.Min() || m.Max() != want.Stats.Max() || !kit.Near(m.Location(), want.Stats.Location(), 1e-3, 1e-5) {
				c.Fatal("reference file: histogram statistics %v, want %v", m, want.Stats)
			}
			fs = newFrames(r, 1+r.Intn(8))
		}
		c.Seen("file", target, w, h, len(want.Stars))
		c.Count("stars of reference files", len(want.Stars))

		// none configured
		fs = newFrames(r, 1+r.Intn(8))
		skip(r, fs, 0.2)
		ctx = ctxFor(r)
		outs, err := ref.NewOpSelectReference(target, "", sd).MakePromises(proms(fs), ctx)
		if err != nil {
			c.Fatal("no reference: %v", err)
		}
		res, errs := pull(r, outs, 1+r.Intn(8), false)
		passed(c, "no reference", fs, res, errs, false)
		if ctx.AlignStars != nil || ctx.MatchHisto != nil {
			c.Fatal("no reference configured, but one was selected")
		}
	}
}
