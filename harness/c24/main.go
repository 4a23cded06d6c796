// C24: monitor for histogram matching: the pixel mapping of every frame is measured
// and compared with the mode's mapping to the reference values, frame by frame and
// in concurrent runs behind reference selection.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// affine mapping of a mode in float64
func mapping(mode post.HistoNormMode, loc, scale, refLoc, refScale float64) (m, o float64) {
	switch mode {
	case post.HNMLocation:
		return refLoc / loc, 0
	case post.HNMLocBlack: // white stays, loc moves to refLoc
		m = (1 - refLoc) / (1 - loc)
		return m, refLoc - m*loc
	case post.HNMNone:
		return 1, 0
	}
	m = refScale / scale
	return m, refLoc - m*loc
}

func frame(r *rand.Rand, id int, mode post.HistoNormMode, kind int) *fits.Image {
	w, h := 3+r.Intn(60), 3+r.Intn(40)
	var d []float32
	switch {
	case mode == post.HNMLocBlack || kind == 1:
		d = kit.Sky(r, w*h, 0.05+0.4*r.Float64(), 0.02+0.03*r.Float64())
	case kind == 2:
		d = kit.Noise(r, w*h, 30000*r.Float64()+500, 100*r.Float64()+1)
	default:
		d = kit.Noise(r, w*h, 50+100*r.Float64(), 1+10*r.Float64())
	}
	f := kit.Img(id, w, h, d)
	f.Exposure, f.FileName = float32(id), fmt.Sprintf("f%d", id)
	for q := r.Intn(4); q > 0; q-- { // some statistics already queried
		switch r.Intn(4) {
		case 0:
			f.Stats.Mean()
		case 1:
			f.Stats.StdDev()
		case 2:
			f.Stats.Location()
		case 3:
			f.Stats.Noise()
		}
	}
	return f
}

func checkMapped(c *kit.C, what string, mode post.HistoNormMode, in, out []float32, loc, scale, refLoc, refScale float32) {
	m, o := mapping(mode, float64(loc), float64(scale), float64(refLoc), float64(refScale))
	if len(in) != len(out) {
		c.Fatal("%s: %d pixels became %d", what, len(in), len(out))
	}
	for j := range in {
		want := float64(in[j])*m + o
		mag := math.Abs(float64(in[j])*m) + math.Abs(o) + math.Abs(float64(loc)*m) + math.Abs(float64(refLoc))
		if mode == post.HNMLocBlack {
			want = math.Max(0, want)
			mag += 1 + m
		}
		if !(math.Abs(float64(out[j])-want) <= 2e-6*mag) {
			c.Fatal("%s: pixel %d maps %v to %v, want %v (location %v scale %v to reference location %v scale %v)", what, j, in[j], out[j], want, loc, scale, refLoc, refScale)
		}
	}
	c.Count("pixels compared", len(in))
}

var modes = []post.HistoNormMode{post.HNMNone, post.HNMLocation, post.HNMLocScale, post.HNMLocBlack, post.HNMAuto}

func single(k *kit.K) {
	for i := 0; i < k.N(300, 6000); i++ {
		k.Case(fmt.Sprintf("single/%d", i), func(c *kit.C) {
			r := c.Rng
			mode := modes[i%5]
			est := stats.LSEMeanStdDev
			if i%4 == 3 {
				est = []stats.LSEstimatorMode{stats.LSEMedianMAD, stats.LSESCMedianQn}[r.Intn(2)]
			}
			stats.LSEstimator = est
			defer kit.ExactStats()
			kind := r.Intn(3)
			f, rf := frame(r, i, mode, kind), frame(r, 999, mode, kind)
			if i%16 == 4 || i%16 == 9 { // same location to the bit, another scale
				est = stats.LSEMeanStdDev
				stats.LSEstimator = est
				mk := func(id int, dev float32) *fits.Image {
					d := make([]float32, 24*10)
					for j := range d {
						d[j] = 0.25 + dev*float32(1-j%2*2)
					}
					return kit.Img(id, 24, 10, d)
				}
				f, rf = mk(i, 1.0/64), mk(999, 1.0/32)
			}
			in := kit.Copy32(f.Data)
			rin := kit.Copy32(rf.Data)
			loc, scale := f.Stats.Location(), f.Stats.Scale()
			refLoc, refScale := rf.Stats.Location(), rf.Stats.Scale()
			if scale <= 0 || refScale <= 0 {
				return
			}
			m := kit.MetaOf(f)
			ctx, _ := kit.Context()
			ctx.MatchHisto = rf.Stats
			o, err := kit.Run1(post.NewOpMatchHistogram(mode), f, ctx)
			what := fmt.Sprintf("mode %d estimator %d", mode, est)
			if err != nil || o == nil {
				c.Fatal("%s: %v", what, err)
			}
			kit.CheckMeta(c, o, m, what)
			if rf.Stats.Location() != refLoc || rf.Stats.Scale() != refScale {
				c.Fatal("%s: reference statistics changed", what)
			}
			for j := range rin {
				if rf.Data[j] != rin[j] {
					c.Fatal("%s: reference pixels changed", what)
				}
			}
			checkMapped(c, what, mode, in, o.Data, loc, scale, refLoc, refScale)
			kit.CheckStats(c, o, what)
			fresh := stats.NewStats(o.Data, o.Naxisn[0])
			tol := 1e-4 * (math.Abs(float64(refLoc)) + float64(refScale))
			if est != stats.LSEMeanStdDev {
				mm, _ := mapping(mode, float64(loc), float64(scale), float64(refLoc), float64(refScale))
				tol = 0.4 * math.Max(float64(refScale), float64(scale)*math.Abs(mm)) // random estimates of the matched frame
			}
			clamped := false
			if mode == post.HNMLocBlack {
				mm, oo := mapping(mode, float64(loc), float64(scale), float64(refLoc), float64(refScale))
				for _, v := range in {
					clamped = clamped || float64(v)*mm+oo < 1e-5
				}
			}
			if mode != post.HNMNone && !clamped {
				for _, st := range []*stats.Stats{fresh, o.Stats} {
					if math.Abs(float64(st.Location()-refLoc)) > tol {
						c.Fatal("%s: location after matching %v (fresh %v), reference %v, before %v", what, o.Stats.Location(), fresh.Location(), refLoc, loc)
					}
					if mode != post.HNMLocation && mode != post.HNMLocBlack && math.Abs(float64(st.Scale()-refScale)) > tol+0.3*float64(refScale)*float64(btoi(est != stats.LSEMeanStdDev)) {
						c.Fatal("%s: scale after matching %v (fresh %v), reference %v", what, o.Stats.Scale(), fresh.Scale(), refScale)
					}
				}
			}
			c.Count("frames matched", 1)
			c.Seen(mode, est, kind, clamped, loc > refLoc, scale > refScale)
			// matching the reference frame itself changes nothing
			ctx.MatchHisto = rf.Stats.Snapshot()
			o, err = kit.Run1(post.NewOpMatchHistogram(mode), rf, ctx)
			if err != nil || o == nil {
				c.Fatal("%s: reference frame: %v", what, err)
			}
			for j := range rin {
				if !kit.Near(o.Data[j], rin[j], 2e-6*(math.Abs(float64(refLoc))+float64(btoi(mode == post.HNMLocBlack))), 2e-6) && !(mode == post.HNMLocBlack && rin[j] < 0) {
					c.Fatal("%s: matching the reference to itself changes pixel %d from %v to %v", what, j, rin[j], o.Data[j])
				}
			}
			c.Count("reference frames matched to themselves", 1)
		})
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runs(k *kit.K, n int) {
	for i := 0; i < n; i++ {
		k.Case(fmt.Sprintf("run/%d", i), func(c *kit.C) {
			r := c.Rng
			mode := modes[1+i%4]
			nf := 1 + r.Intn(12)
			var fs []*fits.Image
			var in [][]float32
			var loc, scale []float32
			kind := r.Intn(3)
			for j := 0; j < nf; j++ {
				f := frame(r, j, mode, kind)
				fs, in = append(fs, f), append(in, kit.Copy32(f.Data))
				loc, scale = append(loc, f.Stats.Location()), append(scale, f.Stats.Scale())
			}
			ctx, _ := kit.Context()
			ctx.MaxThreads = 1 + r.Intn(8)
			refID := r.Intn(nf)
			sel := fmt.Sprint(refID)
			if r.Intn(3) == 0 {
				sel = "%location"
			}
			delays := make([]time.Duration, nf)
			for j := range delays {
				delays[j] = time.Duration(r.Intn(3)*r.Intn(400)) * time.Microsecond
			}
			ins := make([]ops.Promise, nf)
			for j := range ins {
				j := j
				ins[j] = func() (*fits.Image, error) { time.Sleep(delays[j]); return fs[j], nil }
			}
			op := ops.NewOpSequence(
				ref.NewOpSelectReference(ref.SRHisto, sel, pre.NewOpStarDetectDefault()),
				post.NewOpMatchHistogram(mode))
			outs, err := kit.RunAll(op, ins, ctx)
			if err != nil {
				c.Fatal("mode %d reference %s: %v", mode, sel, err)
			}
			if len(outs) != nf {
				c.Fatal("%d frames became %d", nf, len(outs))
			}
			if ctx.MatchHisto == nil {
				c.Fatal("no reference statistics")
			}
			// whose values were used?
			cand := []int{}
			for j := range fs {
				if loc[j] == ctx.MatchHisto.Location() && scale[j] == ctx.MatchHisto.Scale() {
					cand = append(cand, j)
				}
			}
			if len(cand) == 0 || sel != "%location" && cand[0] != refID {
				c.Fatal("mode %d reference %s of %d frames: reference values %v %v are those of frames %v", mode, sel, nf, ctx.MatchHisto.Location(), ctx.MatchHisto.Scale(), cand)
			}
			rid := cand[0]
			for j, o := range outs {
				if o == nil || o.ID != j {
					c.Fatal("frame %d is not in its position", j)
				}
				what := fmt.Sprintf("mode %d, %d threads, frame %d of %d, reference %d", mode, ctx.MaxThreads, j, nf, rid)
				checkMapped(c, what, mode, in[j], o.Data, loc[j], scale[j], loc[rid], scale[rid])
				kit.CheckStats(c, o, what)
			}
			c.Count("frames matched in runs", nf)
			c.Seen("run", mode, nf, ctx.MaxThreads, rid, sel == "%location")
			c.Sample("mode %d, %d threads, %d frames, reference %s: all mapped to location %v", mode, ctx.MaxThreads, nf, sel, loc[rid])
		})
	}
}

func hostile(k *kit.K) {
	for i := 0; i < k.N(100, 1000); i++ {
		k.Case(fmt.Sprintf("hostile/%d", i), func(c *kit.C) {
			r := c.Rng
			mode := append(modes, 5, -1, 99)[i%8]
			gen := func(kind int) *fits.Image {
				d := make([]float32, 36)
				for j := range d {
					switch kind {
					case 0: // constant
						d[j] = 5
					case 1: // zero location
						d[j] = float32(j%2*2 - 1)
					case 2: // all zero
					case 3:
						d[j] = 1
					case 4:
						d[j] = -float32(j)
					default:
						d[j] = r.Float32()
					}
				}
				return kit.Img(i, 6, 6, d)
			}
			kf, kr := r.Intn(6), r.Intn(6)
			f, rf := gen(kf), gen(kr)
			if i%32 == 3 { // saturated reference
				kr = 3
				rf = gen(kr)
			}
			if i%16 == 15 {
				kr = kf
				rf = kit.Img(0, 6, 6, kit.Copy32(f.Data))
			}
			ctx, _ := kit.Context()
			ctx.MatchHisto = rf.Stats
			if i%10 == 9 {
				f.ID = i % 3
				ctx.MatchHisto = nil
			}
			refLoc, loc := rf.Stats.Location(), f.Stats.Location()
			in := kit.Copy32(f.Data)
			o, err := kit.Run1(post.NewOpMatchHistogram(mode), f, ctx)
			what := fmt.Sprintf("mode %d frame kind %d (location %v) reference kind %d (location %v)", mode, kf, loc, kr, refLoc)
			c.Seen(mode, kf, kr, err == nil, ctx.MatchHisto == nil)
			if mode == post.HNMNone {
				if err != nil || o == nil {
					c.Fatal("%s: %v", what, err)
				}
				for j := range in {
					if o.Data[j] != in[j] {
						c.Fatal("%s: pixels changed", what)
					}
				}
				return
			}
			if ctx.MatchHisto == nil || mode > 4 || mode < 0 {
				if err == nil {
					c.Fatal("%s without reference or with unknown mode: no error", what)
				}
				return
			}
			if err != nil {
				c.Count("hostile frames refused", 1)
				return
			}
			c.Count("hostile frames matched", 1)
			for j, v := range o.Data {
				if !kit.Finite(v) {
					c.Fatal("%s: pixel %d is %v, was %v", what, j, v, in[j])
				}
				if mode == post.HNMLocation && float64(v)*float64(in[j]) < 0 {
					c.Fatal("%s: pixel %d changes sign from %v to %v", what, j, in[j], v)
				}
			}
			if mode != post.HNMLocBlack {
				l := stats.NewStats(o.Data, 6).Location()
				if !kit.Near(l, refLoc, 1e-5*(1+math.Abs(float64(refLoc))+math.Abs(float64(loc))), 1e-5) {
					c.Fatal("%s: location after matching %v", what, l)
				}
			}
		})
	}
	k.Case("empty", func(c *kit.C) {
		ctx, _ := kit.Context()
		for _, m := range modes {
			if o, err := kit.Run1(post.NewOpMatchHistogram(m), nil, ctx); o != nil || err != nil {
				c.Fatal("empty frame: %v %v", o, err)
			}
		}
	})
}

func main() {
	race := os.Getenv("VK_PHASE") == "race"
	kit.Main("C24", "one evaluation = one frame matched or one concurrent run; distinct = mode x estimator x contents, run shapes and references observed", func(k *kit.K) {
		kit.ExactStats()
		if race {
			runs(k, k.N(60, 600))
			return
		}
		single(k)
		hostile(k)
		runs(k, k.N(150, 3000))
	})
}
