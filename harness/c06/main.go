// C06: per-pixel stacking oracle. Frame sets with NaN patterns, outliers and
// weights are stacked by the real operator; every output pixel is compared with
// the definition of the mode (harness/stackref).
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
	sr "github.com/mlnoga/nightlight/internal/zzverif/stackref"
)

var nan = float32(math.NaN())

// pixelValues makes the values of one pixel in n frames.
func pixelValues(r *rand.Rand, n int, loc, sd float64) []float32 {
	v := make([]float32, n)
	kind := r.Intn(12)
	for i := range v {
		switch kind {
		case 0: // few distinct values
			v[i] = float32(loc + float64(r.Intn(3))*sd)
		case 1: // constant
			v[i] = float32(loc)
		case 2: // constant and one different
			v[i] = float32(loc)
			if i == n/2 {
				v[i] += float32(20 * sd)
			}
		case 3: // ramp
			v[i] = float32(loc + sd*float64(i))
		default:
			v[i] = float32(loc + sd*r.NormFloat64())
			if kind < 9 && r.Intn(8) == 0 { // outliers, more often bright
				s := 5 + 20*r.Float64()
				if r.Intn(3) == 0 {
					s = -s
				}
				v[i] += float32(s * sd)
			}
		}
	}
	switch r.Intn(8) {
	case 0:
		for i := range v {
			if r.Intn(3) == 0 {
				v[i] = nan
			}
		}
	case 1:
		for i := range v {
			v[i] = nan
		}
		if r.Intn(2) == 0 {
			v[r.Intn(n)] = float32(loc)
		}
	case 2: // valid values in the first or last frames only
		k := r.Intn(n + 1)
		for i := range v {
			if (i < k) == (r.Intn(50) > 0) {
				v[i] = nan
			}
		}
	}
	return v
}

func frames(c *kit.C, n, w, h int, axes []int32, loc, sd float64) []*fits.Image {
	px := w * h
	data := make([][]float32, n)
	for i := range data {
		data[i] = make([]float32, px)
	}
	for p := 0; p < px; p++ {
		for i, v := range pixelValues(c.Rng, n, loc, sd) {
			data[i][p] = v
		}
	}
	fs := make([]*fits.Image, n)
	for i := range fs {
		fs[i] = fits.NewImageFromNaxisn(append([]int32(nil), axes...), data[i])
		fs[i].ID = i
		fs[i].Exposure = float32(c.Rng.Intn(8)+1) * 7.5
		fs[i].HFR = float32(1.5 + 3*c.Rng.Float64())
	}
	return fs
}

func weightsFor(fs []*fits.Image, wt stack.StackWeighting) []float64 {
	if wt == stack.StWeightNone {
		return nil
	}
	q := make([]float64, len(fs))
	mi, ma := math.Inf(1), math.Inf(-1)
	for i, f := range fs {
		switch wt {
		case stack.StWeightExposure:
			q[i] = float64(f.Exposure)
		case stack.StWeightInverseNoise:
			q[i] = float64(f.Stats.Noise())
		case stack.StWeightInverseHFR:
			q[i] = float64(f.HFR)
		}
		mi, ma = math.Min(mi, q[i]), math.Max(ma, q[i])
	}
	if wt == stack.StWeightExposure {
		return q
	}
	for i := range q {
		if ma > mi {
			q[i] = 1 / (1 + 4*(q[i]-mi)/(ma-mi))
		} else {
			q[i] = 1
		}
	}
	return q
}

func judge(c *kit.C, fs []*fits.Image, mode int, wt stack.StackWeighting, lo, hi, ref float32, res *fits.Image) {
	m := mode
	if m == sr.Auto {
		m = sr.AutoMode(len(fs))
	}
	if lo < 0 {
		lo = 2.75
	}
	if hi < 0 {
		hi = 2.75
	}
	ws := weightsFor(fs, wt)
	if !fits.EqualInt32Slice(res.Naxisn, fs[0].Naxisn) || len(res.Data) != len(fs[0].Data) {
		c.Fatal("stack has axes %v and %d pixels, inputs %v", res.Naxisn, len(res.Data), fs[0].Naxisn)
	}
	es := 0.0
	for _, f := range fs {
		es += float64(f.Exposure)
	}
	if math.Abs(es-float64(res.Exposure)) > 1e-5*es {
		c.Fail("exposure %v of the stack, inputs sum to %v", res.Exposure, es)
	}
	for p := range res.Data {
		var vs []sr.V
		for i, f := range fs {
			if v := f.Data[p]; v == v {
				w := 1.0
				if ws != nil {
					w = ws[i]
				}
				vs = append(vs, sr.V{X: float64(v), W: w})
			}
		}
		if len(vs) == 0 {
			c.Count("pixels_without_values", 1)
			if res.Data[p] != ref {
				c.Fail("pixel %d has no valid values, is %v instead of the fallback %v", p, res.Data[p], ref)
			}
			continue
		}
		r := sr.Pixel(m, vs, ws != nil, float64(lo), float64(hi))
		if r.Ambiguous {
			c.Count("pixels_at_a_clip_bound", 1)
		} else {
			c.Count("pixels_judged", 1)
		}
		if r.Clipped > 0 {
			c.Count("pixels_with_clipping", 1)
		}
		c.Seen(mode, wt, len(fs), len(vs), r.Clipped)
		if !r.OK(res.Data[p]) {
			c.Fail("mode %d weighting %d sigma %v %v, %d frames: pixel %d of %d is %v, definition gives %v (range %v..%v, clipped %d), values %v",
				mode, wt, lo, hi, len(fs), p, len(res.Data), res.Data[p], r.Want, r.Min, r.Max, r.Clipped, vs)
			return
		}
	}
}

func snapshot(fs []*fits.Image) (o [][]float32) {
	for _, f := range fs {
		o = append(o, kit.Copy32(f.Data))
	}
	return
}

func unchanged(c *kit.C, fs []*fits.Image, snap [][]float32) {
	for i, f := range fs {
		for p := range f.Data {
			if !kit.Same(f.Data[p], snap[i][p]) {
				c.Fatal("input frame %d pixel %d changed from %v to %v", i, p, snap[i][p], f.Data[p])
			}
		}
	}
}

func run(c *kit.C, fs []*fits.Image, mode int, wt stack.StackWeighting, lo, hi, ref float32) (*fits.Image, error) {
	op := stack.NewOpStack(stack.StackMode(mode), wt, lo, hi)
	if ref != 0 {
		op.RefFrameLoc = ref // otherwise the constructor's default, zero
	}
	ctx, _ := kit.Context()
	ctx.MaxThreads = 1 + c.Rng.Intn(8)
	outs, err := op.MakePromises(kit.Proms(fs), ctx)
	if err != nil {
		return nil, err
	}
	if len(outs) != 1 {
		c.Fatal("stacking made %d promises", len(outs))
	}
	return outs[0]()
}

var sizes = [][]int32{{1, 1}, {3, 1}, {1, 5}, {8, 8}, {7, 9}, {17, 31}, {64, 64}, {50, 81}, {65, 1}, {5, 4, 3}, {129}, {23, 3, 3}}

func main() {
	kit.Main("C06", "distinct (mode, weighting, frames, valid values of the pixel, clipped values) with a judged pixel", func(k *kit.K) {
		sig := []float32{2.75, 2.75, 3.3, 1.9, 1.3, 0.7, 0.35, 5, -1}
		reps := k.N(3, 40)
		for mode := sr.Median; mode <= sr.Auto; mode++ {
			for wt := stack.StWeightNone; wt <= stack.StWeightInverseHFR; wt++ {
				if mode == sr.MAD && wt != stack.StWeightNone {
					continue
				}
				for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 9, 14, 15, 16, 24, 25, 26, 33, 40} {
					for rep := 0; rep < reps; rep++ {
						mode, wt, n := mode, wt, n
						k.Case(fmt.Sprintf("pixels/m%d/w%d/n%d/%d", mode, wt, n, rep), func(c *kit.C) {
							for j := 0; j < 4; j++ {
								ax := sizes[c.Rng.Intn(len(sizes))]
								px := 1
								for _, a := range ax {
									px *= int(a)
								}
								lo, hi := sig[c.Rng.Intn(len(sig))], sig[c.Rng.Intn(len(sig))]
								ref := float32(c.Rng.Intn(3)) * 0.625
								loc := []float64{10, 0.1, -3, 1000}[c.Rng.Intn(4)]
								fs := frames(c, n, px, 1, ax, loc, math.Abs(loc)/8)
								if c.Rng.Intn(6) == 0 { // equal weights
									for _, f := range fs {
										f.Exposure, f.HFR = 30, 2.5
									}
								}
								if wt == stack.StWeightInverseNoise { // noise needs real statistics
									for i, f := range fs {
										clean := kit.Noise(c.Rng, len(f.Data), loc, 0.1*float64(i+1))
										f.Stats = kit.Img(0, int(ax[0]), px/int(ax[0]), clean).Stats
										f.Stats.Noise()
									}
								}
								snap := snapshot(fs)
								res, err := run(c, fs, mode, wt, lo, hi, ref)
								if err != nil {
									c.Fatal("valid stack of %d frames %v refused: %v", n, ax, err)
								}
								judge(c, fs, mode, wt, lo, hi, ref, res)
								unchanged(c, fs, snap)
								c.Sample("%d frames %v sigma %v %v", n, ax, lo, hi)
							}
						})
					}
				}
			}
		}
		// many frames
		for mode := sr.Median; mode <= sr.Auto; mode++ {
			for wt := stack.StWeightNone; wt <= stack.StWeightInverseHFR; wt++ {
				if mode == sr.MAD && wt != stack.StWeightNone || wt == stack.StWeightInverseNoise {
					continue
				}
				mode, wt := mode, wt
				k.Case(fmt.Sprintf("many/m%d/w%d", mode, wt), func(c *kit.C) {
					for _, n := range []int{65 + c.Rng.Intn(190), 257 + c.Rng.Intn(300)} {
						lo, hi := sig[c.Rng.Intn(len(sig))], sig[c.Rng.Intn(len(sig))]
						fs := frames(c, n, 6, 4, []int32{6, 4}, 10, 1.25)
						snap := snapshot(fs)
						res, err := run(c, fs, mode, wt, lo, hi, 0)
						if err != nil {
							c.Fatal("valid stack of %d frames refused: %v", n, err)
						}
						judge(c, fs, mode, wt, lo, hi, 0, res)
						unchanged(c, fs, snap)
						c.Sample("%d frames sigma %v %v", n, lo, hi)
					}
				})
			}
		}
		// many pixels over few frames: work is split over goroutines
		for _, procs := range []int{1, 2, 3, 8} {
			for mode := sr.Median; mode <= sr.Auto; mode++ {
				mode, procs := mode, procs
				k.Case(fmt.Sprintf("large/m%d/p%d", mode, procs), func(c *kit.C) {
					old := runtime.GOMAXPROCS(procs)
					defer runtime.GOMAXPROCS(old)
					w, h := 97+c.Rng.Intn(300), 101+c.Rng.Intn(40)
					fs := frames(c, 3+c.Rng.Intn(8), w, h, []int32{int32(w), int32(h)}, 5, 0.5)
					res, err := run(c, fs, mode, stack.StWeightNone, 2, 2.5, 1.5)
					if err != nil {
						c.Fatal("refused: %v", err)
					}
					judge(c, fs, mode, stack.StWeightNone, 2, 2.5, 1.5, res)
				})
			}
		}
		// work packages of more than 8 MB per core and split
		k.Case("packages", func(c *kit.C) {
			n, w, h := 9, 4096, 5000
			if !k.Thorough() {
				n, w, h = 7, 3000, 3000
			}
			fs := make([]*fits.Image, n)
			for i := range fs {
				d := make([]float32, w*h)
				for p := range d {
					d[p] = float32((p*(i+3))%1024) + float32(i)
				}
				fs[i] = kit.Img(i, w, h, d)
			}
			res, err := run(c, fs, sr.Mean, stack.StWeightNone, 2, 2, 0)
			if err != nil {
				c.Fatal("refused: %v", err)
			}
			for p := range res.Data {
				s := 0.0
				for i := range fs {
					s += float64(fs[i].Data[p])
				}
				if math.Abs(s/float64(n)-float64(res.Data[p])) > 1e-2 {
					c.Fatal("pixel %d is %v, mean %v", p, res.Data[p], s/float64(n))
				}
			}
			c.Count("pixels_judged", len(res.Data))
		})
		// requests that must be refused
		k.Case("errors", func(c *kit.C) {
			mk := func(ax ...int32) *fits.Image {
				n := 1
				for _, a := range ax {
					n *= int(a)
				}
				f := fits.NewImageFromNaxisn(ax, kit.Noise(c.Rng, n, 5, 1))
				f.Exposure = 1
				return f
			}
			for mode := sr.Median; mode <= sr.Auto; mode++ {
				for _, bad := range [][]*fits.Image{{}, {nil, nil}, {mk(4, 5), mk(5, 4)}, {mk(4, 5), mk(4, 6)}, {mk(4, 6), mk(4, 5)}, {mk(4, 4), mk(4, 4), mk(16)}, {mk(2, 2, 3), mk(4, 3)}} {
					if _, err := run(c, bad, mode, stack.StWeightNone, 2, 2, 0); err == nil {
						c.Fail("mode %d: stacking %d mismatching or missing frames succeeded", mode, len(bad))
					}
					c.Count("refused", 1)
				}
			}
			for wt := stack.StWeightExposure; wt <= stack.StWeightInverseHFR; wt++ {
				if _, err := run(c, []*fits.Image{mk(4, 4), mk(4, 4)}, sr.MAD, wt, 2, 2, 0); err == nil {
					c.Fail("MAD sigma clipping with weighting %d succeeded", wt)
				}
			}
			a := mk(4, 4)
			a.Exposure = 0
			if _, err := run(c, []*fits.Image{mk(4, 4), a}, sr.Mean, stack.StWeightExposure, 2, 2, 0); err == nil {
				c.Fail("exposure weighting without exposure succeeded")
			}
			for _, m := range []int{-1, 7, 99} {
				if _, err := run(c, []*fits.Image{mk(4, 4)}, m, stack.StWeightNone, 2, 2, 0); err == nil {
					c.Fail("mode %d succeeded", m)
				}
			}
			for _, w := range []stack.StackWeighting{-1, 4, 77} {
				if _, err := run(c, []*fits.Image{mk(4, 4)}, sr.Mean, w, 2, 2, 0); err == nil {
					c.Fail("weighting %d succeeded", w)
				}
			}
			// skipped frames are left out
			fs := []*fits.Image{nil, mk(4, 4), nil, mk(4, 4), nil}
			res, err := run(c, fs, sr.Mean, stack.StWeightNone, 2, 2, 0)
			if err != nil {
				c.Fatal("stack with skipped frames failed: %v", err)
			}
			judge(c, []*fits.Image{fs[1], fs[3]}, sr.Mean, stack.StWeightNone, 2, 2, 0, res)
			// a failing frame fails the stack
			ctx, _ := kit.Context()
			outs, err := stack.NewOpStack(sr.Mean, 0, 2, 2).MakePromises([]ops.Promise{kit.Prom(mk(4, 4)), func() (*fits.Image, error) { return nil, fmt.Errorf("broken") }}, ctx)
			if err == nil {
				_, err = outs[0]()
			}
			if err == nil {
				c.Fail("stack with a failing frame succeeded")
			}
		})
	})
}
