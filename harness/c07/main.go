// C07: metamorphic monitor for stacking. Pairs of related stacks are executed
// and their outputs compared: permuted, shifted, scaled and duplicated frames,
// wide sigmas, and bounds by the inputs.
package main

import (
	"fmt"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
	sr "github.com/mlnoga/nightlight/internal/zzverif/stackref"
)

var nan = float32(math.NaN())

type set struct {
	fs []*fits.Image
	w  stack.StackWeighting
}

func clone(f *fits.Image, mul, add float32) *fits.Image {
	d := kit.Copy32(f.Data)
	for i := range d {
		d[i] = d[i]*mul + add
	}
	g := fits.NewImageFromNaxisn(append([]int32(nil), f.Naxisn...), d)
	g.ID, g.Exposure, g.HFR, g.Stats = f.ID, f.Exposure, f.HFR, f.Stats
	return g
}

func do(c *kit.C, fs []*fits.Image, mode int, wt stack.StackWeighting, lo, hi float32) []float32 {
	op := stack.NewOpStack(stack.StackMode(mode), wt, lo, hi)
	ctx, _ := kit.Context()
	outs, err := op.MakePromises(kit.Proms(fs), ctx)
	if err != nil {
		c.Fatal("refused: %v", err)
	}
	f, err := outs[0]()
	if err != nil {
		c.Fatal("failed: %v", err)
	}
	if len(f.Data) != len(fs[0].Data) {
		c.Fatal("stack has %d pixels, frames %d", len(f.Data), len(fs[0].Data))
	}
	return f.Data
}

// vals returns the valid values of pixel p with their weights.
func vals(fs []*fits.Image, p int, wt stack.StackWeighting) (vs []sr.V) {
	mi, ma := math.Inf(1), math.Inf(-1)
	q := func(f *fits.Image) float64 {
		switch wt {
		case stack.StWeightExposure:
			return float64(f.Exposure)
		case stack.StWeightInverseHFR:
			return float64(f.HFR)
		case stack.StWeightInverseNoise:
			return float64(f.Stats.Noise())
		}
		return 1
	}
	for _, f := range fs {
		mi, ma = math.Min(mi, q(f)), math.Max(ma, q(f))
	}
	for _, f := range fs {
		if v := f.Data[p]; v == v {
			w := q(f)
			if wt == stack.StWeightInverseHFR || wt == stack.StWeightInverseNoise {
				if ma > mi {
					w = 1 / (1 + 4*(w-mi)/(ma-mi))
				} else {
					w = 1
				}
			}
			vs = append(vs, sr.V{X: float64(v), W: w})
		}
	}
	return
}

func main() {
	kit.Main("C07", "distinct (relation, mode, weighting, frames) with compared pixels", func(k *kit.K) {
		reps := k.N(4, 40)
		for mode := sr.Median; mode <= sr.Auto; mode++ {
			for wt := stack.StWeightNone; wt <= stack.StWeightInverseHFR; wt++ {
				if mode == sr.MAD && wt != stack.StWeightNone {
					continue
				}
				for _, n := range []int{1, 2, 3, 5, 6, 8, 14, 15, 20, 25, 30} {
					for rep := 0; rep < reps; rep++ {
						mode, wt, n := mode, wt, n
						k.Case(fmt.Sprintf("meta/m%d/w%d/n%d/%d", mode, wt, n, rep), func(c *kit.C) { meta(c, mode, wt, n) })
					}
				}
			}
		}
	})
}

func meta(c *kit.C, mode int, wt stack.StackWeighting, n int) {
	w, h := 4+c.Rng.Intn(12), 4+c.Rng.Intn(20)
	loc := []float64{10, 1, 50}[c.Rng.Intn(3)]
	fs := make([]*fits.Image, n)
	for i := range fs {
		d := kit.Noise(c.Rng, w*h, loc, loc/10)
		for p := range d {
			switch c.Rng.Intn(12) {
			case 0:
				d[p] += float32(loc * 4 * c.Rng.Float64())
			case 1:
				if i > 0 {
					d[p] = nan
				}
			}
		}
		fs[i] = kit.Img(i, w, h, d)
		fs[i].Exposure = float32(1 + c.Rng.Intn(10))
		fs[i].HFR = float32(1 + 3*c.Rng.Float64())
		if wt == stack.StWeightInverseNoise {
			fs[i].Stats = kit.Img(0, 32, 32, kit.Noise(c.Rng, 1024, loc, 0.1*float64(1+i))).Stats
			fs[i].Stats.Noise()
		}
	}
	sg := []float32{1.4, 2, 2.75, 3.5, 0.6}
	lo, hi := sg[c.Rng.Intn(len(sg))], sg[c.Rng.Intn(len(sg))]
	base := do(c, fs, mode, wt, lo, hi)
	m := mode
	if m == sr.Auto {
		m = sr.AutoMode(n)
	}
	models := make([]sr.R, len(base))
	amb := make([]bool, len(base))
	for p, v := range base {
		models[p] = sr.Pixel(m, vals(fs, p, wt), wt != stack.StWeightNone, float64(lo), float64(hi))
		r := models[p]
		amb[p] = r.Ambiguous || len(r.Want) > 1
		if !(float64(v) >= r.Min-r.Tol && float64(v) <= r.Max+r.Tol) {
			c.Fatal("pixel %d stacked to %v, outside its inputs' range %v..%v", p, v, r.Min, r.Max)
		}
	}
	compare := func(what string, got []float32, want func(v float32) float64, mag float64) {
		for p := range got {
			if amb[p] {
				continue
			}
			wv := want(base[p])
			if !(math.Abs(float64(got[p])-wv) <= 2e-5*(mag+math.Abs(wv))) {
				c.Fatal("%s: mode %d weighting %d sigma %v %v, %d frames: pixel %d is %v, expected %v", what, mode, wt, lo, hi, n, p, got[p], wv)
			}
		}
		c.Count("pairs_compared", 1)
		c.Count("pixels_compared", len(got))
		c.Seen(what, mode, wt, n)
	}
	mag := loc * 3
	// order
	perm := make([]*fits.Image, n)
	for i, j := range c.Rng.Perm(n) {
		perm[i] = fs[j]
	}
	compare("permuted", do(c, perm, mode, wt, lo, hi), func(v float32) float64 { return float64(v) }, mag)
	rev := make([]*fits.Image, n)
	for i := range fs {
		rev[i] = fs[n-1-i]
	}
	compare("reversed", do(c, rev, mode, wt, lo, hi), func(v float32) float64 { return float64(v) }, mag)
	// shift and scale
	add := float32(loc) * []float32{0.5, -1, 3, -0.25}[c.Rng.Intn(4)]
	sh := make([]*fits.Image, n)
	for i := range fs {
		sh[i] = clone(fs[i], 1, add)
	}
	compare("shifted", do(c, sh, mode, wt, lo, hi), func(v float32) float64 { return float64(v) + float64(add) }, mag*4)
	mul := []float32{0.001, 0.37, 3, 64, 4096}[c.Rng.Intn(5)]
	for i := range fs {
		sh[i] = clone(fs[i], mul, 0)
	}
	compare("scaled", do(c, sh, mode, wt, lo, hi), func(v float32) float64 { return float64(v) * float64(mul) }, mag*float64(mul))
	// single pixels: independent of their neighbours
	q := c.Rng.Intn(len(base))
	for i := range fs {
		sh[i] = kit.Img(i, 1, 1, []float32{fs[i].Data[q]})
		sh[i].Exposure, sh[i].HFR, sh[i].Stats = fs[i].Exposure, fs[i].HFR, fs[i].Stats
	}
	if one := do(c, sh, mode, wt, lo, hi); !amb[q] && !kit.Near(one[0], base[q], 2e-5*mag, 2e-5) {
		c.Fatal("pixel %d alone stacks to %v, within its frame to %v", q, one[0], base[q])
	}
	// identical frames
	g := fs[0]
	for i := range fs {
		sh[i] = clone(g, 1, 0)
		sh[i].Exposure, sh[i].HFR, sh[i].Stats = fs[i].Exposure, fs[i].HFR, fs[i].Stats
	}
	id := do(c, sh, mode, wt, lo, hi)
	for p := range id {
		if g.Data[p] == g.Data[p] && !kit.Near(id[p], g.Data[p], 1e-5*mag, 1e-5) {
			c.Fatal("%d identical frames: pixel %d stacks to %v instead of %v", n, p, id[p], g.Data[p])
		}
	}
	c.Count("pairs_compared", 1)
	// wide sigmas
	if m != sr.Median {
		wide := do(c, fs, mode, wt, 1e5, 1e5)
		mean := do(c, fs, sr.Mean, wt, 2, 2)
		if m == sr.LinFit {
			mean = do(c, fs, sr.Mean, stack.StWeightNone, 2, 2)
		}
		for p := range wide {
			r := sr.Pixel(m, vals(fs, p, wt), wt != stack.StWeightNone, 1e5, 1e5)
			if !r.Ambiguous && r.Clipped == 0 && !kit.Near(wide[p], mean[p], 1e-5*mag, 1e-5) {
				c.Fatal("mode %d weighting %d wide sigmas: pixel %d is %v, mean %v", mode, wt, p, wide[p], mean[p])
			}
		}
		c.Seen("wide", mode, wt, n)
	}
}
