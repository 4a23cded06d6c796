// C27: monitor for tone curves. Every pixel of the output is compared with the
// operator's formula in float64; order, range and end points are checked too.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func image(r *rand.Rand, i int, loc, scale float64) *fits.Image {
	w, h := 1+r.Intn(40), 1+r.Intn(40)
	switch i % 6 {
	case 0:
		w, h = 1+r.Intn(4), 1+r.Intn(3)
	case 1:
		w, h = 64+r.Intn(100), 64+r.Intn(30)
	}
	if i == 17 || i == 19 { // as wide as a camera chip
		w, h = 4200+r.Intn(500), 251+r.Intn(30)
	}
	var f *fits.Image
	if i%4 == 3 {
		f = kit.RGBImg(i, w, h, kit.Sky(r, 3*w*h, loc, scale))
	} else {
		f = kit.Img(i, w, h, kit.Sky(r, w*h, loc, scale))
	}
	if i%3 == 2 { // some very dark pixels
		for j := range f.Data {
			if r.Intn(40) == 0 {
				f.Data[j] = float32(math.Pow(10, -2-8*r.Float64()))
			}
		}
		f.Stats.Clear()
	}
	f.FileName, f.Exposure = fmt.Sprintf("f%d.fits", i), float32(r.Intn(100))
	return f
}

// ref returns the value and whether it is exactly determined
type ref func(v float64) (float64, bool)

func run(c *kit.C, op ops.Operator, f *fits.Image) (in []float32, out *fits.Image) {
	in = kit.Copy32(f.Data)
	m := kit.MetaOf(f)
	ctx, _ := kit.Context()
	out, err := kit.Run1(op, f, ctx)
	if err != nil || out == nil {
		c.Fatal("%T: error %v", op, err)
	}
	kit.CheckMeta(c, out, m, fmt.Sprintf("%T", op))
	return in, out
}

func check(c *kit.C, op ops.Operator, f *fits.Image, r ref, what string, unit bool, mono float64) {
	in, out := run(c, op, f)
	exact := 0
	for i, v := range in {
		w, ok := r(float64(v))
		if !ok {
			continue
		}
		exact++
		if !kit.Near(out.Data[i], float32(w), 4e-5*math.Max(1, math.Abs(w)), 1e-5) {
			c.Fatal("%s: pixel %d of %v: %v becomes %v, formula says %v", what, i, f.Naxisn, v, out.Data[i], w)
		}
	}
	kit.CheckMonotone(c, in, out.Data, 1e-6+mono, what)
	if unit {
		kit.CheckRange(c, out.Data, -1e-6, 1+1e-6, what)
	}
	kit.CheckStats(c, out, what)
	c.Count("pixels compared", exact)
}

func same(c *kit.C, op ops.Operator, f *fits.Image, what string) {
	in, out := run(c, op, f)
	for i := range in {
		if !kit.Same(in[i], out.Data[i]) {
			c.Fatal("neutral %s changes pixel %d from %v to %v", what, i, in[i], out.Data[i])
		}
	}
}

func main() {
	kit.Main("C27", "one evaluation = one tone curve operator applied to one image; distinct = operator x image shape class x parameter class", func(k *kit.K) {
		kit.ExactStats()
		n := k.N(80, 2500)
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("normrange/%d", i), func(c *kit.C) {
				r := c.Rng
				f := image(r, i, 0.3, 0.1)
				a, b := math.Pow(10, 5*r.Float64()-2), 100*(r.Float64()-0.3)
				if i%5 == 0 {
					a, b = 1, 0
				}
				if i%6 == 1 { // little contrast
					a = math.Pow(10, -2-4*r.Float64())
					b = a * r.Float64()
				}
				for j := range f.Data {
					f.Data[j] = float32(float64(f.Data[j])*a + b)
				}
				mi, _, ma, _ := kit.MMM(f.Data)
				if ma-mi < 2e-8 {
					if ma == mi {
						same(c, stretch.NewOpNormalizeRange(), f, "normalization of a constant image")
					}
					return
				}
				// float32 cancellation of offset against scale
				tol := 3e-7 * math.Max(math.Abs(float64(mi)), math.Abs(float64(ma))) / float64(ma-mi)
				in, out := run(c, stretch.NewOpNormalizeRange(), f)
				for j, v := range in {
					w := (float64(v) - float64(mi)) / (float64(ma) - float64(mi))
					if math.Abs(float64(out.Data[j])-w) > tol+1e-6 {
						c.Fatal("normRange: %v in %v..%v becomes %v, want %v", v, mi, ma, out.Data[j], w)
					}
				}
				kit.CheckMonotone(c, in, out.Data, 0, "normRange")
				kit.CheckRange(c, out.Data, -tol, 1+tol, "normRange")
				c.Seen("norm", len(f.Naxisn), len(in) < 10, i%6)
				c.Sample("%dx%d range %v..%v", f.Naxisn[0], f.Naxisn[1], mi, ma)
			})
			k.Case(fmt.Sprintf("gamma/%d", i), func(c *kit.C) {
				r := c.Rng
				f := image(r, i, 0.1, 0.02)
				g := float32([]float64{0.2, 0.5, 1.5, 2.2, 5, 0.99, 1.01, 0.2 + 4*r.Float64()}[r.Intn(8)])
				f.Stats.Location()
				check(c, stretch.NewOpGamma(g), f, func(v float64) (float64, bool) { return math.Pow(v, 1/float64(g)), true }, fmt.Sprintf("gamma %v", g), true, 0)
				c.Seen("gamma", g, i%6)
			})
			k.Case(fmt.Sprintf("gammapp/%d", i), func(c *kit.C) {
				r := c.Rng
				f := image(r, i, 0.05+0.3*r.Float64(), 0.02)
				g, sig := float32(0.3+3*r.Float64()), float32(4*r.Float64()-1)
				from := float64(f.Stats.Location()) + float64(sig)*float64(f.Stats.Scale())
				check(c, stretch.NewOpGammaPP(g, sig), f, func(v float64) (float64, bool) {
					if math.Abs(v-from) < 1e-3 || v >= 1 {
						return v, v >= 1
					}
					if v < from || from >= 1 {
						return v, true
					}
					return from + (1-from)*math.Pow((v-from)/(1-from), 1/float64(g)), true
				}, fmt.Sprintf("gammaPP %v from %v", g, from), from >= 0, 0)
				c.Seen("gammapp", i%6, g > 1, sig > 0)
			})
			k.Case(fmt.Sprintf("midtones/%d", i), func(c *kit.C) {
				r := c.Rng
				f := image(r, i, 0.02+0.3*r.Float64(), 0.005+0.05*r.Float64())
				loc, sc := float64(f.Stats.Location()), float64(f.Stats.Scale())
				if sc < 1e-3 {
					c.Seen("midtones flat")
					in, out := run(c, stretch.NewOpMidtones(2, 1), f)
					kit.CheckMonotone(c, in, out.Data, 1e-6, "midtones flat")
					kit.CheckRange(c, out.Data, -1e-6, 1+1e-6, "midtones flat")
					return
				}
				m := 0.002 + 0.9*r.Float64()
				if r.Intn(2) == 0 {
					m = 0.002 + 0.05*r.Float64()
				}
				mid, bl := float32(m/sc), float32(4*r.Float64()-0.5)
				m = float64(mid) * sc
				black := loc - float64(bl)*sc
				if black >= 0.98 {
					return
				}
				if r.Intn(4) == 0 && loc > 0.01 { // black point just above zero
					bl = float32((loc - 0.0009) / sc)
					black = loc - float64(bl)*sc
				}
				if black < 0 {
					black = 0
				}
				mtf := func(v float64) float64 { return v * (m - 1) / ((2*m-1)*v - m) }
				lo := mtf(black)
				slope := (1 - m) / m / (1 - lo) // largest derivative, amplifies rounding of black
				check(c, stretch.NewOpMidtones(mid, bl), f, func(v float64) (float64, bool) {
					if slope*1e-7 > 2e-5 {
						return 0, false
					}
					w := (mtf(v) - lo) / (1 - lo)
					return math.Max(0, math.Min(1, w)), true
				}, fmt.Sprintf("midtones m=%v black=%v", m, black), true, 4e-7/(1-lo))
				c.Seen("midtones", i%6, m > 0.5, black == 0)
			})
			k.Case(fmt.Sprintf("scaleblack/%d", i), func(c *kit.C) {
				r := c.Rng
				f := image(r, i, 0.02+0.5*r.Float64(), 0.02)
				loc := float64(f.Stats.Location())
				to := float32(0.001 + 0.4*r.Float64())
				if loc >= 0.99 {
					return
				}
				what := fmt.Sprintf("scaleBlack from %v to %v", loc, to)
				if math.Abs(loc-float64(to)) < 1e-5 {
					return
				}
				if loc < float64(to) {
					same(c, stretch.NewOpScaleBlack(to), f, what)
					return
				}
				black := (float64(to) - loc) / (float64(to) - 1)
				check(c, stretch.NewOpScaleBlack(to), f, func(v float64) (float64, bool) {
					return math.Max(0, (v-black)/(1-black)), true
				}, what, true, 0)
				c.Seen("scaleblack", i%6)
			})
			k.Case(fmt.Sprintf("neutral/%d", i), func(c *kit.C) {
				f := image(c.Rng, i, 0.2, 0.02)
				same(c, stretch.NewOpGamma(1), f, "gamma")
				same(c, stretch.NewOpGammaPP(1, 0.5), f, "gammaPP")
				same(c, stretch.NewOpMidtones(0, 1), f, "midtones")
				same(c, stretch.NewOpScaleBlack(0), f, "scaleBlack")
				same(c, stretch.NewOpStretchIterative(0, 0), f, "stretch")
				// constant images have no scale
				for j := range f.Data {
					f.Data[j] = 0.25
				}
				f.Stats.Clear()
				same(c, stretch.NewOpNormalizeRange(), f, "normRange of a constant image")
				in, out := run(c, stretch.NewOpMidtones(5, 1), f)
				kit.CheckMonotone(c, in, out.Data, 1e-6, "midtones of a constant image")
				c.Seen("neutral", i%6)
			})
		}
		// mostly white (overexposed) images cannot be moved, but stay finite
		for i := 0; i < k.N(24, 200); i++ {
			k.Case(fmt.Sprintf("white/%d", i), func(c *kit.C) {
				r := c.Rng
				stats.LSEstimator = []stats.LSEstimatorMode{stats.LSEIKSS, stats.LSEHistogram, stats.LSESCMedianQn, stats.LSEMeanStdDev}[i%4]
				defer kit.ExactStats()
				w, h := 10+r.Intn(60), 10+r.Intn(60)
				d := kit.Sky(r, w*h, 0.2, 0.02)
				p := []float64{1, 0.97, 0.7, 0.999}[(i/4)%4]
				for j := range d {
					if r.Float64() < p {
						d[j] = 1
					}
				}
				what := "stretch of a mostly white image"
				t := float32(0.05 + 0.2*r.Float64())
				for j, op := range []ops.Operator{stretch.NewOpStretchIterative(t, 0.01), stretch.NewOpScaleBlack(t)} {
					in, out := run(c, op, kit.Img(i, w, h, kit.Copy32(d)))
					kit.CheckMonotone(c, in, out.Data, 2e-6, what)
					kit.CheckRange(c, out.Data, -1e-6, 1+1e-6, what)
					kit.CheckStats(c, out, what)
					c.Seen("white", i%4, j, p)
				}
				for j, op := range []ops.Operator{hsl.NewOpHSLStretchIterative(t, 0.01), hsl.NewOpHSLScaleBlack(t)} {
					hs := make([]float32, 3*w*h)
					for x := range d {
						hs[x], hs[x+w*h], hs[x+2*w*h] = 360*r.Float32(), r.Float32(), d[x]
					}
					f := kit.RGBImg(i, w, h, hs)
					in := kit.Copy32(f.Data[2*w*h:])
					cx, _ := kit.Context()
					o, err := kit.Run1(op, f, cx)
					if err != nil {
						c.Fatal("%s: %v", what, err)
					}
					kit.CheckMonotone(c, in, o.Data[2*w*h:], 2e-6, what+" (HSLuv)")
					kit.CheckRange(c, o.Data[2*w*h:], -1e-6, 1+1e-6, what+" (HSLuv)")
					c.Seen("white hsl", i%4, j, p)
				}
			})
		}
		// iterative stretch, with the default randomized estimator as well
		for i := 0; i < k.N(30, 400); i++ {
			k.Case(fmt.Sprintf("stretch/%d", i), func(c *kit.C) {
				r := c.Rng
				stats.LSEstimator = stats.LSEIKSS
				wobble := 0.02 // and the effect of gamma is predicted
				if i%2 == 1 {
					// randomized: a scale some percent too high ends the iteration before the
					// black point shift, which would have raised it by as much
					stats.LSEstimator = stats.LSESCMedianQn
					wobble = 0.06
				}
				defer kit.ExactStats()
				w, h := 100+r.Intn(60), 100+r.Intn(40)
				loc := math.Pow(10, -2.3+1.8*r.Float64())
				target, tscale := float32(0.05+0.15*r.Float64()), float32(0.002+0.01*r.Float64())
				if i%6 == 5 {
					target, tscale = float32(r.Float64()), float32(0.1*r.Float64())
				}
				scale := math.Min(loc/5, float64(tscale)*(0.1+0.5*r.Float64()))
				if g := math.Log(loc) / math.Log(float64(target)); g > 1 {
					// moving the background up to the target widens it by g's power law
					scale = math.Min(scale, 0.5*float64(tscale)*loc*g/float64(target))
				}
				d := kit.Sky(r, w*h, loc, scale)
				f := kit.Img(i, w, h, d)
				l0, s0 := f.Stats.Location(), f.Stats.Scale()
				in, out := run(c, stretch.NewOpStretchIterative(target, tscale), f)
				what := fmt.Sprintf("stretch from %v/%v to %v/%v", l0, s0, target, tscale)
				kit.CheckMonotone(c, in, out.Data, 2e-6, what)
				kit.CheckRange(c, out.Data, -1e-6, 1+1e-6, what)
				kit.CheckStats(c, out, what)
				for j, v := range in {
					if v == 1 && math.Abs(float64(out.Data[j])-1) > 1e-5 {
						c.Fatal("%s: 1 becomes %v", what, out.Data[j])
					}
				}
				l1, s1 := out.Stats.Location(), out.Stats.Scale()
				// reachable: gammas up to 5 per step spread the background wide
				// enough, black point shifts then move it down
				if i%6 != 5 {
					if math.Abs(float64(l1-target)) > 0.03*float64(target)+0.3*float64(s1)+wobble*(1-float64(target)) {
						c.Fail("%s: ends at location %v scale %v", what, l1, s1)
					}
					if math.Abs(float64(s1/tscale)-1) > 0.2 {
						c.Fail("%s: ends at location %v scale %v", what, l1, s1)
					}
				}
				c.Seen("stretch", i)
				c.Sample("%s ends at %v/%v", what, l1, s1)
			})
		}
	})
}
