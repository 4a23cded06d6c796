// C30: monitor for NxN binning and pixel scaling: each output pixel is compared
// with the mean of its block, or the scaled value; metadata and statistics too.
package main

import (
	"fmt"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func main() {
	kit.Main("C30", "one evaluation = one image binned and scaled; distinct = size x bin size observed", func(k *kit.K) {
		kit.ExactStats()
		one := func(c *kit.C, i, w, h, ch, n int) {
			r := c.Rng
			amp := math.Pow(10, 6*r.Float64()-2)
			d := make([]float32, w*h*ch)
			for j := range d {
				d[j] = float32(amp * (r.Float64() - 0.2))
			}
			var f *fits.Image
			if ch == 3 {
				f = kit.RGBImg(i, w, h, kit.Copy32(d))
			} else {
				f = kit.Img(i, w, h, kit.Copy32(d))
			}
			f.FileName, f.Exposure = fmt.Sprintf("x%d.fits", i), float32(i)
			f.Stats.Noise()
			f.Stats.Location()
			ctx, _ := kit.Context()
			m := kit.MetaOf(f)
			out, err := kit.Run1(pre.NewOpBin(int32(n)), f, ctx)
			what := fmt.Sprintf("%dx%dx%d binned by %d", w, h, ch, n)
			if n <= 1 {
				if err != nil || out == nil {
					c.Fatal("%s: %v", what, err)
				}
				for j := range d {
					if out.Data[j] != d[j] {
						c.Fatal("%s changes pixels", what)
					}
				}
				kit.CheckMeta(c, out, m, what)
				return
			}
			if w < n || h < n {
				if err == nil && out != nil && len(out.Data) > 0 {
					c.Fatal("%s: got %d pixels", what, len(out.Data))
				}
				c.Count("refused", 1)
				return
			}
			if err != nil || out == nil {
				c.Fatal("%s: %v", what, err)
			}
			m.Naxisn[0], m.Naxisn[1] = int32(w/n), int32(h/n)
			kit.CheckMeta(c, out, m, what)
			kit.CheckStats(c, out, what)
			bw, bh := w/n, h/n
			if len(out.Data) != bw*bh*ch {
				c.Fatal("%s: %d pixels", what, len(out.Data))
			}
			for p := 0; p < ch; p++ {
				for y := 0; y < bh; y++ {
					for x := 0; x < bw; x++ {
						s := 0.0
						for yy := 0; yy < n; yy++ {
							for xx := 0; xx < n; xx++ {
								s += float64(d[p*w*h+(y*n+yy)*w+x*n+xx])
							}
						}
						s /= float64(n * n)
						v := out.Data[p*bw*bh+y*bw+x]
						if math.Abs(float64(v)-s) > 5e-6*amp {
							c.Fatal("%s: pixel %d,%d,%d is %v, block mean %v", what, x, y, p, v, s)
						}
					}
				}
			}
			_, _, _, sd := kit.MMM(out.Data)
			if math.Abs(float64(out.Stats.StdDev())-sd) > 1e-3*sd+1e-6*amp {
				c.Fail("%s: stddev %v, pixels have %v", what, out.Stats.StdDev(), sd)
			}
			c.Count("binned pixels", len(out.Data))
			c.Seen(w, h, ch, n)
		}
		lim := k.N(9, 14)
		for w := 1; w <= lim; w++ {
			for h := 1; h <= lim; h++ {
				k.Case(fmt.Sprintf("all/%dx%d", w, h), func(c *kit.C) {
					for n := -1; n <= lim+1; n++ {
						one(c, w*100+h, w, h, 1+2*((w+h+n)&1), n)
					}
				})
			}
		}
		for i := 0; i < k.N(60, 1000); i++ {
			k.Case(fmt.Sprintf("random/%d", i), func(c *kit.C) {
				w, h, n := 1+c.Rng.Intn(120), 1+c.Rng.Intn(90), 1+c.Rng.Intn(9)
				if i%10 == 5 {
					n = 10 + c.Rng.Intn(40)
				}
				if i == 17 || i == 18 { // as wide as a camera chip
					w, h, n = 4200+c.Rng.Intn(500), 251+c.Rng.Intn(30), 2+c.Rng.Intn(20)
					if i == 18 {
						w, h = h, w
					}
				}
				one(c, i, w, h, 1+2*(i%2), n)
				c.Sample("%dx%d by %d", w, h, n)
			})
			k.Case(fmt.Sprintf("scaleoffset/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h, ch := 1+r.Intn(70), 1+r.Intn(40), 1+2*(i%2)
				d := kit.Noise(r, w*h*ch, 100, 30)
				for j := range d {
					if r.Intn(10) == 0 {
						d[j] = float32(r.Intn(2) - r.Intn(2))
					}
				}
				sc, off := float32([]float64{1, 0, 2, -1, 0.001, 1 + 3*r.NormFloat64()}[r.Intn(6)]), float32([]float64{0, 1, -100, 1000 * r.Float64()}[r.Intn(4)])
				f := kit.Img(i, w, h, kit.Copy32(d))
				if ch == 3 {
					f = kit.RGBImg(i, w, h, kit.Copy32(d))
				}
				f.FileName, f.Exposure = "so", 3
				if r.Intn(2) == 0 {
					f.Stats.Location()
				}
				m := kit.MetaOf(f)
				ctx, _ := kit.Context()
				out, err := kit.Run1(pre.NewOpScaleOffset(sc, off), f, ctx)
				if err != nil || out == nil {
					c.Fatal("%v", err)
				}
				what := fmt.Sprintf("x*%v+%v of %dx%dx%d", sc, off, w, h, ch)
				kit.CheckMeta(c, out, m, what)
				mag := 300*math.Abs(float64(sc)) + math.Abs(float64(off))
				for j, v := range d {
					if want := float64(v)*float64(sc) + float64(off); math.Abs(float64(out.Data[j])-want) > 1e-6*mag {
						c.Fatal("%s: %v becomes %v, want %v", what, v, out.Data[j], want)
					}
				}
				mi, me, ma, sd := kit.MMM(out.Data)
				st := out.Stats
				if !kit.Near(st.Min(), mi, 1e-5*mag, 0) || !kit.Near(st.Max(), ma, 1e-5*mag, 0) || !kit.Near(st.Mean(), me, 1e-5*mag, 0) || math.Abs(float64(st.StdDev())-sd) > 1e-5*mag+1e-3*sd {
					c.Fail("%s: statistics %v %v %v %v, pixels have %v %v %v %v", what, st.Min(), st.Mean(), st.Max(), st.StdDev(), mi, me, ma, sd)
				}
				c.Seen("so", i)
			})
		}
	})
}
