// C15: monitor for debayering: every output pixel is compared with the native
// sample at its position, or with the mean of the adjacent native samples.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

func one(c *kit.C, w, h int, d []float32, ch, cfa string) {
	f := kit.Img(11, w, h, kit.Copy32(d))
	f.FileName, f.Exposure = "cfa.fits", 7
	f.Stats.Mean()
	f.Stats.StdDev()
	f.Stats.Location()
	f.Stats.Noise()
	m := kit.MetaOf(f)
	ctx, _ := kit.Context()
	what := fmt.Sprintf("%dx%d channel %q cfa %q", w, h, ch, cfa)
	out, err := kit.Run1(pre.NewOpDebayer(ch, cfa), f, ctx)
	if ch == "" {
		if err != nil || out == nil {
			c.Fatal("%s: %v", what, err)
		}
		kit.CheckMeta(c, out, m, what)
		for i := range d {
			if !kit.Same(d[i], out.Data[i]) {
				c.Fatal("%s: changes pixels", what)
			}
		}
		return
	}
	up := strings.ToUpper(cfa)
	want := strings.ToUpper(ch)[0]
	colour := func(x, y int) byte { return up[(y&1)*2+(x&1)] }
	// the result starts at the first complete RGGB cell
	xo, yo := 0, 0
	for colour(xo, yo) != 'R' {
		xo++
		if xo == 2 {
			xo, yo = 0, yo+1
		}
	}
	ow, oh := (w-xo)/2*2, (h-yo)/2*2
	if w < xo || h < yo || ow == 0 || oh == 0 {
		if err == nil {
			c.Fatal("%s: too small but no error", what)
		}
		c.Count("too small, refused", 1)
		return
	}
	if err != nil || out == nil {
		c.Fatal("%s: %v", what, err)
	}
	m.Naxisn[0], m.Naxisn[1] = int32(ow), int32(oh)
	kit.CheckMeta(c, out, m, what)
	if len(out.Data) != ow*oh {
		c.Fatal("%s: %d pixels for %dx%d", what, len(out.Data), ow, oh)
	}
	for y := 0; y < oh; y++ {
		for x := 0; x < ow; x++ {
			sx, sy := x+xo, y+yo
			v := out.Data[y*ow+x]
			if colour(sx, sy) == want {
				if !kit.Same(v, d[sy*w+sx]) {
					c.Fatal("%s: native pixel %d,%d is %v, sample %v", what, x, y, v, d[sy*w+sx])
				}
				c.Count("native pixels", 1)
				continue
			}
			// adjacent native samples: direct neighbours if there are any of this colour, else diagonal ones
			sum, n, full := 0.0, 0, 0
			lo, hi, mag := math.Inf(1), math.Inf(-1), 0.0
			for _, dd := range [][][2]int{{{-1, 0}, {1, 0}, {0, -1}, {0, 1}}, {{-1, -1}, {1, -1}, {-1, 1}, {1, 1}}} {
				for _, o := range dd {
					xx, yy := sx+o[0], sy+o[1]
					if colour(xx+2, yy+2) != want {
						continue
					}
					full++
					if xx < 0 || yy < 0 || xx >= w || yy >= h {
						continue
					}
					s := float64(d[yy*w+xx])
					sum, n = sum+s, n+1
					lo, hi, mag = math.Min(lo, s), math.Max(hi, s), math.Max(mag, math.Abs(s))
				}
				if full > 0 {
					break
				}
			}
			g := float64(v)
			tol := 1e-6*mag + 1e-30
			if n == full {
				if !(math.Abs(g-sum/float64(n)) <= tol) {
					c.Fatal("%s: pixel %d,%d is %v, mean of its %d adjacent samples %v", what, x, y, v, n, sum/float64(n))
				}
				c.Count("interpolated pixels", 1)
			} else if !(g >= lo-tol && g <= hi+tol) {
				c.Fatal("%s: border pixel %d,%d is %v, adjacent samples range over [%v,%v]", what, x, y, v, lo, hi)
			} else {
				c.Count("border pixels", 1)
			}
		}
	}
	mi, me, ma, sd := kit.MMM(out.Data)
	mag := 1e-5*(math.Abs(float64(mi))+math.Abs(float64(ma))) + 1e-20
	if st := out.Stats; !kit.Near(st.Min(), mi, mag, 0) || !kit.Near(st.Max(), ma, mag, 0) || !kit.Near(st.Mean(), me, mag, 1e-4) || math.Abs(float64(st.StdDev())-sd) > 1e-3*sd+100*mag ||
		!kit.Near(st.Location(), me, 10*mag, 1e-3) {
		c.Fatal("%s: statistics %v location %v, pixels have %v %v %v %v", what, st, st.Location(), mi, me, ma, sd)
	}
	c.Seen(w, h, ch, cfa)
}

func main() {
	cfas := []string{"RGGB", "GRBG", "GBRG", "BGGR", "rggb", "grbg", "gbrg", "bggr"}
	kit.Main("C15", "one evaluation = all channels and filter arrays of a set of images; distinct = size x channel x filter array", func(k *kit.K) {
		kit.ExactStats()
		lim := k.N(10, 16)
		for w := 1; w <= lim; w++ {
			k.Case(fmt.Sprintf("all/%d", w), func(c *kit.C) {
				for h := 1; h <= lim; h++ {
					for _, cfa := range cfas {
						for _, ch := range []string{"", "R", "G", "B", "r", "g", "b"} {
							one(c, w, h, kit.Noise(c.Rng, w*h, 1000, 300), ch, cfa)
						}
					}
				}
			})
		}
		for i := 0; i < k.N(100, 3000); i++ {
			k.Case(fmt.Sprintf("random/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 1+r.Intn(200), 1+r.Intn(150)
				if i == 17 || i == 18 { // as wide as a camera chip
					w, h = 4200+r.Intn(500), 251+r.Intn(30)
					if i == 18 {
						w, h = h, w
					}
				}
				amp := math.Pow(10, 8*r.Float64()-3)
				d := kit.Noise(r, w*h, amp, amp*r.Float64()*3)
				cfa, ch := cfas[r.Intn(8)], []string{"R", "G", "B"}[r.Intn(3)]
				if i == 17 || i == 18 {
					one(c, w, h, d, "R", cfa)
					one(c, w, h, d, "G", cfa)
					one(c, w, h, d, "B", cfa)
				}
				one(c, w, h, d, ch, cfa)
				c.Sample("%dx%d %s %s", w, h, ch, cfa)
			})
			k.Case(fmt.Sprintf("constant/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 2+r.Intn(30)+1, 2+r.Intn(30)+1
				val := map[byte]float32{'R': float32(1000 * r.Float64()), 'G': float32(1000 * r.Float64()), 'B': float32(1000 * r.Float64())}
				for _, cfa := range cfas[:4] {
					d := make([]float32, w*h)
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							d[y*w+x] = val[cfa[(y&1)*2+(x&1)]]
						}
					}
					for _, ch := range []string{"R", "G", "B"} {
						ctx, _ := kit.Context()
						out, err := kit.Run1(pre.NewOpDebayer(ch, cfa), kit.Img(0, w, h, kit.Copy32(d)), ctx)
						if err != nil {
							c.Fatal("%v", err)
						}
						for i, v := range out.Data {
							if !kit.Near(v, val[ch[0]], 0, 1e-6) {
								c.Fatal("%dx%d %s of %s: constant %v becomes %v at %d", w, h, ch, cfa, val[ch[0]], v, i)
							}
						}
					}
				}
			})
		}
		k.Case("unknown", func(c *kit.C) {
			for _, p := range [][2]string{{"X", "RGGB"}, {"R", "RRGB"}, {"RG", "RGGB"}, {"B", "bayer"}, {"L", "GRBG"}, {"G", "RGB"}} {
				ctx, _ := kit.Context()
				if _, err := kit.Run1(pre.NewOpDebayer(p[0], p[1]), kit.Img(0, 4, 4, kit.Noise(c.Rng, 16, 1, 1)), ctx); err == nil {
					c.Fail("channel %q cfa %q accepted", p[0], p[1])
				}
				c.Count("unknown refused", 1)
			}
		})
	})
}
