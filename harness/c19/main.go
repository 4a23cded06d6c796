// C19: monitor for star detection: the star list is compared with the rendered
// truth; on arbitrary images every list is checked for plausible, ordered,
// separated stars inside the image.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// sane checks what holds for every star list.
func sane(c *kit.C, what string, ss []star.Star, d []float32, w, h, radius int, hfr, loc, inOut float32, nan bool) {
	sum := 0.0
	defer func() { // mass, radius and contrast as measured in the image around the star's pixel
		for i, s := range ss {
			x, y := int(s.Index)%w, int(s.Index)/w
			mass, hf, pix := measure(d, w, h, x, y, radius, float64(loc))
			if math.Abs(float64(s.Mass)-mass) > 0.01*mass || math.Abs(float64(s.HFR)-hf) > 0.02*(hf+0.1) {
				c.Fatal("%s: star %d %+v has mass %v and half-flux radius %v in the image", what, i, s, mass, hf)
			}
			inner, _, ipix := measure(d, w, h, x, y, -1, float64(loc), hf)
			inner2, _, ipix2 := measure(d, w, h, x, y, -1, float64(loc), hf, 1)
			ok := func(m float64, n int) bool { return m*float64(pix-n) >= 0.98*float64(inOut)*(mass-m)*float64(n) }
			if !ok(inner, ipix) && !ok(inner2, ipix2) {
				c.Fatal("%s: star %d %+v is reported with mass %v on %d inner of %d pixels of mass %v, less than the ratio %v", what, i, s, inner, ipix, pix, mass, inOut)
			}
		}
	}()
	for i, s := range ss {
		for _, v := range []float32{s.X - s.X, s.Y - s.Y, s.Mass - s.Mass, s.HFR - s.HFR, s.Value} {
			if !kit.Finite(v) && !(nan && v != v && s.Value != s.Value) {
				c.Fatal("%s: star %d of %d is not finite: %+v", what, i, len(ss), s)
			}
		}
		if s.X < -0.01 || s.Y < -0.01 || s.X > float32(w)-0.99 || s.Y > float32(h)-0.99 {
			c.Fatal("%s: star %d lies outside the %dx%d image: %+v", what, i, w, h, s)
		}
		if s.Index < 0 || int(s.Index) >= w*h || math.Abs(float64(int(s.Index)%w)-float64(s.X)) > 0.55 || math.Abs(float64(int(s.Index)/w)-float64(s.Y)) > 0.55 {
			c.Fatal("%s: index %d of star %d at %.2f,%.2f is not its pixel in a %dx%d image", what, s.Index, i, s.X, s.Y, w, h)
		}
		if s.Mass <= 0 || s.HFR < 0 || float64(s.HFR) > float64(radius) {
			c.Fatal("%s: star %d has mass %v and half-flux radius %v", what, i, s.Mass, s.HFR)
		}
		if i > 0 && s.Mass > ss[i-1].Mass {
			c.Fatal("%s: stars are not ordered by brightness, mass %v follows %v at %d", what, s.Mass, ss[i-1].Mass, i)
		}
		for j, o := range ss[:i] {
			if d := math.Hypot(float64(s.X-o.X), float64(s.Y-o.Y)); d < float64(radius)-0.5 || d <= 0 {
				c.Fatal("%s: stars %d and %d overlap, distance %.2f with radius %d", what, i, j, d, radius)
			}
		}
		sum += float64(s.HFR)
	}
	if len(ss) == 0 {
		if hfr != 0 {
			c.Fatal("%s: half-flux radius %v without stars", what, hfr)
		}
	} else if !kit.Near(hfr, float32(sum/float64(len(ss))), 1e-4, 1e-4) {
		c.Fatal("%s: half-flux radius of the frame %v, mean of its %d stars %v", what, hfr, len(ss), sum/float64(len(ss)))
	}
}

func detect(c *kit.C, what string, op *pre.OpStarDetect, f *fits.Image) {
	in := kit.Copy32(f.Data)
	m := kit.MetaOf(f)
	ctx, _ := kit.Context()
	o, err := kit.Run1(op, f, ctx)
	if err != nil || o != f {
		c.Fatal("%s: %v", what, err)
	}
	for j := range in {
		if !kit.Same(in[j], o.Data[j]) {
			c.Fatal("%s: star detection changes pixel %d from %v to %v", what, j, in[j], o.Data[j])
		}
	}
	kit.CheckMeta(c, o, m, what)
	sane(c, what, f.Stars, in, int(f.Naxisn[0]), int(f.Naxisn[1]), int(op.Radius), f.HFR, f.Stats.Location(), op.InOutRatio, kit.HasNaN(in))
	c.Count("star lists checked", 1)
	c.Count("stars checked", len(f.Stars))
}

// measure computes mass and mean flux radius around a pixel from the data, and
// the number of pixels (inside and outside the image) of the disc.
func measure(d []float32, w, h int, px, py, radius int, loc float64, inner ...float64) (mass, hfr float64, pix int) {
	lim := radius * radius
	if len(inner) > 0 {
		lim = int(math.Ceil(inner[0] * inner[0]))
		radius = int(math.Ceil(inner[0]))
		if len(inner) > 1 { // rounding just below an integer
			lim = int(math.Floor(inner[0] * inner[0]))
		}
	}
	for y := -radius; y <= radius; y++ {
		for x := -radius; x <= radius; x++ {
			if x*x+y*y > lim {
				continue
			}
			pix++
			if px+x < 0 || px+x >= w || py+y < 0 || py+y >= h {
				continue
			}
			if v := float64(d[(py+y)*w+px+x]) - loc; v > 0 {
				mass += v
				hfr += v * math.Sqrt(float64(x*x+y*y))
			}
		}
	}
	return mass, hfr / mass, pix
}

func fields(k *kit.K) {
	for i := 0; i < k.N(120, 3000); i++ {
		k.Case(fmt.Sprintf("field/%d", i), func(c *kit.C) {
			r := c.Rng
			stats.LSEstimator = stats.LSESCMedianQn
			defer kit.ExactStats()
			w, h := 150+r.Intn(400), 150+r.Intn(300)
			bp := float32(0)
			if r.Intn(2) == 0 {
				bp, w, h = 5, 300+r.Intn(250), 300+r.Intn(250)
			}
			if i%10 == 9 {
				w, h = 256*(2+r.Intn(2)), 256
			}
			loc := []float64{1000, 100, 0, 0.1}[r.Intn(4)]
			noise := []float64{20, 5, 1, 0.005}[r.Intn(4)]
			radius := []int{16, 12, 8}[r.Intn(3)]
			d := kit.Noise(r, w*h, loc, noise)
			cnt := 3 + r.Intn(40)
			if i == 17 || i == 18 { // as wide as a camera chip, many stars
				w, h, cnt, bp = 4200+r.Intn(500), 351+r.Intn(30), 600, 0
				if i == 18 {
					w, h = h, w
				}
				d = kit.Noise(r, w*h, loc, noise)
			}
			ss := kit.StarField(r, w, h, cnt, float64(radius)+3, float64(2*radius+8))
			type hot struct{ x, y int }
			var hots []hot
			type truth struct {
				kit.Star
				peak float64
			}
			var ts []truth
			for _, s := range ss {
				s.Sigma = 1.2 + 1.3*r.Float64()
				peak := noise * (40 + 400*r.Float64()*r.Float64())
				if bp > 0 { // the difference to the local median must not look like a hot pixel
					s.Sigma = 2 + r.Float64()
					peak = noise * (40 + 5*r.Float64())
				}
				s.Flux = peak * 2 * math.Pi * s.Sigma * s.Sigma
				kit.Render(d, w, h, s)
				ts = append(ts, truth{s, peak})
			}
			if bp > 0 {
				amp := 100 + 5000*r.Float64()*r.Float64()
				for j := 0; j < 8; j++ {
					hp := hot{r.Intn(w), r.Intn(h)}
					ok := true
					for _, t := range ts {
						ok = ok && math.Hypot(t.X-float64(hp.x), t.Y-float64(hp.y)) > float64(2*radius+2)
					}
					for _, o := range hots {
						ok = ok && math.Hypot(float64(o.x-hp.x), float64(o.y-hp.y)) > 4
					}
					if ok {
						d[hp.y*w+hp.x] += float32(noise * amp * (1 + 0.3*r.Float64()))
						hots = append(hots, hp)
					}
				}
			}
			f := kit.Img(i, w, h, kit.Copy32(d))
			inout := []float32{1.4, 3}[r.Intn(2)]
			sig := []float32{15, 10}[r.Intn(2)]
			bpOp := bp
			if bp > 0 && r.Intn(3) == 0 { // statistics from cosmetic correction
				g := kit.Img(i, w, h, kit.Noise(r, w*h, loc, noise))
				_, f.MedianDiffStats = pre.BadPixelMap(g.Data, int32(w), 3, 5)
			}
			if bp > 0 {
				bpOp = 12
			}
			op := pre.NewOpStarDetect(int32(radius), sig, bpOp, inout, "")
			what := fmt.Sprintf("%dx%d, background %g noise %g, %d stars %d hot pixels, radius %d sigma %g bpSigma %g inOut %g", w, h, loc, noise, len(ts), len(hots), radius, sig, bpOp, inout)
			detect(c, what, op, f)
			used := make([]bool, len(f.Stars))
			for _, t := range ts {
				n := 0
				for q, s := range f.Stars {
					dist := math.Hypot(float64(s.X)-t.X, float64(s.Y)-t.Y)
					if dist > 3 {
						continue
					}
					n++
					used[q] = true
					if os.Getenv("VK_DEBUG") != "" {
						fmt.Printf("dist %.3f peak/noise %.0f sigma %.2f mass/flux %.3f hfr/sigma %.3f\n", dist, t.peak/noise, t.Sigma, float64(s.Mass)/t.Flux, float64(s.HFR)/t.Sigma)
					}
					if dist > 0.15+5*noise/t.peak {
						c.Fatal("%s: star at %.2f,%.2f (sigma %.2f, peak %.3g) is reported at %.2f,%.2f", what, t.X, t.Y, t.Sigma, t.peak, s.X, s.Y)
					}
					px, py := int(math.Round(t.X)), int(math.Round(t.Y))
					mass, hfr, _ := measure(d, w, h, px, py, radius, float64(f.Stats.Location()))
					if math.Abs(float64(s.Mass)/mass-1) > 0.05 || math.Abs(float64(s.HFR)-hfr) > 0.25+0.02*hfr {
						c.Fatal("%s: star at %.2f,%.2f has mass %v and half-flux radius %v, measured in the image %v %v", what, t.X, t.Y, s.Mass, s.HFR, mass, hfr)
					}
					if math.Abs(float64(s.Mass)-t.Flux) > 0.02*t.Flux+0.6*noise*math.Pi*float64(radius*radius) {
						c.Fatal("%s: star of flux %v has mass %v", what, t.Flux, s.Mass)
					}
				}
				if n != 1 {
					c.Fatal("%s: star at %.2f,%.2f (sigma %.2f, peak %.0f times the noise) is reported %d times among %d stars", what, t.X, t.Y, t.Sigma, t.peak/noise, n, len(f.Stars))
				}
			}
			for q, s := range f.Stars {
				if !used[q] {
					hp := ""
					for _, o := range hots {
						if math.Hypot(float64(o.x)-float64(s.X), float64(o.y)-float64(s.Y)) < 3 {
							hp = " (a hot pixel)"
						}
					}
					c.Fatal("%s: no star at %.2f,%.2f%s, reported with mass %v radius %v", what, s.X, s.Y, hp, s.Mass, s.HFR)
				}
			}
			c.Count("true stars found once", len(ts))
			c.Count("hot pixels rejected", len(hots))
			c.Seen("field", w, h, len(ts), len(hots), radius, sig, inout)
			c.Sample("%s: all found once", what)
		})
	}
}

func hostile(k *kit.K) {
	for i := 0; i < k.N(600, 12000); i++ {
		k.Case(fmt.Sprintf("hostile/%d", i), func(c *kit.C) {
			r := c.Rng
			w, h := 1+i%17, 1+r.Intn(20)
			switch i % 5 {
			case 0:
				w, h = 1+r.Intn(80), 1+r.Intn(60)
			case 1:
				w, h = []int{255, 256, 257, 512, 30}[r.Intn(5)], []int{40, 256, 257, 10}[r.Intn(4)]
			}
			kind := r.Intn(9)
			if i%25 == 2 { // crowded around the borders of the internal search grid
				w, h, kind = 250+r.Intn(60), 250+r.Intn(60), 9
				if r.Intn(2) == 0 {
					w, h = 500+r.Intn(90), 500+r.Intn(90)
				}
			}
			d := make([]float32, w*h)
			for j := range d {
				x, y := j%w, j/w
				switch kind {
				case 0: // constant
					d[j] = 7
				case 1:
					d[j] = r.Float32()
				case 2:
					d[j] = float32(r.Intn(2)) * 65535
				case 3: // bright border columns and corners
					d[j] = r.Float32()
					if x == 0 || x == w-1 || y == h-1 {
						d[j] += 1000 * r.Float32()
					}
				case 4: // saturated areas
					d[j] = r.Float32()
					if (x/9+y/7)%3 == 0 {
						d[j] = 1000
					}
				case 5:
					d[j] = -r.Float32() * 1000
				case 6:
					d[j] = float32(x * y)
				default:
					d[j] = 100 + float32(r.NormFloat64())
				}
			}
			if kind >= 7 { // stars anywhere, also at and beyond the border
				for j := 0; j < 1+r.Intn(30)+kind/9*60; j++ {
					s := kit.Star{X: r.Float64()*float64(w+8) - 4, Y: r.Float64()*float64(h+8) - 4, Sigma: 0.7 + 2*r.Float64(), Flux: 1e3 * math.Exp(r.NormFloat64())}
					if r.Intn(2) == 0 {
						s.X = []float64{0, 0.4, float64(w) - 1, float64(w) - 0.6, 255.6, 256}[r.Intn(6)]
					}
					if kind == 9 && r.Intn(3) > 0 {
						s.X = float64((1+r.Intn(w/250))*256) + 15*(2*r.Float64()-1)
						if r.Intn(2) == 0 {
							s.Y = float64((1+r.Intn(h/250))*256) + 15*(2*r.Float64()-1)
						}
					}
					kit.Render(d, w, h, s)
				}
			}
			nan := r.Intn(6) == 0
			f := kit.Img(i, w, h, d)
			if nan { // as left by alignment; location and scale known from before
				f.Stats.Location()
				f.Stats.Scale()
				for j := 0; j < 1+r.Intn(9); j++ {
					d[r.Intn(w*h)] = float32(math.NaN())
				}
				if r.Intn(2) == 0 {
					for y := 0; y < h; y++ {
						d[y*w] = float32(math.NaN())
					}
				}
			}
			radius := int32(1 + r.Intn(20))
			op := pre.NewOpStarDetect(radius, []float32{15, 3, 1, 0.1, 8}[r.Intn(5)], []float32{0, 5, 0, 1}[r.Intn(4)], []float32{10, 1.4, 0, 1}[r.Intn(4)], "")
			what := fmt.Sprintf("%dx%d kind %d NaN %v radius %d sigma %g bpSigma %g inOut %g", w, h, kind, nan, radius, op.Sigma, op.BadPixelSigma, op.InOutRatio)
			if nan {
				op.BadPixelSigma = 0 // medians are defined without NaN only
			}
			detect(c, what, op, f)
			c.Seen("hostile", w, h, kind, nan, len(f.Stars) > 0)
		})
	}
}

func saved(k *kit.K) {
	for i := 0; i < k.N(6, 40); i++ {
		k.Case(fmt.Sprintf("save/%d", i), func(c *kit.C) {
			r := c.Rng
			dir := c.Dir()
			defer k.CleanDir(dir)
			w, h := 60+r.Intn(60), 50+r.Intn(50)
			d := kit.Noise(r, w*h, 100, 2)
			for j := 0; j < 6; j++ {
				kit.Render(d, w, h, kit.Star{X: r.Float64() * float64(w), Y: r.Float64() * float64(h), Sigma: 1.5, Flux: 3000})
			}
			f := kit.Img(i, w, h, d)
			p := filepath.Join(filepath.Base(dir), "s%d.fits")
			op := pre.NewOpStarDetect(8, 10, 0, 1.4, p)
			detect(c, "saving stars", op, f)
			g, err := kit.Load(fmt.Sprintf(p, i))
			if err != nil || len(g.Data) != w*h {
				c.Fatal("saved star image: %v", err)
			}
			for _, s := range f.Stars {
				if g.Data[int(s.Y)*w+int(s.X)] <= 0 {
					c.Fatal("saved star image is dark at star %+v", s)
				}
			}
			var b bytes.Buffer
			star.PrintStars(&b, f.Stars)
			if bytes.Count(b.Bytes(), []byte("\n")) != len(f.Stars)+1 {
				c.Fatal("printed star list of %d stars: %s", len(f.Stars), b.String())
			}
			c.Count("star images saved", 1)
		})
	}
	k.Case("off", func(c *kit.C) {
		f := kit.Img(0, 20, 20, kit.Noise(c.Rng, 400, 1, 1))
		ctx, _ := kit.Context()
		for _, op := range []*pre.OpStarDetect{pre.NewOpStarDetect(0, 10, 0, 1, ""), pre.NewOpStarDetect(5, 0, 0, 1, "")} {
			if o, err := kit.Run1(op, f, ctx); o != f || err != nil {
				c.Fatal("switched off: %v %v", o, err)
			}
		}
		if o, err := kit.Run1(pre.NewOpStarDetectDefault(), nil, ctx); o != nil || err != nil {
			c.Fatal("empty: %v %v", o, err)
		}
	})
}

var _ = rand.Int

func main() {
	kit.Main("C19", "one evaluation = one star detection; distinct = field shapes, parameters and contents observed", func(k *kit.K) {
		kit.ExactStats()
		fields(k)
		hostile(k)
		saved(k)
	})
}
