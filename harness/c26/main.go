// C26: monitor for the colour operators. Every pixel of every channel is
// compared with the operator's mapping in float64; unselected pixels and
// channels have to stay bit-identical.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// ---- independent HSLuv reference -------------------------------------------

var mRGB = [3][3]float64{{3.240969941904521, -1.537383177570093, -0.498610760293}, {-0.96924363628087, 1.87596750150772, 0.041555057407175}, {0.055630079696993, -0.20397695888897, 1.056971514242878}}
var mXYZ = [3][3]float64{{0.41239079926595, 0.35758433938387, 0.18048078840183}, {0.21263900587151, 0.71516867876775, 0.072192315360733}, {0.019330818715591, 0.11919477979462, 0.95053215224966}}

const refU, refV, kappa, eps = 0.19783000664283, 0.46831999493879, 903.2962962, 0.0088564516

func lOf(y float64) float64 {
	if y > eps {
		return 116*math.Cbrt(y) - 16
	}
	return y * kappa
}

func luvLCh(r, g, b float64) (h, ch, L float64) {
	var v [3]float64
	for i := range v {
		v[i] = mXYZ[i][0]*r + mXYZ[i][1]*g + mXYZ[i][2]*b
	}
	L = lOf(v[1])
	d := v[0] + 15*v[1] + 3*v[2]
	if d <= 0 || L < 1e-8 {
		return 0, 0, 0
	}
	u, w := 13*L*(4*v[0]/d-refU), 13*L*(9*v[1]/d-refV)
	ch = math.Hypot(u, w)
	if h = math.Atan2(w, u) * 180 / math.Pi; h < 0 {
		h += 360
	}
	return
}

func maxChroma(L, h float64) float64 {
	hr := h * math.Pi / 180
	sub1 := math.Pow(L+16, 3) / 1560896
	sub2 := sub1
	if sub1 <= eps {
		sub2 = L / kappa
	}
	m := math.MaxFloat64
	for i := 0; i < 3; i++ {
		for t := 0.0; t < 2; t++ {
			top1 := (284517*mRGB[i][0] - 94839*mRGB[i][2]) * sub2
			top2 := (838422*mRGB[i][2]+769860*mRGB[i][1]+731718*mRGB[i][0])*L*sub2 - 769860*t*L
			bot := (632260*mRGB[i][2]-126452*mRGB[i][1])*sub2 + 126452*t
			if l := (top2 / bot) / (math.Sin(hr) - top1/bot*math.Cos(hr)); l >= 0 && l < m {
				m = l
			}
		}
	}
	return m
}

func toRGB(h, s, l float64) (out [3]float64) {
	L := l * 100
	if L < 1e-6 {
		return
	}
	ch := 0.0
	if L < 99.999999 {
		ch = s * maxChroma(L, h)
	}
	hr := h * math.Pi / 180
	u, v := ch*math.Cos(hr)/(13*L)+refU, ch*math.Sin(hr)/(13*L)+refV
	y := L / kappa
	if L > 8 {
		y = math.Pow((L+16)/116, 3)
	}
	x := y * 9 * u / (4 * v)
	z := y * (12 - 3*u - 20*v) / (4 * v)
	for i := range out {
		out[i] = math.Min(1, math.Max(0, mRGB[i][0]*x+mRGB[i][1]*y+mRGB[i][2]*z))
	}
	return
}

// ---- images ------------------------------------------------------------------

type img struct {
	f         *fits.Image
	in        []float32
	n         int
	loc, sc   float64 // of the luminance
	l0, l1    float64 // extremes of the luminance
	shape     int
	pre       kit.Meta
	selected  int
	untouched int
}

func image(r *rand.Rand, i int) *img {
	w, h := 1+r.Intn(40), 1+r.Intn(40)
	switch i % 5 {
	case 0:
		w, h = 1+r.Intn(4), 1+r.Intn(3)
	case 1:
		w, h = 64+r.Intn(100), 64+r.Intn(30)
	}
	if i == 17 { // as wide as a camera chip
		w, h = 4200+r.Intn(500), 251+r.Intn(30)
	}
	n := w * h
	f := kit.RGBImg(i, w, h, nil)
	f.FileName, f.Exposure = fmt.Sprintf("f%d", i), float32(r.Intn(99))
	copy(f.Data[2*n:], kit.Sky(r, n, 0.05+0.4*r.Float64(), 0.01+0.08*r.Float64()))
	for j := 0; j < n; j++ {
		f.Data[j], f.Data[n+j] = float32(360*r.Float64()), float32(r.Float64())
		switch r.Intn(12) {
		case 0: // hues on integers, where ranges start and end
			f.Data[j] = float32(r.Intn(360))
		case 1:
			f.Data[n+j] = float32(r.Intn(2))
		}
		if f.Data[j] >= 360 {
			f.Data[j] = 0
		}
	}
	g := &img{f: f, in: kit.Copy32(f.Data), n: n, shape: i % 5, pre: kit.MetaOf(f)}
	lo, mean, hi, sd := kit.MMM(f.Data[2*n:])
	g.loc, g.sc, g.l0, g.l1 = float64(mean), sd, float64(lo), float64(hi)
	return g
}

func (g *img) run(c *kit.C, op ops.Operator) []float32 {
	ctx, _ := kit.Context()
	copy(g.f.Data, g.in)
	g.f.Stats.Clear()
	if c.Rng.Intn(2) == 0 { // stale cached statistics must not matter
		g.f.Stats.Location()
		g.f.Stats.Noise()
	}
	out, err := kit.Run1(op, g.f, ctx)
	if err != nil || out == nil {
		c.Fatal("%T: error %v", op, err)
	}
	kit.CheckMeta(c, out, g.pre, fmt.Sprintf("%T", op))
	kit.CheckStats(c, out, fmt.Sprintf("%T", op))
	return out.Data
}

// pix returns the values an operator should give for a pixel, and whether the
// pixel is changed at all; sure=false for pixels at a decision boundary.
type pix func(h, s, l float64) (H, S, L float64, changed, sure bool)

func (g *img) check(c *kit.C, op ops.Operator, p pix, tol [3]float64, what string) {
	out := g.run(c, op)
	sel, un := 0, 0
	for j := 0; j < g.n; j++ {
		h, s, l := g.in[j], g.in[j+g.n], g.in[j+2*g.n]
		oh, os, ol := out[j], out[j+g.n], out[j+2*g.n]
		H, S, L, changed, sure := p(float64(h), float64(s), float64(l))
		for _, v := range []float32{oh, os, ol} {
			if !kit.Finite(v) {
				c.Fatal("%s: %v,%v,%v becomes %v,%v,%v", what, h, s, l, oh, os, ol)
			}
		}
		if !(oh >= 0 && oh < 360 && os >= 0 && os <= 1) {
			c.Fatal("%s: %v,%v,%v becomes %v,%v,%v, out of range", what, h, s, l, oh, os, ol)
		}
		if !sure {
			continue
		}
		if !changed {
			if !kit.Same(h, oh) || !kit.Same(s, os) || !kit.Same(l, ol) {
				c.Fatal("%s: unselected pixel %v,%v,%v becomes %v,%v,%v", what, h, s, l, oh, os, ol)
			}
			un++
			continue
		}
		sel++
		dh := math.Abs(float64(oh) - H)
		if dh > 180 {
			dh = 360 - dh
		}
		if !(dh <= tol[0]) || !(math.Abs(float64(os)-S) <= tol[1]) || !(math.Abs(float64(ol)-L) <= tol[2]) {
			c.Fatal("%s: %v,%v,%v becomes %v,%v,%v, want %v,%v,%v", what, h, s, l, oh, os, ol, H, S, L)
		}
		// channels the operator does not touch
		if tol[0] == 0 && !kit.Same(h, oh) || tol[1] == 0 && !kit.Same(s, os) || tol[2] == 0 && !kit.Same(l, ol) {
			c.Fatal("%s: %v,%v,%v becomes %v,%v,%v, changes other channels", what, h, s, l, oh, os, ol)
		}
	}
	c.Count("selected pixels compared", sel)
	c.Count("unselected pixels compared", un)
	g.selected, g.untouched = sel, un
}

func (g *img) same(c *kit.C, op ops.Operator, what string) {
	out := g.run(c, op)
	for j := range out {
		if !kit.Same(out[j], g.in[j]) {
			c.Fatal("neutral %s changes channel %d pixel %d from %v to %v", what, j/g.n, j%g.n, g.in[j], out[j])
		}
	}
	c.Count("neutral runs", 1)
}

// lum checks a luminance operator: hue and saturation stay, luminance follows the curve
func (g *img) lum(c *kit.C, op ops.Operator, fn func(v float64) (float64, bool), tol float64, what string) []float32 {
	out := g.run(c, op)
	for j := 0; j < g.n; j++ {
		if !kit.Same(out[j], g.in[j]) || !kit.Same(out[j+g.n], g.in[j+g.n]) {
			c.Fatal("%s changes hue or saturation of pixel %d", what, j)
		}
		v, o := g.in[j+2*g.n], out[j+2*g.n]
		if !kit.Finite(o) {
			c.Fatal("%s: luminance %v becomes %v", what, v, o)
		}
		if fn == nil {
			continue
		}
		if w, sure := fn(float64(v)); sure && !(math.Abs(w-float64(o)) <= tol*math.Max(1, math.Abs(w))) {
			c.Fatal("%s: luminance %v becomes %v, want %v", what, v, o, w)
		}
	}
	c.Count("luminance pixels compared", g.n)
	return out[2*g.n:]
}

func inRange(h, from, to float64) bool {
	if from <= to {
		return h > from && h < to
	}
	return h > from || h < to
}

func hueRange(r *rand.Rand) (float32, float32) {
	a, b := float32(r.Intn(360)), float32(r.Intn(360))
	switch r.Intn(6) {
	case 0:
		return 295, 40
	case 1:
		return 100, 190
	case 2:
		return a, a
	case 3:
		return 0, 360
	}
	return a, b
}

func main() {
	kit.Main("C26", "one evaluation = one colour operator applied to one image; distinct = operator x image shape class x parameter class", func(k *kit.K) {
		kit.ExactStats()
		n := k.N(60, 2500)
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("neutbackground/%d", i), func(c *kit.C) {
				r := c.Rng
				g := image(r, i)
				lo := float32(3*r.Float64() - 1)
				hi := lo + float32(2*r.Float64())
				switch i % 7 {
				case 3:
					hi = lo
				case 5:
					hi = lo - 0.3
				}
				if lo <= 0 && hi <= 0 {
					g.same(c, hsl.NewOpHSLNeutralizeBackground(lo, hi), "background neutralization")
					return
				}
				L0, L1 := g.loc+g.sc*float64(lo), g.loc+g.sc*float64(hi)
				g.check(c, hsl.NewOpHSLNeutralizeBackground(lo, hi), func(h, s, l float64) (float64, float64, float64, bool, bool) {
					if math.Abs(l-L0) < 1e-5 || math.Abs(l-L1) < 1e-5 {
						return 0, 0, 0, false, false
					}
					if l < L0 {
						return h, 0, l, true, true
					}
					if l < L1 {
						return h, s * (l - L0) / (L1 - L0), l, true, L1-L0 > 1e-3
					}
					return h, s, l, false, true
				}, [3]float64{0, 2e-4 + 1e-6/math.Max(1e-3, math.Abs(L1-L0)), 0}, fmt.Sprintf("background neutralization %v..%v sigma, %v..%v", lo, hi, L0, L1))
				c.Seen("neutbg", i%7, g.shape, g.selected > 0, g.untouched > 0)
			})
			k.Case(fmt.Sprintf("satgamma/%d", i), func(c *kit.C) {
				r := c.Rng
				g := image(r, i)
				gm, sig := float32([]float64{0.3, 0.8, 1.5, 1.75, 3}[r.Intn(5)]), float32(3*r.Float64()-1)
				th := g.loc + g.sc*float64(sig)
				g.check(c, hsl.NewOpHSLSaturationGamma(gm, sig), func(h, s, l float64) (float64, float64, float64, bool, bool) {
					return h, math.Pow(s, 1/float64(gm)), l, l >= th, math.Abs(l-th) > 1e-5
				}, [3]float64{0, 2e-5, 0}, fmt.Sprintf("saturation gamma %v above %v", gm, th))
				g.same(c, hsl.NewOpHSLSaturationGamma(1, sig), "saturation gamma")
				c.Seen("satgamma", gm, g.shape, g.selected > 0, g.untouched > 0)
			})
			k.Case(fmt.Sprintf("selsat/%d", i), func(c *kit.C) {
				r := c.Rng
				g := image(r, i)
				from, to := hueRange(r)
				fac := float32([]float64{0, 0.25, 0.5, 1.5, 4, 1.01, -0.5}[r.Intn(7)])
				g.check(c, hsl.NewOpHSLSelectiveSaturation(from, to, fac), func(h, s, l float64) (float64, float64, float64, bool, bool) {
					return h, math.Max(0, math.Min(1, s*float64(fac))), l, inRange(h, float64(from), float64(to)), true
				}, [3]float64{0, 2e-6, 0}, fmt.Sprintf("saturation of hues %v..%v times %v", from, to, fac))
				g.same(c, hsl.NewOpHSLSelectiveSaturation(from, to, 1), "selective saturation")
				c.Seen("selsat", from > to, from == to, fac, g.shape)
			})
			k.Case(fmt.Sprintf("rothue/%d", i), func(c *kit.C) {
				r := c.Rng
				g := image(r, i)
				from, to := hueRange(r)
				off, sig := float32(r.Intn(721)-360), float32(3*r.Float64()-1)
				if r.Intn(4) == 0 {
					off = -30
				}
				if off == 0 {
					off = 1
				}
				th := g.loc + g.sc*float64(sig)
				g.check(c, hsl.NewOpHSLRotateHue(from, to, off, sig), func(h, s, l float64) (float64, float64, float64, bool, bool) {
					H := math.Mod(h+float64(off)+720, 360)
					return H, s, l, l >= th && inRange(h, float64(from), float64(to)), math.Abs(l-th) > 1e-5
				}, [3]float64{1e-3, 0, 0}, fmt.Sprintf("rotation of hues %v..%v by %v above %v", from, to, off, th))
				g.same(c, hsl.NewOpHSLRotateHue(from, to, 0, sig), "hue rotation")
				c.Seen("rothue", from > to, from == to, off > 0, g.shape, g.selected > 0)
			})
			k.Case(fmt.Sprintf("scnr/%d", i), func(c *kit.C) { scnr(c, i) })
			k.Case(fmt.Sprintf("lum/%d", i), func(c *kit.C) { lum(c, i) })
			k.Case(fmt.Sprintf("refuse/%d", i), func(c *kit.C) {
				r := c.Rng
				w, h := 1+r.Intn(20), 1+r.Intn(20)
				all := []ops.Operator{hsl.NewOpHSLNeutralizeBackground(1, 2), hsl.NewOpHSLSaturationGamma(2, 1), hsl.NewOpHSLSelectiveSaturation(10, 20, 2), hsl.NewOpHSLRotateHue(1, 2, 3, 1), hsl.NewOpHSLSCNR(1),
					hsl.NewOpHSLMidtones(2, 1), hsl.NewOpHSLGamma(2), hsl.NewOpHSLGammaPP(2, 1), hsl.NewOpHSLUnsharpMask(1, 1, 1), hsl.NewOpHSLScaleBlack(0.01), hsl.NewOpHSLStretchIterative(0.1, 0.01), hsl.NewOpHSLScaleOffsetChannel(r.Intn(3), 2, 0.1)}
				for _, op := range all {
					ctx, _ := kit.Context()
					var f *fits.Image
					switch i % 3 {
					case 0:
						f = kit.Img(1, w, h, kit.Sky(r, w*h, 0.3, 0.02))
					case 1:
						f = fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 2}, nil)
					case 2:
						f = fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 4}, nil)
					}
					in := kit.Copy32(f.Data)
					if _, err := kit.Run1(op, f, ctx); err == nil {
						c.Fatal("%T on an image of dimensions %v gives no error", op, f.Naxisn)
					}
					for j := range in {
						if !kit.Same(in[j], f.Data[j]) {
							c.Fatal("%T changes an image of dimensions %v it refuses", op, f.Naxisn)
						}
					}
				}
				g := image(r, i)
				for _, ch := range []int{-1, 3, 100} {
					ctx, _ := kit.Context()
					if _, err := kit.Run1(hsl.NewOpHSLScaleOffsetChannel(ch, 2, 0), g.f, ctx); err == nil {
						c.Fatal("channel %d gives no error", ch)
					}
				}
				c.Seen("refuse", i%3)
			})
		}
	})
}

func scnr(c *kit.C, i int) {
	r := c.Rng
	g := image(r, i)
	fac := float32([]float64{0.25, 0.5, 1, r.Float64()}[r.Intn(4)])
	if i%2 == 0 { // colours converted from RGB
		for j := 0; j < g.n; j++ {
			var p [3]float64
			for x := range p {
				p[x] = r.Float64()
			}
			h, ch, L := luvLCh(p[0], p[1], p[2])
			s := 0.0
			if L > 0.1 && L < 99.9 {
				s = math.Min(1, ch/maxChroma(L, h))
			}
			g.in[j], g.in[j+g.n], g.in[j+2*g.n] = float32(h), float32(s), float32(L/100)
			if g.in[j] >= 360 {
				g.in[j] = 0
			}
		}
	}
	out := g.run(c, hsl.NewOpHSLSCNR(fac))
	changed := 0
	for j := 0; j < g.n; j++ {
		h, s, l := float64(g.in[j]), float64(g.in[j+g.n]), float64(g.in[j+2*g.n])
		oh, os, ol := float64(out[j]), float64(out[j+g.n]), out[j+2*g.n]
		if !kit.Same(ol, g.in[j+2*g.n]) {
			c.Fatal("SCNR changes luminance %v to %v", l, ol)
		}
		if !(oh >= 0 && oh < 360 && os >= 0 && os <= 1) {
			c.Fatal("SCNR: %v,%v,%v becomes hue %v saturation %v", h, s, l, oh, os)
		}
		p := toRGB(h, s, l)
		G := p[1]
		if m := (p[0] + p[2]) / 2; m < G {
			G = float64(fac)*m + (1-float64(fac))*G
			changed++
		}
		wh, wc, wl := luvLCh(p[0], G, p[2])
		if wl < 0.1 || wl > 99.5 || l < 1e-3 || l > 0.995 {
			continue
		}
		ws := math.Min(1, wc/maxChroma(wl, wh))
		dh := math.Abs(oh - wh)
		if dh > 180 {
			dh = 360 - dh
		}
		// hue and saturation errors weighted by chroma
		if math.Abs(os-ws) > 2e-3 || dh*wc/57 > 0.05 {
			c.Fatal("SCNR %v: %v,%v,%v = RGB %.5f becomes hue %v saturation %v, want %v, %v", fac, h, s, l, p, oh, os, wh, ws)
		}
	}
	g.same(c, hsl.NewOpHSLSCNR(0), "SCNR")
	c.Count("SCNR pixels compared", g.n)
	c.Count("SCNR pixels with less green", changed)
	c.Seen("scnr", fac, g.shape, i%2)
}

func lum(c *kit.C, i int) {
	r := c.Rng
	g := image(r, i)
	switch i % 8 {
	case 0:
		gm := float32(0.3 + 3*r.Float64())
		g.lum(c, hsl.NewOpHSLGamma(gm), func(v float64) (float64, bool) { return math.Pow(v, 1/float64(gm)), true }, 2e-5, fmt.Sprintf("gamma %v", gm))
		g.same(c, hsl.NewOpHSLGamma(1), "gamma")
	case 1:
		gm, sig := float32(0.3+3*r.Float64()), float32(4*r.Float64()-1)
		from := g.loc + float64(sig)*g.sc
		g.lum(c, hsl.NewOpHSLGammaPP(gm, sig), func(v float64) (float64, bool) {
			if math.Abs(v-from) < 1e-3 {
				return 0, false
			}
			if v < from || v >= 1 || from >= 1 {
				return v, true
			}
			return from + (1-from)*math.Pow((v-from)/(1-from), 1/float64(gm)), true
		}, 1e-4, fmt.Sprintf("gammaPP %v from %v", gm, from))
		g.same(c, hsl.NewOpHSLGammaPP(1, sig), "gammaPP")
	case 2:
		ch := r.Intn(3)
		sc, of := float32(0.5+r.Float64()), float32(r.Float64()-0.5)
		out := g.run(c, hsl.NewOpHSLScaleOffsetChannel(ch, sc, of))
		for j := range out {
			if j/g.n != ch {
				if !kit.Same(out[j], g.in[j]) {
					c.Fatal("scaling channel %d changes channel %d", ch, j/g.n)
				}
			} else if w := float64(g.in[j])*float64(sc) + float64(of); !kit.Near(out[j], float32(w), 1e-5, 1e-5) {
				c.Fatal("channel %d: %v * %v + %v gives %v, want %v", ch, g.in[j], sc, of, out[j], w)
			}
		}
		g.same(c, hsl.NewOpHSLScaleOffsetChannel(ch, 1, 0), "scale and offset")
		c.Seen("channel", ch)
	case 3:
		if g.sc < 1e-3 {
			return
		}
		m := 0.01 + 0.8*r.Float64()
		mid, bl := float32(m/g.sc), float32(4*r.Float64()-0.5)
		m = float64(mid) * g.sc
		black := math.Max(0, g.loc-float64(bl)*g.sc)
		if black > 0.9 {
			return
		}
		mtf := func(v float64) float64 { return v * (m - 1) / ((2*m-1)*v - m) }
		lo := mtf(black)
		g.lum(c, hsl.NewOpHSLMidtones(mid, bl), func(v float64) (float64, bool) {
			return math.Max(0, math.Min(1, (mtf(v)-lo)/(1-lo))), true
		}, 1e-5*(1+10/m/(1-lo)), fmt.Sprintf("midtones %v black %v", m, black))
		g.same(c, hsl.NewOpHSLMidtones(0, 1), "midtones")
	case 4:
		// the target is given as linear intensity
		lin := float32(0.0005 + 0.05*r.Float64())
		to := lOf(float64(lin)) / 100
		if math.Abs(to-g.loc) < 1e-4 || g.loc > 0.95 {
			return
		}
		if g.loc < to {
			g.same(c, hsl.NewOpHSLScaleBlack(lin), "black point below the target")
			return
		}
		black := (to - g.loc) / (to - 1)
		g.lum(c, hsl.NewOpHSLScaleBlack(lin), func(v float64) (float64, bool) { return math.Max(0, (v-black)/(1-black)), true }, 5e-5, fmt.Sprintf("scaleBlack from %v to %v", g.loc, to))
		g.same(c, hsl.NewOpHSLScaleBlack(0), "scaleBlack")
	case 5:
		sig, gain, th := float32(0.5+2*r.Float64()), float32(0.2+2*r.Float64()), float32(2*r.Float64()-0.5)
		// the same as unsharp masking the luminance as a mono image
		m := kit.Img(1, int(g.f.Naxisn[0]), int(g.f.Naxisn[1]), kit.Copy32(g.in[2*g.n:]))
		ctx, _ := kit.Context()
		ref, err := kit.Run1(stretch.NewOpUnsharpMask(sig, gain, th), m, ctx)
		if err != nil {
			c.Fatal("unsharp mask: %v", err)
		}
		at := g.loc + g.sc*float64(th)
		out := g.lum(c, hsl.NewOpHSLUnsharpMask(sig, gain, th), nil, 0, "unsharp mask")
		for j := range out {
			if math.Abs(float64(g.in[2*g.n+j])-at) > 1e-5 && math.Abs(float64(out[j]-ref.Data[j])) > 1e-5 {
				c.Fatal("unsharp mask %v %v %v of %v: luminance %d becomes %v, as a mono image %v", sig, gain, th, g.f.Naxisn, j, out[j], ref.Data[j])
			}
		}
		kit.CheckRange(c, out, g.l0-1e-6, g.l1+1e-6, "unsharp mask")
		g.same(c, hsl.NewOpHSLUnsharpMask(sig, 0, th), "unsharp mask")
	default:
		target, tscale := float32(0.05+0.15*r.Float64()), float32(0.002+0.01*r.Float64())
		n := g.n
		loc := math.Pow(10, -2+1.5*r.Float64())
		if i%8 == 7 && n > 500 { // background only, where the targets are reachable
			scale := math.Min(loc/5, float64(tscale)*(0.1+0.5*r.Float64()))
			if gg := math.Log(loc) / math.Log(float64(target)); gg > 1 {
				scale = math.Min(scale, 0.5*float64(tscale)*loc*gg/float64(target))
			}
			copy(g.in[2*n:], kit.Noise(r, n, loc, scale))
		} else {
			copy(g.in[2*n:], kit.Sky(r, n, loc, loc/10))
		}
		for j := 2 * n; j < 3*n; j++ {
			g.in[j] = float32(math.Max(0, math.Min(1, float64(g.in[j]))))
		}
		out := g.lum(c, hsl.NewOpHSLStretchIterative(target, tscale), nil, 0, "stretch")
		kit.CheckMonotone(c, g.in[2*n:], out, 2e-6, "stretch")
		kit.CheckRange(c, out, -1e-6, 1+1e-6, "stretch")
		_, mean, _, sd := kit.MMM(out)
		if i%8 == 7 && n > 500 {
			if math.Abs(float64(mean-target)) > 0.03*float64(target)+0.3*sd || math.Abs(sd/float64(tscale)-1) > 0.25 {
				c.Fatal("stretch to %v/%v ends at %v/%v", target, tscale, mean, sd)
			}
			c.Count("stretch targets reached", 1)
		}
		g.same(c, hsl.NewOpHSLStretchIterative(0, 0), "stretch")
	}
	c.Seen("lum", i%8, g.shape)
	c.Sample("luminance operator %d on %v", i%8, g.f.Naxisn)
}
