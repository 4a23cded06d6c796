// C25: monitor for colour combination, HSLuv conversion, luminance application
// and colour balance, against an independent float64 HSLuv implementation.
package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// ---- independent HSLuv reference -------------------------------------------

var mRGB = [3][3]float64{{3.240969941904521, -1.537383177570093, -0.498610760293}, {-0.96924363628087, 1.87596750150772, 0.041555057407175}, {0.055630079696993, -0.20397695888897, 1.056971514242878}}
var mXYZ = [3][3]float64{{0.41239079926595, 0.35758433938387, 0.18048078840183}, {0.21263900587151, 0.71516867876775, 0.072192315360733}, {0.019330818715591, 0.11919477979462, 0.95053215224966}}

const refU, refV, kappa, eps = 0.19783000664283, 0.46831999493879, 903.2962962, 0.0088564516

func lOf(y float64) float64 {
	if y > eps {
		return 116*math.Cbrt(y) - 16
	}
	return y * kappa
}

// rgb -> hue, chroma, L in 0..100
func luvLCh(r, g, b float64) (h, ch, L float64) {
	var v [3]float64
	for i := range v {
		v[i] = mXYZ[i][0]*r + mXYZ[i][1]*g + mXYZ[i][2]*b
	}
	L = lOf(v[1])
	d := v[0] + 15*v[1] + 3*v[2]
	if d <= 0 || L < 1e-8 {
		return 0, 0, 0
	}
	u, w := 13*L*(4*v[0]/d-refU), 13*L*(9*v[1]/d-refV)
	ch = math.Hypot(u, w)
	h = math.Atan2(w, u) * 180 / math.Pi
	if h < 0 {
		h += 360
	}
	return
}

func maxChroma(L, h float64) float64 {
	hr := h * math.Pi / 180
	sub1 := math.Pow(L+16, 3) / 1560896
	sub2 := sub1
	if sub1 <= eps {
		sub2 = L / kappa
	}
	m := math.MaxFloat64
	for i := 0; i < 3; i++ {
		for t := 0.0; t < 2; t++ {
			top1 := (284517*mRGB[i][0] - 94839*mRGB[i][2]) * sub2
			top2 := (838422*mRGB[i][2]+769860*mRGB[i][1]+731718*mRGB[i][0])*L*sub2 - 769860*t*L
			bot := (632260*mRGB[i][2]-126452*mRGB[i][1])*sub2 + 126452*t
			l := (top2 / bot) / (math.Sin(hr) - top1/bot*math.Cos(hr))
			if l >= 0 && l < m {
				m = l
			}
		}
	}
	return m
}

// hue, s, l in 0..1 -> linear RGB, not clamped
func toRGB(h, s, l float64) (out [3]float64) {
	L := l * 100
	if L < 1e-6 {
		return
	}
	ch := 0.0
	if L < 99.999999 {
		ch = s * maxChroma(L, h)
	}
	hr := h * math.Pi / 180
	u, v := ch*math.Cos(hr)/(13*L)+refU, ch*math.Sin(hr)/(13*L)+refV
	y := L / kappa
	if L > 8 {
		y = math.Pow((L+16)/116, 3)
	}
	x := y * 9 * u / (4 * v)
	z := y * (12 - 3*u - 20*v) / (4 * v)
	for i := range out {
		out[i] = mRGB[i][0]*x + mRGB[i][1]*y + mRGB[i][2]*z
	}
	return
}

// ---- helpers ----------------------------------------------------------------

func colours(r *rand.Rand, n, mode int) []float32 {
	d := make([]float32, 3*n)
	for i := 0; i < n; i++ {
		var p [3]float64
		for j := range p {
			p[j] = r.Float64()
		}
		switch (mode + r.Intn(2)) % 6 {
		case 0: // neutral
			p[1], p[2] = p[0], p[0]
		case 1: // dark
			for j := range p {
				p[j] *= math.Pow(10, -4*r.Float64())
			}
		case 2: // gamut corners and edges
			for j := range p {
				if r.Intn(2) == 0 {
					p[j] = float64(r.Intn(2))
				}
			}
		case 4: // hues on the axes and diagonals of the chromaticity plane
			if p = toRGB(float64(r.Intn(9)*45)+1e-4*r.NormFloat64(), r.Float64(), 0.05+0.9*r.Float64()); true {
				for j := range p {
					p[j] = math.Min(1, math.Max(0, p[j]))
				}
			}
		case 3: // nearly neutral
			for j := 1; j < 3; j++ {
				p[j] = math.Min(1, math.Max(0, p[0]+1e-3*r.NormFloat64()))
			}
		}
		for j := range p {
			d[i+j*n] = float32(p[j])
		}
	}
	return d
}

func ok(c *kit.C, op ops.Operator, f *fits.Image, ctx *ops.Context) *fits.Image {
	out, err := kit.Run1(op, f, ctx)
	if err != nil || out == nil {
		c.Fatal("%T: unexpected error %v", op, err)
	}
	return out
}

func combineErr(fs []*fits.Image) (*fits.Image, error) {
	ctx, _ := kit.Context()
	out, err := kit.RunAll(rgb.NewOpRGBCombine(), kit.Proms(fs), ctx)
	if err != nil {
		return nil, err
	}
	if len(out) != 1 || out[0] == nil {
		return nil, nil // neither an image nor an error
	}
	return out[0], nil
}

func main() {
	kit.Main("C25", "one evaluation = one combination, conversion, luminance application or balance of one image; distinct = kind x parameter class x image class", func(k *kit.K) {
		kit.ExactStats()
		n := k.N(60, 2500)
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("combine/%d", i), func(c *kit.C) { combine(c, i) })
			k.Case(fmt.Sprintf("hsluv/%d", i), func(c *kit.C) { roundTrip(c, i) })
			k.Case(fmt.Sprintf("lum/%d", i), func(c *kit.C) { applyLum(c, i) })
			k.Case(fmt.Sprintf("balance/%d", i), func(c *kit.C) { balance(c, i) })
		}
	})
}

func combine(c *kit.C, i int) {
	r := c.Rng
	w, h := 1+r.Intn(60), 1+r.Intn(60)
	if i == 17 { // as wide as a camera chip
		w, h = 4200+r.Intn(500), 251+r.Intn(30)
	}
	cnt := []int{3, 4, 3, 4, 3, 1, 2, 5, 6}[i%9]
	a, b := math.Pow(10, 6*r.Float64()-2), 1000*(r.Float64()-0.3)
	mk := func(id, w, h int) *fits.Image {
		d := make([]float32, w*h)
		a, b := a, b
		if i%2 == 0 { // channels of different range
			a, b = a*(0.1+r.Float64()), b+a*(r.Float64()-0.5)
		}
		for j := range d {
			d[j] = float32(r.Float64()*a + b)
		}
		f := kit.Img(id, w, h, d)
		f.Exposure = float32(1 + r.Intn(500))
		return f
	}
	var fs []*fits.Image
	for j := 0; j < cnt; j++ {
		fs = append(fs, mk(j, w, h))
	}
	if cnt < 3 || cnt > 4 {
		if _, err := combineErr(fs); err == nil {
			c.Fatal("combining %d channels gives no error", cnt)
		}
		c.Seen("count error", cnt)
		return
	}
	if i%4 == 1 { // one channel of other dimensions
		p := r.Intn(cnt)
		w2, h2 := w+1, h
		switch r.Intn(4) {
		case 0:
			w2, h2 = w, h+1
		case 1:
			if w != h {
				w2, h2 = h, w
			}
		case 2:
			if w > 1 {
				w2 = w - 1
			}
		}
		fs[p] = mk(p, w2, h2)
		if _, err := combineErr(fs); err == nil {
			c.Fatal("combining %dx%d with channel %d of %dx%d gives no error", w, h, p, w2, h2)
		}
		c.Seen("size error", p, cnt)
		return
	}
	constant := i%8 == 6
	if constant {
		for _, f := range fs {
			for j := range f.Data {
				f.Data[j] = float32(b)
			}
		}
	}
	if i%8 == 2 { // one constant channel
		f := fs[r.Intn(3)]
		for j := range f.Data {
			f.Data[j] = float32(b)
		}
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	var in [][]float32
	exp := float32(0)
	for j, f := range fs {
		in = append(in, kit.Copy32(f.Data))
		if j < 3 {
			exp += f.Exposure
			for _, v := range f.Data {
				lo, hi = math.Min(lo, float64(v)), math.Max(hi, float64(v))
			}
		}
	}
	ctx, _ := kit.Context()
	ctx.AlignStars = []star.Star{{Index: 0, X: 0, Y: 0, Mass: 7, HFR: 2}}
	ctx.AlignHFR = 2
	outs, err := kit.RunAll(rgb.NewOpRGBCombine(), kit.Proms(fs), ctx)
	if err != nil || len(outs) != 1 || outs[0] == nil {
		c.Fatal("combining %d channels: %v", cnt, err)
	}
	o := outs[0]
	if !fits.EqualInt32Slice(o.Naxisn, []int32{int32(w), int32(h), 3}) || len(o.Data) != 3*w*h || int(o.Pixels) != 3*w*h {
		c.Fatal("combining %d %dx%d channels gives dimensions %v with %d pixels", cnt, w, h, o.Naxisn, len(o.Data))
	}
	span := hi - lo
	if constant || span == 0 {
		span = 1
	}
	tol := 1e-5 + 4e-7*math.Max(math.Abs(lo), math.Abs(hi))/span
	for j := range o.Data {
		want := (float64(in[j/(w*h)][j%(w*h)]) - lo) / span
		if hi == lo {
			if !kit.Finite(o.Data[j]) {
				c.Fatal("constant channels combine to %v", o.Data[j])
			}
			continue
		}
		if !(math.Abs(float64(o.Data[j])-want) <= tol) {
			c.Fatal("combination %dx%d: plane %d pixel %d is %v, want %v from %v in %v..%v", w, h, j/(w*h), j%(w*h), o.Data[j], want, in[j/(w*h)][j%(w*h)], lo, hi)
		}
	}
	if !kit.Near(o.Exposure, exp, 1e-3, 1e-6) {
		c.Fatal("combined exposure %v, sum of channels %v", o.Exposure, exp)
	}
	if len(o.Stars) != 1 || o.Stars[0].Mass != 7 || o.HFR != 2 {
		c.Fatal("combination does not carry the alignment stars: %v", o.Stars)
	}
	if cnt == 4 && ctx.LumFrame == nil {
		c.Fatal("the fourth channel is not kept as luminance")
	}
	if cnt == 4 { // scaled to [0,1] unless it is within
		lmin, lmax := math.Inf(1), math.Inf(-1)
		for _, v := range in[3] {
			lmin, lmax = math.Min(lmin, float64(v)), math.Max(lmax, float64(v))
		}
		sp, off := lmax-lmin, lmin
		if lmin >= 0 && lmax <= 1 {
			sp, off = 1, 0
		}
		for j, v := range ctx.LumFrame.Data {
			if sp > 0 && !(math.Abs(float64(v)-(float64(in[3][j])-off)/sp) <= 1e-5+4e-7*math.Max(math.Abs(lmin), math.Abs(lmax))/sp) {
				c.Fatal("luminance frame with pixels %v..%v: pixel %d is %v, from %v", lmin, lmax, j, v, in[3][j])
			}
		}
		c.Seen("luminance kept", lmin >= 0 && lmax <= 1)
	}
	for j, f := range fs {
		for x := range f.Data {
			if !kit.Same(f.Data[x], in[j][x]) {
				c.Fatal("combining modifies input channel %d", j)
			}
		}
	}
	kit.CheckStats(c, o, "combination")
	c.Count("pixels compared", len(o.Data))
	c.Seen("combine", cnt, constant, i%8, w*h < 10)
	c.Sample("combine %d channels %dx%d", cnt, w, h)
}

func roundTrip(c *kit.C, i int) {
	r := c.Rng
	w, h := 1+r.Intn(50), 1+r.Intn(50)
	if i == 17 { // as wide as a camera chip
		w, h = 4200+r.Intn(500), 251+r.Intn(30)
	}
	n := w * h
	f := kit.RGBImg(i, w, h, colours(r, n, i))
	in := kit.Copy32(f.Data)
	m := kit.MetaOf(f)
	ctx, _ := kit.Context()
	f.Stats.Location()
	o := ok(c, rgb.NewOpRGBToHSLuv(), f, ctx)
	kit.CheckStats(c, o, "HSLuv image")
	for j := 0; j < n; j++ {
		R, G, B := float64(in[j]), float64(in[j+n]), float64(in[j+2*n])
		H, S, L := float64(o.Data[j]), float64(o.Data[j+n]), float64(o.Data[j+2*n])
		if !(H >= 0 && H < 360 && S >= 0 && S <= 1 && L >= 0 && L <= 1) {
			c.Fatal("RGB %v,%v,%v: hue %v saturation %v luminance %v out of range", R, G, B, H, S, L)
		}
		wh, wc, wl := luvLCh(R, G, B)
		if math.Abs(L-math.Min(1, wl/100)) > 2e-5 {
			c.Fatal("RGB %v,%v,%v: luminance %v, want %v", R, G, B, L, wl/100)
		}
		if R == G && G == B && L < 0.9999 && S > 1e-3 {
			c.Fatal("neutral %v gets saturation %v", R, S)
		}
		if wl > 0.05 && wl < 99.9 {
			ws := wc / maxChroma(wl, wh)
			if math.Abs(S-math.Min(1, ws)) > 1e-3 {
				c.Fatal("RGB %v,%v,%v: saturation %v, want %v", R, G, B, S, ws)
			}
			if wc > 0.5 {
				if d := math.Abs(H - wh); math.Min(d, 360-d) > 0.05 {
					c.Fatal("RGB %v,%v,%v: hue %v, want %v", R, G, B, H, wh)
				}
			}
		}
	}
	o = ok(c, rgb.NewOpHSLuvToRGB(), o, ctx)
	kit.CheckMeta(c, o, m, "HSLuv round trip")
	kit.CheckStats(c, o, "round trip")
	worst := 0.0
	for j := range in {
		d := math.Abs(float64(o.Data[j]) - float64(in[j]))
		if !(d <= 2e-4) {
			p := j % n
			c.Fatal("RGB %v,%v,%v comes back from HSLuv as %v,%v,%v", in[p], in[p+n], in[p+2*n], o.Data[p], o.Data[p+n], o.Data[p+2*n])
		}
		worst = math.Max(worst, d)
	}
	for j := 0; j < n; j++ {
		if in[j] == in[j+n] && in[j] == in[j+2*n] {
			if math.Abs(float64(o.Data[j]-o.Data[j+n])) > 2e-5 || math.Abs(float64(o.Data[j]-o.Data[j+2*n])) > 2e-5 {
				c.Fatal("neutral %v becomes %v,%v,%v", in[j], o.Data[j], o.Data[j+n], o.Data[j+2*n])
			}
		}
	}
	// arbitrary HSLuv colours, as after changes of hue, saturation and luminance
	g := kit.RGBImg(i, w, h, nil)
	for j := 0; j < n; j++ {
		g.Data[j], g.Data[j+n], g.Data[j+2*n] = float32(360*r.Float64()), float32(r.Float64()), float32(r.Float64())
		if r.Intn(5) == 0 {
			g.Data[j+n] = float32(r.Intn(2))
		} else if r.Intn(10) == 0 { // out of gamut
			g.Data[j+n] = float32(1 + r.Float64()/2)
		}
	}
	hs := kit.Copy32(g.Data)
	o = ok(c, rgb.NewOpHSLuvToRGB(), g, ctx)
	for j := 0; j < n; j++ {
		want := toRGB(float64(hs[j]), float64(hs[j+n]), float64(hs[j+2*n]))
		mx := math.Max(1, math.Max(want[0], math.Max(want[1], want[2])))
		for x := 0; x < 3; x++ {
			v := float64(o.Data[j+x*n])
			if !(v >= -2e-5 || hs[j+n] > 1) || !(v <= 1+2e-5) || math.Abs(v-want[x]/mx) > 2e-4 {
				c.Fatal("HSLuv %v,%v,%v: channel %d is %v, want %v", hs[j], hs[j+n], hs[j+2*n], x, v, want[x]/mx)
			}
		}
	}
	c.Count("colours converted", 2*n)
	c.Seen("hsluv", i%6, n < 10)
	c.Sample("round trip %dx%d worst error %.2g", w, h, worst)
	// images without three channels
	for _, op := range []ops.Operator{rgb.NewOpRGBToHSLuv(), rgb.NewOpHSLuvToRGB(), hsl.NewOpHSLApplyLum()} {
		cx, _ := kit.Context()
		cx.LumFrame = kit.Img(9, w, h, make([]float32, n))
		mono := kit.Img(1, w, h, kit.Noise(r, n, 0.5, 0.1))
		if _, err := kit.Run1(op, mono, cx); err == nil {
			c.Fatal("%T on a mono image gives no error", op)
		}
	}
}

func applyLum(c *kit.C, i int) {
	r := c.Rng
	w, h := 1+r.Intn(50), 1+r.Intn(50)
	if i == 17 { // as wide as a camera chip
		w, h = 4200+r.Intn(500), 251+r.Intn(30)
	}
	n := w * h
	f := kit.RGBImg(i, w, h, colours(r, n, i))
	f.Exposure = float32(r.Intn(100))
	ctx, _ := kit.Context()
	f = ok(c, rgb.NewOpRGBToHSLuv(), f, ctx)
	hs := kit.Copy32(f.Data)
	if i%4 == 0 { // no luminance frame: unchanged
		o := ok(c, hsl.NewOpHSLApplyLum(), f, ctx)
		for j := range hs {
			if !kit.Same(hs[j], o.Data[j]) {
				c.Fatal("without luminance frame pixel %d changes", j)
			}
		}
		c.Seen("no lum")
		return
	}
	if i%4 == 1 {
		w2, h2 := w+1, h
		if r.Intn(2) == 0 {
			w2, h2 = w, h+3
		} else if w > 1 && r.Intn(2) == 0 {
			w2 = w - 1
		}
		ctx.LumFrame = kit.Img(3, w2, h2, kit.Noise(r, w2*h2, 0.5, 0.01))
		if _, err := kit.Run1(hsl.NewOpHSLApplyLum(), f, ctx); err == nil {
			c.Fatal("luminance frame %dx%d on %dx%d gives no error", w2, h2, w, h)
		}
		c.Seen("lum size error")
		return
	}
	lum := make([]float32, n)
	for j := range lum {
		lum[j] = float32(math.Pow(r.Float64(), float64(1+r.Intn(6))))
		if r.Intn(20) == 0 {
			lum[j] = float32(r.Intn(2))
		}
	}
	ctx.LumFrame = kit.Img(3, w, h, kit.Copy32(lum))
	ctx.LumFrame.Exposure = 50
	if i%2 == 1 {
		f.Stats.Location()
		ctx.LumFrame.Stats.Location()
	}
	want := f.Exposure + 50
	o := ok(c, hsl.NewOpHSLApplyLum(), f, ctx)
	if !kit.Near(o.Exposure, want, 1e-3, 0) {
		c.Fatal("exposure %v after applying luminance, want %v", o.Exposure, want)
	}
	for j := 0; j < n; j++ {
		if !kit.Same(o.Data[j], hs[j]) || !kit.Same(o.Data[j+n], hs[j+n]) {
			c.Fatal("applying luminance changes hue or saturation of pixel %d", j)
		}
		if wl := lOf(float64(lum[j])) / 100; math.Abs(float64(o.Data[j+2*n])-wl) > 2e-5 {
			c.Fatal("luminance of pixel %d is %v, want %v for linear %v", j, o.Data[j+2*n], wl, lum[j])
		}
	}
	kit.CheckStats(c, o, "luminance applied")
	// back in RGB, the relative luminance is that of the luminance frame unless out of gamut
	hl := kit.Copy32(o.Data)
	o = ok(c, rgb.NewOpHSLuvToRGB(), o, ctx)
	for j := 0; j < n; j++ {
		ref := toRGB(float64(hl[j]), float64(hl[j+n]), float64(hl[j+2*n]))
		if math.Max(ref[0], math.Max(ref[1], ref[2])) > 1-1e-6 {
			continue
		}
		y := mXYZ[1][0]*float64(o.Data[j]) + mXYZ[1][1]*float64(o.Data[j+n]) + mXYZ[1][2]*float64(o.Data[j+2*n])
		if math.Abs(y-float64(lum[j])) > 2e-4 {
			c.Fatal("pixel %d: relative luminance %v, luminance frame %v", j, y, lum[j])
		}
	}
	c.Count("luminances applied", n)
	c.Seen("lum", i%4, i%6, n < 10)
}

func balance(c *kit.C, i int) {
	r := c.Rng
	w, h := 100+r.Intn(160), 100+r.Intn(160)
	n := w * h
	block := int32(4 + r.Intn(10))
	border := float32([]float64{0, 0.05, 0.1, 0.2}[r.Intn(4)])
	nStars := 8 + r.Intn(20)
	skipB, skipD := float32(0), float32(0)
	switch r.Intn(3) {
	case 0:
		skipB = 0.25
	case 1:
		skipD = 0.5
	}
	gains, offs := [3]float64{}, [3]float64{}
	for ch := range gains {
		gains[ch], offs[ch] = 0.6+0.5*r.Float64(), 0.08*r.Float64()
	}
	grid := i%4 == 3 // a single dark block of an image which divides into blocks without rest
	if grid {
		border = 0
		w, h = (w+int(block)-1)/int(block)*int(block), (h+int(block)-1)/int(block)*int(block)
		n = w * h
	}
	base := kit.Noise(r, n, 0.2, 0.004)
	// the darkest area, aligned so that it contains whole blocks
	bx, by := int(float32(w)*border)+1, int(float32(h)*border)+1
	hole := 3 * int(block)
	if w-2*bx-2*int(block)-hole < 1 || h-2*by-2*int(block)-hole < 1 {
		return
	}
	hx, hy := bx+int(block)+r.Intn(w-2*bx-2*int(block)-hole), by+int(block)+r.Intn(h-2*by-2*int(block)-hole)
	nx, ny := 0, 0 // blocks
	if grid {
		hole, nx, ny = int(block), w/int(block), h/int(block)
		hx, hy = r.Intn(nx), r.Intn(ny)
		switch r.Intn(3) {
		case 0:
			hx = []int{0, nx - 1}[r.Intn(2)]
		case 1:
			hy = []int{0, ny - 1}[r.Intn(2)]
		}
		hx, hy = hx*hole, hy*hole
	}
	for y := hy; y < hy+hole; y++ {
		for x := hx; x < hx+hole; x++ {
			base[y*w+x] = 0.1
		}
	}
	f := kit.RGBImg(i, w, h, nil)
	for ch := 0; ch < 3; ch++ {
		for j, v := range base {
			f.Data[ch*n+j] = float32(float64(v)*gains[ch] + offs[ch])
		}
	}
	decoy := [2]int{-1, -1}
	if grid { // another block is darker in one channel, not on average
		if x, y := r.Intn(nx)*hole, r.Intn(ny)*hole; x != hx || y != hy {
			decoy = [2]int{x, y}
			dc := r.Intn(3)
			for ch := 0; ch < 3; ch++ {
				for j := 0; j < hole*hole; j++ {
					v := 0.19*gains[ch] + offs[ch]
					if ch == dc {
						v = 0.05*gains[ch] + offs[ch]
					}
					f.Data[ch*n+(y+j/hole)*w+x+j%hole] = float32(v)
				}
			}
		}
	}
	// areas in the border darker than the hole do not count
	if border >= 0.1 {
		for y := 0; y < by-2*int(block) && y < 2; y++ {
			for x := 0; x < w; x++ {
				f.Data[y*w+x], f.Data[n+y*w+x], f.Data[2*n+y*w+x] = 0.001, 0.0005, 0.002
			}
		}
	}
	if border >= 0.05 && i%2 == 0 { // all around, as far as blocks are excluded whatever their position
		ex, ey := int(float32(w)*border)-int(block), int(float32(h)*border)-int(block)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if x < ex || x >= w-ex || y < ey || y >= h-ey {
					f.Data[y*w+x], f.Data[n+y*w+x], f.Data[2*n+y*w+x] = 0.01, 0.02, 0.015
				}
			}
		}
	}
	sS, sE := int(float32(nStars)*skipB), nStars-int(float32(nStars)*skipD)
	ss := kit.StarField(r, w, h, nStars, 15, 14)
	var stars []star.Star
	for k, s := range ss {
		x, y := int(s.X), int(s.Y)
		if x+8 > hx && x-8 < hx+hole && y+8 > hy && y-8 < hy+hole || decoy[0] >= 0 && x+8 > decoy[0] && x-8 < decoy[0]+hole && y+8 > decoy[1] && y-8 < decoy[1]+hole {
			continue
		}
		_ = k
		hfr := 1.5 + 2.5*r.Float64()
		stars = append(stars, star.Star{Index: int32(y*w + x), X: float32(x), Y: float32(y), HFR: float32(hfr), Mass: float32(1000 - k)})
	}
	nStars = len(stars)
	if nStars < 4 {
		return
	}
	// stars whose circle reaches beyond the image
	for k := 0; k < 4; k++ {
		x, y := 12+r.Intn(w-24), h-1-r.Intn(2)
		switch {
		case k == 1:
			x, y = r.Intn(2), 12+r.Intn(h-24)
		case k == 2:
			x, y = w-1-r.Intn(2), 12+r.Intn(h-24)
		case k == 3 && border < 0.1:
			y = r.Intn(2)
		}
		if x+8 > hx && x-8 < hx+hole && y+8 > hy && y-8 < hy+hole || decoy[0] >= 0 && x+8 > decoy[0] && x-8 < decoy[0]+hole && y+8 > decoy[1] && y-8 < decoy[1]+hole {
			continue
		}
		s := star.Star{Index: int32(y*w + x), X: float32(x), Y: float32(y), HFR: float32(1.5 + 2.5*r.Float64())}
		at := r.Intn(len(stars) + 1)
		stars = append(stars[:at], append([]star.Star{s}, stars[at:]...)...)
	}
	nStars = len(stars)
	for k := range stars {
		stars[k].Mass = float32(1000 - k)
	}
	sS, sE = int(float32(nStars)*skipB), nStars-int(float32(nStars)*skipD)
	tint := [3]float64{0.7 + 0.3*r.Float64(), 0.7 + 0.3*r.Float64(), 0.7 + 0.3*r.Float64()}
	for k, s := range stars {
		amp := 0.25 + 0.1*r.Float64()
		var own, width [3]float64 // stars have their own colours, and channels different resolution
		for ch := range own {
			own[ch], width[ch] = 0.3*(r.Float64()-0.5), 0.8+0.4*r.Float64()
		}
		rr := int(s.HFR*0.75+0.5) + 2
		for dy := -rr; dy <= rr; dy++ {
			for dx := -rr; dx <= rr; dx++ {
				if x, y := int(s.X)+dx, int(s.Y)+dy; x < 0 || x >= w || y < 0 || y >= h {
					continue
				}
				p := (int(s.Y)+dy)*w + int(s.X) + dx
				for ch := 0; ch < 3; ch++ {
					g := math.Exp(-float64(dx*dx+dy*dy) / float64(2*s.HFR*s.HFR) * width[ch])
					t := tint[ch] + own[ch]
					if k < sS || k >= sE { // a different colour in skipped stars
						t = 1.7 - tint[ch]
					}
					f.Data[ch*n+p] += float32(amp * g * t * gains[ch])
				}
			}
		}
	}
	if i%2 == 1 { // bright colours at the other end of the rows of stars at the sides
		for y := 0; y < h; y++ {
			near := [2]bool{}
			for _, s := range stars {
				if math.Abs(float64(s.Y)-float64(y)) < 12 {
					near[0] = near[0] || int(s.X) < 12
					near[1] = near[1] || int(s.X) > w-12
				}
			}
			for k, x := range []int{0, w - 1} {
				if !near[k] && !(grid && (hx == 0 || hx+hole == w)) {
					f.Data[y*w+x], f.Data[2*n+y*w+x] = 0.5, 0.6
				}
			}
		}
	}
	for k, s := range stars { // pixels saturated in one channel
		if k%4 == i%4 {
			f.Data[(i+k)%3*n+int(s.Index)] = 1
		}
	}
	// a clipped pixel in each channel, so that the stars are below the clipping limit
	cp := (h-1)*w + w - 1
	if grid && hx+hole == w && hy+hole == h {
		cp = 0
	}
	for ch := 0; ch < 3; ch++ {
		f.Data[ch*n+cp] = 1
	}
	if border > 0 {
		f.Data[(h-2)*w+w-1] = 1
	}
	f.Stars, f.HFR = stars, 2
	sh, hi := fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1}
	if i%3 == 2 {
		sh, hi = fits.RGB{R: float32(0.9 + 0.1*r.Float64()), G: 1, B: float32(0.9 + 0.1*r.Float64())}, fits.RGB{R: 1, G: float32(0.9 + 0.1*r.Float64()), B: 0.95}
	}
	in := kit.Copy32(f.Data)
	ctx, _ := kit.Context()
	// parameters and images it cannot work with
	if i%5 == 4 {
		g := kit.RGBImg(i, w, h, kit.Copy32(f.Data))
		var op ops.Operator = rgb.NewOpRGBBalance(block, border, skipB, skipD, sh, hi)
		what := ""
		g.Stars = stars
		switch (i / 5) % 6 {
		case 0:
			g.Stars, what = nil, "no stars"
		case 1:
			op, what = rgb.NewOpRGBBalance(int32(w+h), border, skipB, skipD, sh, hi), "a block larger than the image"
		case 2:
			op, what = rgb.NewOpRGBBalance(0, border, skipB, skipD, sh, hi), "block size zero"
		case 3:
			op, what = rgb.NewOpRGBBalance(block, border, 0.6, 0.6, sh, hi), "all stars skipped"
		case 4:
			g, what = kit.Img(i, w, h, kit.Copy32(base)), "a mono image"
			g.Stars = stars
		case 5:
			op, what = rgb.NewOpRGBBalance(block, 1, skipB, skipD, sh, hi), "a border that leaves nothing"
		}
		if _, err := kit.Run1(op, g, ctx); err == nil {
			c.Fatal("balancing with %s gives no error", what)
		}
		c.Seen("balance error", what)
		return
	}
	o := ok(c, rgb.NewOpRGBBalance(block, border, skipB, skipD, sh, hi), f, ctx)
	kit.CheckStats(c, o, "balanced image")
	for j, v := range o.Data {
		if !(v >= 0 && v <= 1) {
			c.Fatal("balanced pixel %d is %v", j, v)
		}
	}
	var dark, st [3]float64
	for ch := 0; ch < 3; ch++ {
		dark[ch] = float64(o.Data[ch*n+(hy+hole/2)*w+hx+hole/2])
		for y := hy; y < hy+hole; y++ {
			for x := hx; x < hx+hole; x++ {
				if math.Abs(float64(o.Data[ch*n+y*w+x])-dark[ch]) > 1e-6 {
					c.Fatal("the dark area is no longer flat")
				}
			}
		}
		cnt := 0
		for _, s := range stars[sS:sE] {
			hf := s.HFR * 0.75
			rr := int(hf + 0.5)
			for dy := -rr; dy <= rr; dy++ {
				for dx := -rr; dx <= rr; dx++ {
					if x, y := int(s.X)+dx, int(s.Y)+dy; x < 0 || x >= w || y < 0 || y >= h {
						continue
					}
					q := (int(s.Y)+dy)*w + int(s.X) + dx
					if float32(dx*dx+dy*dy) <= (hf+0.01)*(hf+0.01) && in[q] < 1 && in[n+q] < 1 && in[2*n+q] < 1 {
						st[ch] += float64(o.Data[ch*n+(int(s.Y)+dy)*w+int(s.X)+dx])
						cnt++
					}
				}
			}
		}
		st[ch] /= float64(cnt)
		// one increasing linear map per channel
		var x0, x1, y0, y1 float64
		x0, x1 = math.Inf(1), math.Inf(-1)
		for j := 0; j < n; j++ {
			a, b := float64(in[ch*n+j]), float64(o.Data[ch*n+j])
			if b <= 0 || b >= 1 || a < float64(in[ch*n+hy*w+hx]) || a > 0.55 { // may be clipped in the first pass
				continue
			}
			if a < x0 {
				x0, y0 = a, b
			}
			if a > x1 {
				x1, y1 = a, b
			}
		}
		if x1 > x0+0.05 {
			sl := (y1 - y0) / (x1 - x0)
			for j := 0; j < n; j++ {
				a, b := float64(in[ch*n+j]), float64(o.Data[ch*n+j])
				if b > 0 && b < 1 && a >= x0 && a <= x1 && math.Abs(b-(y0+(a-x0)*sl)) > 1e-4 {
					c.Fatal("channel %d: pixel %d at %v becomes %v, not on the line %v + %v x", ch, j, a, b, y0-sl*x0, sl)
				}
			}
			if sl <= 0 {
				c.Fatal("channel %d is inverted, slope %v", ch, sl)
			}
		}
	}
	if math.Min(dark[0], math.Min(dark[1], dark[2])) <= 0 {
		c.Seen("dark area clipped")
		return
	}
	shT, hiT := [3]float64{float64(sh.R), float64(sh.G), float64(sh.B)}, [3]float64{float64(hi.R), float64(hi.G), float64(hi.B)}
	for ch := 1; ch < 3; ch++ {
		if math.Abs(dark[ch]/shT[ch]-dark[0]/shT[0]) > 2e-3 {
			c.Fatal("darkest block %v after balance to %v (block %d border %v)", dark, shT, block, border)
		}
		if math.Abs(st[ch]/hiT[ch]-st[0]/hiT[0]) > 2e-3 {
			c.Fatal("mean star colour %v after balance to %v (%d stars, %d..%d)", st, hiT, nStars, sS, sE)
		}
	}
	c.Count("images balanced", 1)
	c.Seen("balance", block, border, skipB, skipD, i%3)
	c.Sample("balance: darkest block %.4f, stars %.4f of %d..%d/%d", dark, st, sS, sE, nStars)
}
