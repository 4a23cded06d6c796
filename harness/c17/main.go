// C17: monitor for image statistics: every statistic of every image that leaves
// an operator is compared with a float64 recomputation from its pixels and with
// fresh statistics, with any subset of the statistics cached before.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

var names = []string{"min", "max", "mean", "stddev", "location", "scale", "noise"}

func get(s *stats.Stats, i int) float32 {
	switch i {
	case 0:
		return s.Min()
	case 1:
		return s.Max()
	case 2:
		return s.Mean()
	case 3:
		return s.StdDev()
	case 4:
		return s.Location()
	case 5:
		return s.Scale()
	}
	return s.Noise()
}

// own noise estimate: mean absolute response to the Laplacian difference mask
func noise(d []float32, w int) float64 {
	h := len(d) / w
	if w < 3 || h < 3 {
		return 0
	}
	sum := 0.0
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			p := func(dx, dy int) float64 { return float64(d[(y+dy)*w+x+dx]) }
			sum += math.Abs(p(-1, -1) - 2*p(0, -1) + p(1, -1) - 2*p(-1, 0) + 4*p(0, 0) - 2*p(1, 0) + p(-1, 1) - 2*p(0, 1) + p(1, 1))
		}
	}
	return sum * math.Sqrt(math.Pi/2) / 6 / float64(w-2) / float64(h-2)
}

// judge compares all statistics, queried in random order, with the pixels.
// repeats tells how often the statistics went through a scaling of cached values.
func judge(c *kit.C, s *stats.Stats, d []float32, w int, what string) {
	lo, mean, hi, sd := kit.MMM(d)
	if kit.HasNaN(d) {
		c.Count("images with NaN pixels", 1)
		return
	}
	mag := math.Max(math.Abs(float64(lo)), math.Abs(float64(hi)))
	want := []float64{float64(lo), float64(hi), float64(mean), sd, float64(mean), sd, noise(d, w)}
	for _, i := range c.Rng.Perm(7) {
		v := float64(get(s, i))
		tol := 3e-5*math.Abs(want[i]) + 3e-6*mag
		if i >= 2 {
			tol += 3e-6 * float64(hi-lo)
		}
		if i == 6 {
			tol += 1e-3*want[i] + 3e-6*mag
		}
		if !(math.Abs(v-want[i]) <= tol) {
			c.Fatal("%s: reported %s %v, the %d pixels have %v (min %v max %v)", what, names[i], v, len(d), want[i], lo, hi)
		}
		c.Count("statistics compared", 1)
	}
	// asking again gives the same values
	for _, i := range c.Rng.Perm(7) {
		if a, b := get(s, i), get(s, i); !kit.Same(a, b) {
			c.Fatal("%s: %s is %v, then %v", what, names[i], a, b)
		}
	}
}

func judgeImage(c *kit.C, f *fits.Image, what string) {
	if f.Stats == nil {
		c.Fatal("%s: no statistics", what)
	}
	judge(c, f.Stats, f.Data, int(f.Naxisn[0]), what)
	f.Stats.Clear() // statistics are tied to the current pixels, not to an old array
	judge(c, f.Stats, f.Data, int(f.Naxisn[0]), what+", after clearing the cache")
}

func query(c *kit.C, f *fits.Image) string {
	mask := c.Rng.Intn(128)
	switch c.Rng.Intn(4) {
	case 0:
		mask = 127
	case 1:
		mask = 1 << c.Rng.Intn(7)
	}
	for _, i := range c.Rng.Perm(7) {
		if mask>>uint(i)&1 == 1 {
			get(f.Stats, i)
		}
	}
	return fmt.Sprintf("%07b", mask)
}

func rnd(r *rand.Rand, lo, hi float64) float32 { return float32(lo + (hi-lo)*r.Float64()) }

func sky(c *kit.C, id, w, h int) *fits.Image {
	r := c.Rng
	d := kit.Noise(r, w*h, 0.05+0.2*r.Float64(), 0.002+0.01*r.Float64())
	for _, s := range kit.StarField(r, w, h, w*h/350, 7, 7) {
		s.Flux, s.Sigma = 1+3*r.Float64(), 1+r.Float64()
		kit.Render(d, w, h, s)
	}
	for j := range d {
		d[j] = float32(math.Max(0, math.Min(1, float64(d[j]))))
	}
	return kit.Img(id, w, h, d)
}

type step struct {
	name string
	op   func(r *rand.Rand) ops.Operator
	rgb  int // 0 mono only, 1 colour only, 2 both
}

func steps(dir string, i int) []step {
	return []step{
		{"badPixel", func(r *rand.Rand) ops.Operator { return pre.NewOpBadPixel(rnd(r, 1, 4), rnd(r, 1, 5), nil) }, 0},
		{"badPixelBayer", func(r *rand.Rand) ops.Operator {
			return pre.NewOpBadPixel(rnd(r, 1, 4), rnd(r, 1, 5), pre.NewOpDebayer("G", "RGGB"))
		}, 0},
		{"debayer", func(r *rand.Rand) ops.Operator {
			return pre.NewOpDebayer([]string{"R", "G", "B"}[r.Intn(3)], []string{"RGGB", "GRBG", "BGGR", "GBRG"}[r.Intn(4)])
		}, 0},
		{"debandHoriz", func(r *rand.Rand) ops.Operator { return pre.NewOpDebandHoriz(rnd(r, 20, 60), 64, rnd(r, 2, 4)) }, 0},
		{"debandVert", func(r *rand.Rand) ops.Operator { return pre.NewOpDebandVert(rnd(r, 20, 60), 64, rnd(r, 2, 4)) }, 0},
		{"bin", func(r *rand.Rand) ops.Operator { return pre.NewOpBin(int32(2 + r.Intn(3))) }, 0},
		{"backExtract", func(r *rand.Rand) ops.Operator { return pre.NewOpBackExtract(16, 4, 1.5, 0, "") }, 0},
		{"starDetect", func(r *rand.Rand) ops.Operator { return pre.NewOpStarDetect(8, 1.5, 0, 1.4, "") }, 0},
		{"calibrate", func(r *rand.Rand) ops.Operator {
			n := []string{filepath.Join(dir, "dark.fits"), filepath.Join(dir, "flat.fits")}
			switch i % 3 {
			case 0:
				n[0] = ""
			case 1:
				n[1] = ""
			}
			return pre.NewOpCalibrate(n[0], n[1])
		}, 0},
		{"normRange", func(r *rand.Rand) ops.Operator { return stretch.NewOpNormalizeRange() }, 2},
		{"stretch", func(r *rand.Rand) ops.Operator {
			return stretch.NewOpStretchIterative(rnd(r, 0.05, 0.3), rnd(r, 0.005, 0.05))
		}, 2},
		{"midtones", func(r *rand.Rand) ops.Operator { return stretch.NewOpMidtones(rnd(r, 1, 9), rnd(r, 0, 3)) }, 2},
		{"gamma", func(r *rand.Rand) ops.Operator { return stretch.NewOpGamma(rnd(r, 0.4, 3)) }, 2},
		{"gammaPP", func(r *rand.Rand) ops.Operator { return stretch.NewOpGammaPP(rnd(r, 0.4, 3), rnd(r, -1, 3)) }, 2},
		{"scaleBlack", func(r *rand.Rand) ops.Operator { return stretch.NewOpScaleBlack(rnd(r, 0.001, 0.1)) }, 2},
		{"blur", func(r *rand.Rand) ops.Operator { return stretch.NewOpGaussianBlur(rnd(r, 0.5, 2)) }, 2},
		{"usm", func(r *rand.Rand) ops.Operator {
			return stretch.NewOpUnsharpMask(rnd(r, 0.5, 2), rnd(r, 0.3, 2), rnd(r, 0, 2))
		}, 2},
		{"matchHist", func(r *rand.Rand) ops.Operator {
			return post.NewOpMatchHistogram(post.HistoNormMode(1 + r.Intn(4)))
		}, 0},
		{"align", func(r *rand.Rand) ops.Operator { return post.NewOpAlign(50, 1, post.OOBModeOwnLocation) }, 0},
		{"alignRef", func(r *rand.Rand) ops.Operator { return post.NewOpAlign(50, 1, post.OOBModeRefLocation) }, 0},
		{"stack", func(r *rand.Rand) ops.Operator { return stack.NewOpStack(stack.StackMode(r.Intn(5)), 0, 3, 3) }, 0},
		{"save", func(r *rand.Rand) ops.Operator {
			return ops.NewOpSave(filepath.Join(dir, []string{"s%d.fits", "s%d.tif", "s%d.jpg", "s%d.fits.gz"}[r.Intn(4)]), ops.EMMinMax, 1)
		}, 2},
		{"rgbToHSLuv", func(r *rand.Rand) ops.Operator { return rgb.NewOpRGBToHSLuv() }, 1},
		{"rgbBalance", func(r *rand.Rand) ops.Operator {
			return rgb.NewOpRGBBalance(8, 0.05, 0, 0, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1})
		}, 1},
		// these work on HSLuv images
		{"hsluvToRGB", func(r *rand.Rand) ops.Operator { return rgb.NewOpHSLuvToRGB() }, 1},
		{"hslApplyLum", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLApplyLum() }, 1},
		{"hslNeutBack", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLNeutralizeBackground(rnd(r, 0, 1), rnd(r, 1, 2)) }, 1},
		{"hslSatGamma", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLSaturationGamma(rnd(r, 1.2, 2), rnd(r, 0, 1)) }, 1},
		{"hslSelSat", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLSelectiveSaturation(295, 40, 0.5) }, 1},
		{"hslRotHue", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLRotateHue(20, 330, -30, rnd(r, -1, 1)) }, 1},
		{"hslSCNR", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLSCNR(rnd(r, 0.2, 1)) }, 1},
		{"hslMidtones", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLMidtones(rnd(r, 1, 9), rnd(r, 0, 3)) }, 1},
		{"hslGamma", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLGamma(rnd(r, 0.4, 3)) }, 1},
		{"hslGammaPP", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLGammaPP(rnd(r, 0.4, 3), rnd(r, 0, 1)) }, 1},
		{"hslScaleOffset", func(r *rand.Rand) ops.Operator {
			return hsl.NewOpHSLScaleOffsetChannel(r.Intn(3), rnd(r, 0.5, 1), rnd(r, 0, 0.1))
		}, 1},
		{"hslUSM", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLUnsharpMask(rnd(r, 0.5, 2), rnd(r, 0.3, 2), 0) }, 1},
		{"hslScaleBlack", func(r *rand.Rand) ops.Operator { return hsl.NewOpHSLScaleBlack(rnd(r, 0.0001, 0.003)) }, 1},
		{"hslStretch", func(r *rand.Rand) ops.Operator {
			return hsl.NewOpHSLStretchIterative(rnd(r, 0.05, 0.3), rnd(r, 0.005, 0.05))
		}, 1},
	}
}

func main() {
	kit.Main("C17", "one evaluation = one image or buffer whose seven statistics were compared with its pixels after one step; distinct = operator x cached statistics", func(k *kit.K) {
		kit.ExactStats()
		n := k.N(100, 4000)
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("buffer/%d", i), func(c *kit.C) { buffer(c, i) })
			k.Case(fmt.Sprintf("scaled/%d", i), func(c *kit.C) { scaled(c, i) })
			k.Case(fmt.Sprintf("load/%d", i), func(c *kit.C) { load(c, i) })
		}
		for i := 0; i < k.N(6, 150); i++ {
			ns := len(steps("", 0))
			for j := 0; j < ns; j++ {
				k.Case(fmt.Sprintf("step/%d/%d", i, j), func(c *kit.C) { oneStep(c, i, j) })
			}
			k.Case(fmt.Sprintf("chain/%d", i), func(c *kit.C) { chain(c, i) })
			k.Case(fmt.Sprintf("combine/%d", i), func(c *kit.C) { combine(c, i) })
		}
	})
}

// statistics of plain buffers of every length, alignment and magnitude
func buffer(c *kit.C, i int) {
	r := c.Rng
	n := 1 + i%70
	if i%3 == 0 {
		n = 1 + r.Intn(20000)
	}
	w := 1 + r.Intn(n)
	if i%4 == 1 {
		w = 1 + r.Intn(40)
		n = w * (1 + n/w)
	}
	n = n / w * w
	off := r.Intn(9)
	buf := make([]float32, n+off)
	d := buf[off:]
	a := math.Pow(10, 8*r.Float64()-3)
	b := a * float64([]int{0, 1, 10, -1, -100}[r.Intn(5)])
	for j := range d {
		d[j] = float32(a*r.NormFloat64() + b)
	}
	switch r.Intn(6) {
	case 0: // extremes at the ends
		d[0], d[n-1] = float32(b-9*a), float32(b+9*a)
	case 1:
		d[n-1] = float32(b - 9*a)
	case 2:
		for j := range d {
			d[j] = float32(b)
		}
	}
	judge(c, stats.NewStats(d, int32(w)), d, w, fmt.Sprintf("buffer of %d at offset %d, width %d", n, off, w))
	// one channel of several
	if w := 1 + r.Intn(5); n >= 3 {
		m := n / 3 / w * w
		if m > 0 {
			ch := r.Intn(3)
			judge(c, stats.NewStatsForChannel(d[:3*m], int32(w), ch, 3), d[ch*m:(ch+1)*m], w, fmt.Sprintf("channel %d of %d pixels", ch, 3*m))
		}
	}
	c.Seen("buffer", n%8, off, w < 8)
	c.Sample("buffer of %d width %d", n, w)
}

// cached statistics scaled along with the pixels, and replaced buffers
func scaled(c *kit.C, i int) {
	r := c.Rng
	w, h := 1+r.Intn(50), 1+r.Intn(40)
	f := kit.Img(i, w, h, kit.Noise(r, w*h, 100, 10))
	q := ""
	for s := 0; s < 3; s++ {
		q = query(c, f)
		m, o := rnd(r, 0.3, 3), rnd(r, -50, 50)
		if r.Intn(4) == 0 {
			m = -m
		}
		if r.Intn(5) == 0 {
			m = 1
		}
		f.ApplyScaleOffset(m, o)
		judge(c, f.Stats, f.Data, w, fmt.Sprintf("scaled by %v + %v with %s cached", m, o, q))
	}
	query(c, f)
	e := kit.Noise(r, w*h, 5, 1)
	f.Data = e
	f.Stats.SetData(e)
	judge(c, f.Stats, e, w, "replaced data")
	sn := f.Stats.Snapshot()
	lo, mean, hi, sd := kit.MMM(e)
	if w := []float64{float64(lo), float64(hi), float64(mean), float64(mean), sd}; true {
		for j := range e {
			e[j] = 7 // a snapshot is independent of the data
		}
		for j, v := range []float32{sn.Min(), sn.Max(), sn.Mean(), sn.Location(), sn.Scale()} {
			if math.Abs(float64(v)-w[j]) > 1e-4*math.Abs(w[j])+1e-5 {
				c.Fatal("snapshot value %d is %v, want %v", j, v, w[j])
			}
		}
	}
	c.Seen("scaled", q)
}

// statistics of images read from files
func load(c *kit.C, i int) {
	r := c.Rng
	w, h := 1+r.Intn(60), 1+r.Intn(40)
	dir := filepath.Base(c.Dir())
	var f *fits.Image
	if i%3 == 2 {
		f = kit.RGBImg(i, w, h, kit.Noise(r, 3*w*h, 0.5, 0.1))
	} else {
		f = kit.Img(i, w, h, kit.Noise(r, w*h, 0.5, 0.1))
	}
	name := filepath.Join(dir, []string{"a.fits", "a.fits.gz", "a.tif"}[i%3])
	ctx, _ := kit.Context()
	if _, err := kit.Run1(ops.NewOpSave(name, ops.EMMinMax, 1), f, ctx); err != nil {
		c.Fatal("saving %s: %v", name, err)
	}
	judgeImage(c, f, "image saved as "+name[len(dir):])
	g, err := kit.Load(name)
	if err != nil {
		c.Fatal("loading %s: %v", name, err)
	}
	judgeImage(c, g, "image loaded from "+name[len(dir):])
	c.Seen("load", i%3, w*h < 10)
}

func prepare(c *kit.C, w, h int, dir string) {
	r := c.Rng
	if err := kit.Img(0, w, h, kit.Noise(r, w*h, 0.02, 0.002)).WriteFile(filepath.Join(dir, "dark.fits")); err != nil {
		c.Fatal("VK: %v", err)
	}
	fl := kit.Noise(r, w*h, 0.8, 0.02)
	if err := kit.Img(0, w, h, fl).WriteFile(filepath.Join(dir, "flat.fits")); err != nil {
		c.Fatal("VK: %v", err)
	}
}

// context with a reference frame, as after reference selection
func refContext(c *kit.C, f *fits.Image) *ops.Context {
	ctx, _ := kit.Context()
	w, h := int(f.Naxisn[0]), int(f.Naxisn[1])
	rf := kit.Img(99, w, h, nil)
	dx, dy := c.Rng.Intn(4), c.Rng.Intn(4) // shifted by a few pixels
	for j := range rf.Data {
		rf.Data[j] = f.Data[(j/w+dy)%h*w+(j+dx)%w]*0.9 + 0.03
	}
	if _, err := kit.Run1(pre.NewOpStarDetect(8, 1.5, 0, 1.4, ""), rf, ctx); err != nil {
		c.Fatal("VK: %v", err)
	}
	ctx.MatchHisto = rf.Stats.Snapshot()
	ctx.AlignStars, ctx.AlignHFR, ctx.AlignNaxisn = rf.Stars, rf.HFR, rf.Naxisn
	return ctx
}

func colour(c *kit.C, id, w, h int, hsluv bool) *fits.Image {
	r := c.Rng
	m := sky(c, id, w, h)
	f := kit.RGBImg(id, w, h, nil)
	for ch := 0; ch < 3; ch++ {
		g := rnd(r, 0.6, 0.9)
		for j, v := range m.Data {
			f.Data[ch*w*h+j] = v * g
		}
	}
	ctx, _ := kit.Context()
	if _, err := kit.Run1(pre.NewOpStarDetect(8, 1.5, 0, 1.4, ""), m, ctx); err != nil {
		c.Fatal("VK: %v", err)
	}
	f.Stars, f.HFR = m.Stars, m.HFR
	if hsluv {
		if _, err := kit.Run1(rgb.NewOpRGBToHSLuv(), f, ctx); err != nil {
			c.Fatal("VK: %v", err)
		}
	}
	return f
}

func oneStep(c *kit.C, i, j int) {
	r := c.Rng
	w, h := 60+r.Intn(60), 60+r.Intn(50)
	dir := filepath.Base(c.Dir())
	st := steps(dir, i)[j]
	var f *fits.Image
	isColour := st.rgb == 1 || st.rgb == 2 && i%2 == 1
	if isColour {
		f = colour(c, i, w, h, st.rgb == 1 && len(st.name) > 3 && st.name[:3] == "hsl")
	} else {
		f = sky(c, i, w, h)
	}
	if st.name == "calibrate" {
		prepare(c, w, h, dir)
	}
	var ctx *ops.Context
	if isColour {
		ctx, _ = kit.Context()
		ctx.LumFrame = sky(c, 9, w, h)
		query(c, ctx.LumFrame)
	} else {
		ctx = refContext(c, f)
	}
	if st.name == "align" || st.name == "alignRef" {
		if _, err := kit.Run1(pre.NewOpStarDetect(8, 1.5, 0, 1.4, ""), f, ctx); err != nil {
			c.Fatal("VK: %v", err)
		}
	}
	q := query(c, f)
	in := kit.Copy32(f.Data)
	what := fmt.Sprintf("%s (%s cached)", st.name, q)
	ins := []*fits.Image{f}
	if st.name == "stack" {
		for x := 1; x < 5; x++ {
			g := sky(c, x, w, h)
			query(c, g)
			ins = append(ins, g)
		}
	}
	outs, err := kit.RunAll(st.op(r), kit.Proms(ins), ctx)
	if err != nil || len(outs) != 1 || outs[0] == nil {
		if st.name == "rgbBalance" || st.name == "align" || st.name == "alignRef" {
			c.Seen("refused", st.name)
			c.Count("refused: "+st.name, 1)
			return
		}
		c.Fatal("%s: %v", what, err)
	}
	o := outs[0]
	judgeImage(c, o, what)
	if o != f { // the input, if kept, still has its own statistics
		judgeImage(c, f, "input of "+what)
	}
	changed := len(o.Data) != len(in)
	for x := 0; !changed && x < len(in); x++ {
		changed = o.Data[x] != in[x]
	}
	if changed {
		c.Count("steps that changed pixels: "+st.name, 1)
	}
	c.Seen(st.name, q)
}

// several steps in a row with queries in between
func chain(c *kit.C, i int) {
	r := c.Rng
	w, h := 60+r.Intn(60), 60+r.Intn(50)
	dir := filepath.Base(c.Dir())
	all := steps(dir, i)
	var f *fits.Image
	isColour := i%2 == 1
	if isColour {
		f = colour(c, i, w, h, true)
	} else {
		f = sky(c, i, w, h)
	}
	what := ""
	for s := 0; s < 8; s++ {
		st := all[r.Intn(len(all))]
		hslOp := len(st.name) > 3 && st.name[:3] == "hsl" && st.name != "hsluvToRGB"
		switch st.name {
		case "calibrate", "align", "alignRef", "stack", "rgbBalance", "rgbToHSLuv", "hsluvToRGB", "debayer", "bin", "badPixelBayer":
			continue
		}
		if isColour != hslOp {
			continue
		}
		var ctx *ops.Context
		if isColour {
			ctx, _ = kit.Context()
		} else {
			ctx = refContext(c, f)
		}
		q := query(c, f)
		what += fmt.Sprintf(" %s(%s)", st.name, q)
		o, err := kit.Run1(st.op(r), f, ctx)
		if err != nil || o == nil {
			c.Fatal("chain%s: %v", what, err)
		}
		f = o
		if !isColour && kit.HasNaN(f.Data) {
			c.Count("chains stopped at a NaN, as gamma of a negative pixel", 1)
			break
		}
		if r.Intn(3) == 0 {
			judge(c, f.Stats, f.Data, int(f.Naxisn[0]), "chain"+what)
		}
	}
	judgeImage(c, f, "chain"+what)
	c.Seen("chain", what)
	c.Sample("chain%s", what)
}

// operators with several inputs: combination, batches, reference selection
func combine(c *kit.C, i int) {
	r := c.Rng
	w, h := 60+r.Intn(40), 60+r.Intn(40)
	ctx, _ := kit.Context()
	var fs []*fits.Image
	for x := 0; x < 3+r.Intn(2); x++ {
		fs = append(fs, sky(c, x, w, h))
		query(c, fs[x])
	}
	o, err := kit.RunAll(rgb.NewOpRGBCombine(), kit.Proms(fs), ctx)
	if err != nil || len(o) != 1 {
		c.Fatal("combine: %v", err)
	}
	judgeImage(c, o[0], "rgbCombine")
	for _, f := range fs {
		judgeImage(c, f, "channel of rgbCombine")
	}
	// reference selection and histogram matching of all frames
	ctx, _ = kit.Context()
	fs = nil
	for x := 0; x < 4; x++ {
		fs = append(fs, sky(c, x, w, h))
		query(c, fs[x])
	}
	sel := ref.NewOpSelectReference(ref.SRHisto, "%location", nil)
	match := post.NewOpMatchHistogram(post.HNMLocScale)
	outs, err := kit.RunAll(ops.NewOpSequence(sel, match), kit.Proms(fs), ctx)
	if err != nil {
		c.Fatal("matching: %v", err)
	}
	for _, f := range outs {
		judgeImage(c, f, "frame matched to the reference")
	}
	c.Seen("combine", i)
}
