// Package jobs makes sessions of frames on disk and complete jobs on them.
package jobs

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

// jitter is a step which passes frames on after a short random delay
type jitter struct {
	ops.OpBase
	seed int64
}

func (j *jitter) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.Promise, err error) {
	r := rand.New(rand.NewSource(j.seed))
	for _, in := range ins {
		in := in
		d := time.Duration(r.Intn(3000)*r.Intn(2)) * time.Microsecond
		outs = append(outs, func() (*fits.Image, error) {
			f, err := in()
			if d > 0 {
				time.Sleep(d)
			} else {
				runtime.Gosched()
			}
			return f, err
		})
	}
	return
}

// a set of frames on disk
type Session struct {
	Dir  string // relative
	N    int
	W, H int
}

func write(c *kit.C, name string, w, h int, d []float32, exp float32) {
	f := kit.Img(0, w, h, d)
	f.Exposure = exp
	if err := f.WriteFile(name); err != nil {
		c.Fatal("VK: %v", err)
	}
}

// shoot makes light frames of one star field, shifted and with bad pixels, and
// dark and flat frames
func Shoot(c *kit.C, base, name string, n, w, h int) Session {
	r := c.Rng
	s := Session{Dir: filepath.Join(base, name), N: n, W: w, H: h}
	os.MkdirAll(s.Dir, 0755)
	field := kit.StarField(r, w, h, 20+r.Intn(15), 16, 11)
	for i := range field {
		field[i].Flux, field[i].Sigma = 40000+160000*r.Float64(), 1.4+0.2*r.Float64()
	}
	dark := kit.Noise(r, w*h, 20, 1)
	for i := 0; i < w*h/200; i++ {
		dark[r.Intn(w*h)] = 2000
	}
	flat := make([]float32, w*h)
	for i := range flat {
		x, y := float64(i%w-w/2)/float64(w), float64(i/w-h/2)/float64(h)
		flat[i] = float32(30000 * (1 - 0.3*(x*x+y*y)))
	}
	write(c, s.Dir+"/dark.fits", w, h, dark, 1)
	write(c, s.Dir+"/flat.fits", w, h, flat, 1)
	for k := 0; k < n; k++ {
		d := kit.Noise(r, w*h, 200+20*r.Float64(), 4+2*r.Float64())
		dx, dy := r.Float64()*4-2, r.Float64()*4-2
		for _, st := range field {
			st.X += dx
			st.Y += dy
			kit.Render(d, w, h, st)
		}
		for i := range d {
			d[i] = d[i]*flat[i]/30000 + dark[i]
		}
		for i := 0; i < 8; i++ {
			d[r.Intn(w*h)] = 5000 * r.Float32()
		}
		write(c, fmt.Sprintf("%s/light%02d.fits", s.Dir, k), w, h, d, float32(10+r.Intn(3)))
	}
	return s
}

type Recipe struct {
	Name  string
	Build func(out string) *ops.OpSequence
	Same  bool // results are reproducible
	MemMB int
}

func Stack(r *rand.Rand, s Session, delays bool) Recipe {
	dark, flat := "", ""
	if r.Intn(2) == 0 {
		dark = s.Dir + "/dark.fits"
	}
	if r.Intn(2) == 0 {
		flat = s.Dir + "/flat.fits"
	}
	deb := []string{"", "", "R", "G"}[r.Intn(4)]
	dh, dv := float32(r.Intn(2)*50), float32(r.Intn(2)*50)
	bin := int32([]int{0, 0, 2}[r.Intn(3)])
	bpl, bph := float32(3), float32(5)
	if r.Intn(4) == 0 {
		bpl, bph = 0, 0
	}
	if deb != "" {
		bin = 0
	}
	grid := int32([]int{0, 0, 24}[r.Intn(3)])
	minStars := []int{0, 0, 8}[r.Intn(3)]
	hm := []post.HistoNormMode{post.HNMNone, post.HNMLocation, post.HNMLocScale, post.HNMLocBlack}[r.Intn(4)]
	modes := []string{"%starsHFR", "%location", fmt.Sprint(r.Intn(s.N)), s.Dir + "/light01.fits"}
	hr, ar := modes[r.Intn(4)], modes[r.Intn(4)]
	st := stack.StackMode(r.Intn(7))
	wt := []stack.StackWeighting{stack.StWeightNone, stack.StWeightExposure, stack.StWeightInverseNoise}[r.Intn(3)]
	lo, hi := float32(2+2*r.Float32()), float32(2+2*r.Float32())
	if st == stack.StMedian || st == stack.StMean {
		lo, hi = -1, -1
	} else if r.Intn(3) == 0 {
		lo, hi = -1, -1
	}
	batched := r.Intn(4) != 0
	saves := r.Intn(2) == 0
	mem := 4000
	same := true
	if batched && s.N >= 20 && r.Intn(3) != 0 {
		mem, same = 1, false // several batches, at random
	}
	js := r.Int63()
	name := fmt.Sprintf("n=%d %dx%d dark=%v flat=%v debayer=%q bin=%d deband=%v/%v bp=%v grid=%d minStars=%d histo=%d/%s align=%s stack=%d/%d/%.2f/%.2f batched=%v mem=%d saves=%v",
		s.N, s.W, s.H, dark != "", flat != "", deb, bin, dh, dv, bpl, grid, minStars, hm, filepath.Base(hr), filepath.Base(ar), st, wt, lo, hi, batched, mem, saves)
	build := func(out string) *ops.OpSequence {
		sv := func(pat string) string {
			if saves {
				return out + pat
			}
			return ""
		}
		jit := func(k int64) ops.Operator {
			if delays {
				return &jitter{seed: js + k}
			}
			return ops.NewOpSequence()
		}
		od := pre.NewOpDebayer(deb, "RGGB")
		sd := pre.NewOpStarDetect(8, 1.2, 0, 1.4, sv("/stars%02d.fits"))
		per := ops.NewOpSequence(
			jit(1),
			pre.NewOpCalibrate(dark, flat),
			pre.NewOpBadPixel(bpl, bph, od),
			od,
			pre.NewOpDebandHoriz(dh, 16, 3), pre.NewOpDebandVert(dv, 16, 3),
			pre.NewOpScaleOffset(1.5, 2),
			pre.NewOpBin(bin),
			jit(2),
			sd,
			pre.NewOpBackExtract(grid, 4, 1.5, 0, sv("/back%d.fits")),
			ref.NewOpExportStats(out+"/stats.html"),
			ops.NewOpSave(sv("/pre%03d.fits"), ops.EMMinMax, 1),
			jit(3),
			ref.NewOpSelectReference(ref.SRHisto, hr, sd),
			jit(4),
			ref.NewOpSelectReference(ref.SRAlign, ar, sd),
			ref.NewOpFilter(minStars),
			post.NewOpMatchHistogram(hm),
			jit(5),
			post.NewOpAlign(20, 2, post.OOBModeNaN),
			ops.NewOpSave(sv("/post%03d.fits"), ops.EMMinMax, 1),
			stack.NewOpStack(st, wt, lo, hi),
			pre.NewOpStarDetect(8, 1.2, 0, 1.4, ""),
			ops.NewOpSave(sv("/batch%d.fits"), ops.EMMinMax, 1),
		)
		var stk ops.Operator = per
		if batched {
			stk = stack.NewOpStackBatches(per)
		}
		return ops.NewOpSequence(
			ops.NewOpLoadMany([]string{s.Dir + "/light*.fits"}),
			stk,
			pre.NewOpStarDetect(8, 1.2, 0, 1.4, ""),
			ops.NewOpSave(out+"/out.fits", ops.EMMinMax, 1),
			ops.NewOpSave(out+"/out.tif", ops.EM0_65535, 1),
			ops.NewOpSave(out+"/out.jpg", ops.EM0_65535, 1.8),
		)
	}
	return Recipe{"stack " + name, build, same, mem}
}

func Colour(r *rand.Rand, s Session) Recipe {
	n := 3 + r.Intn(2)
	usm := float32(r.Intn(2))
	stretchOps := r.Intn(2) == 0
	build := func(out string) *ops.OpSequence {
		var files []string
		for i := 0; i < n; i++ {
			files = append(files, fmt.Sprintf("%s/light%02d.fits", s.Dir, i))
		}
		sd := pre.NewOpStarDetect(8, 1.2, 0, 1.4, "")
		seq := ops.NewOpSequence(
			ops.NewOpLoadMany(files),
			pre.NewOpBadPixel(3, 5, nil),
			sd,
			ref.NewOpSelectReference(ref.SRAlign, "%rgb", sd),
			post.NewOpAlign(20, 2, post.OOBModeOwnLocation),
			rgb.NewOpRGBCombine(),
			rgb.NewOpRGBBalance(16, 0.1, 0, 0.5, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1}),
			rgb.NewOpRGBToHSLuv(),
			hsl.NewOpHSLApplyLum(),
			hsl.NewOpHSLUnsharpMask(1.5, usm, 1),
			hsl.NewOpHSLNeutralizeBackground(0.5, 1.5),
			hsl.NewOpHSLSaturationGamma(1.5, 1),
			hsl.NewOpHSLSelectiveSaturation(295, 40, 0.5),
			hsl.NewOpHSLRotateHue(100, 190, -30, 1),
			hsl.NewOpHSLSCNR(0.3),
		)
		if stretchOps {
			seq.Append(hsl.NewOpHSLStretchIterative(0.1, 0.02))
			seq.Append(hsl.NewOpHSLGamma(1.2))
		}
		seq.Append(rgb.NewOpHSLuvToRGB())
		seq.Append(ops.NewOpSave(out+"/out.fits", ops.EMMinMax, 1))
		seq.Append(ops.NewOpSave(out+"/out.tif", ops.EM0_1, 1))
		seq.Append(ops.NewOpSave(out+"/out.jpg", ops.EM0_1, 2.2))
		return seq
	}
	return Recipe{fmt.Sprintf("colour n=%d %dx%d usm=%v stretch=%v", n, s.W, s.H, usm, stretchOps), build, true, 4000}
}

func Stretch(r *rand.Rand, s Session) Recipe {
	align := r.Intn(2) == 0
	build := func(out string) *ops.OpSequence {
		sd := pre.NewOpStarDetect(8, 1.2, 0, 1.4, "")
		seq := ops.NewOpSequence(
			ops.NewOpLoadMany([]string{s.Dir + "/light*.fits"}),
			pre.NewOpBadPixel(3, 5, nil),
			stretch.NewOpNormalizeRange(),
			stretch.NewOpStretchIterative(0.2, 0.05),
			stretch.NewOpMidtones(2, 1), stretch.NewOpGamma(1.1), stretch.NewOpGammaPP(1.2, 1), stretch.NewOpScaleBlack(0.05),
		)
		if align {
			seq.Append(sd)
			seq.Append(ref.NewOpSelectReference(ref.SRAlign, "0", sd))
		}
		for _, op := range []ops.Operator{stretch.NewOpGaussianBlur(1.2), stretch.NewOpUnsharpMask(1.5, 1, 0.5),
			ops.NewOpSave(out+"/o%02d.fits", ops.EMMinMax, 1), ops.NewOpSave(out+"/o%02d.tif", ops.EM0_1, 1), ops.NewOpSave(out+"/o%02d.jpg", ops.EM0_1, 1)} {
			seq.Append(op)
		}
		return seq
	}
	return Recipe{fmt.Sprintf("stretch n=%d %dx%d align=%v", s.N, s.W, s.H, align), build, true, 4000}
}
