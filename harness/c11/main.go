// C11: monitor for JSON job descriptions. Every operator type is described by a
// table of its parameters and their defaults. Descriptions with random values and
// omissions are parsed; what the parsed operator reports when serialized again and
// what it does to images is compared with an operator made by its constructor.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

type V map[string]interface{}

func (v V) f(k string) float32 { return v[k].(float32) }
func (v V) i(k string) int     { return v[k].(int) }
func (v V) s(k string) string  { return v[k].(string) }

type key struct {
	name string
	def  interface{}
	draw func(r *rand.Rand, dir string) interface{}
}

const (
	mono = iota
	colour
	hsluv
	three // three planes to combine
	none  // no input
)

type entry struct {
	typ   string
	kind  int
	keys  []key
	build func(v V) ops.Operator
}

func F(name string, def, lo, hi float64) key {
	return key{name, float32(def), func(r *rand.Rand, _ string) interface{} {
		if r.Intn(6) == 0 {
			return float32(0) // a value like any other, not an omission
		}
		if r.Intn(4) == 0 {
			return float32(math.Round(lo + (hi-lo)*r.Float64())) // often written without a fraction
		}
		return float32(lo + (hi-lo)*r.Float64())
	}}
}
func I(name string, def, lo, hi int) key {
	return key{name, def, func(r *rand.Rand, _ string) interface{} {
		if r.Intn(6) == 0 {
			return 0
		}
		return lo + r.Intn(hi-lo+1)
	}}
}
func S(name, def string, vals ...string) key {
	return key{name, def, func(r *rand.Rand, dir string) interface{} {
		if r.Intn(6) == 0 {
			return ""
		}
		return strings.ReplaceAll(vals[r.Intn(len(vals))], "DIR", dir)
	}}
}

// a nested operator or structure of its own
func N(name string, e entry, nilToo bool, def interface{}) key {
	d := def
	if def == nil && !nilToo {
		v := V{}
		for _, k := range e.keys {
			v[k.name] = k.def
		}
		d = v
	}
	return key{name, d, func(r *rand.Rand, dir string) interface{} {
		if nilToo && r.Intn(4) == 0 {
			return V(nil)
		}
		v := V{}
		for _, k := range e.keys {
			v[k.name] = k.draw(r, dir)
		}
		return v
	}}
}

func save(v V) *ops.OpSave {
	return ops.NewOpSave(v.s("filePattern"), ops.ExportMode(v.i("saveMode")), v.f("gamma"))
}
func starDetect(v V) *pre.OpStarDetect {
	o := pre.NewOpStarDetect(int32(v.i("radius")), v.f("sigma"), v.f("badPixelSigma"), v.f("inOutRatio"), "")
	if v["save"].(V) == nil {
		o.Save = nil
	} else {
		o.Save = save(v["save"].(V))
	}
	return o
}

func table() (es []entry) {
	bp := key{"badPixelSigma", float32(0), func(r *rand.Rand, _ string) interface{} {
		if r.Intn(3) > 0 {
			return float32(0)
		}
		return 5 * r.Float32()
	}}
	add := func(typ string, kind int, build func(v V) ops.Operator, keys ...key) entry {
		e := entry{typ, kind, keys, build}
		es = append(es, e)
		return e
	}
	pats := []string{"DIR/o%d.fits", "DIR/p%04d.tif", "DIR/q%d.jpg", "", "DIR/o%02d.fits.gz", "DIR/none/x%d.fits", "DIR/x.png"}
	sv := add("save", colour, func(v V) ops.Operator { return save(v) }, S("filePattern", "", pats...), I("saveMode", 0, 0, 3), F("gamma", 1, 0.5, 3))
	sv = add("save", mono, func(v V) ops.Operator { return save(v) }, S("filePattern", "", pats...), I("saveMode", 0, 0, 3), F("gamma", 1, 0.5, 3))
	add("load", none, func(v V) ops.Operator { return ops.NewOpLoad(v.i("id"), v.s("fileName")) }, I("id", 0, 0, 100), S("fileName", "", "DIR/a.fits", "DIR/b.fits", "", "DIR/missing.fits", "../a.fits"))
	add("loadMany", none, func(v V) ops.Operator {
		return ops.NewOpLoadMany(v["filePatterns"].([]string))
	}, key{"filePatterns", []string(nil), func(r *rand.Rand, dir string) interface{} {
		o := []string{}
		for i := r.Intn(4); i > 0; i-- {
			o = append(o, dir+[]string{"/a.fits", "/*.fits", "/[bc].fits", "/x*.fits"}[r.Intn(4)])
		}
		return o
	}})
	add("calibrate", mono, func(v V) ops.Operator { return pre.NewOpCalibrate(v.s("dark"), v.s("flat")) }, S("dark", "", "DIR/a.fits", "", "DIR/missing.fits"), S("flat", "", "DIR/b.fits", "", "DIR/c.fits"))
	db := add("debayer", mono, func(v V) ops.Operator { return pre.NewOpDebayer(v.s("channel"), v.s("colorFilterArray")) },
		S("channel", "", "R", "G", "B", ""), S("colorFilterArray", "RGGB", "RGGB", "GRBG", "GBRG", "BGGR"))
	add("badPixel", mono, func(v V) ops.Operator {
		d := v["debayer"].(V)
		if d == nil {
			return pre.NewOpBadPixel(v.f("sigmaLow"), v.f("sigmaHigh"), nil)
		}
		return pre.NewOpBadPixel(v.f("sigmaLow"), v.f("sigmaHigh"), pre.NewOpDebayer(d.s("channel"), d.s("colorFilterArray")))
	}, F("sigmaLow", 3, 0.5, 4), F("sigmaHigh", 5, 0.5, 4), N("debayer", db, true, V(nil)))
	add("scaleOffset", mono, func(v V) ops.Operator { return pre.NewOpScaleOffset(v.f("scale"), v.f("offset")) }, F("scale", 1, -2, 3), F("offset", 0, -1, 1))
	add("bin", mono, func(v V) ops.Operator { return pre.NewOpBin(int32(v.i("binSize"))) }, I("binSize", 1, 0, 4))
	add("backExtract", mono, func(v V) ops.Operator {
		o := pre.NewOpBackExtract(int32(v.i("gridSize")), v.f("hfrFactor"), v.f("sigma"), int32(v.i("clip")), "")
		if v["save"].(V) == nil {
			o.Save = nil
		} else {
			o.Save = save(v["save"].(V))
		}
		return o
	}, I("gridSize", 0, 8, 24), F("hfrFactor", 4, 1, 6), F("sigma", 1.5, 0.5, 3), I("clip", 0, 0, 3), N("save", sv, false, nil))
	sd := add("starDetect", mono, func(v V) ops.Operator { return starDetect(v) },
		I("radius", 16, 4, 16), F("sigma", 10, 1, 12), bp, F("inOutRatio", 10, 1, 3), N("save", sv, false, nil))
	add("debandHoriz", mono, func(v V) ops.Operator { return pre.NewOpDebandHoriz(v.f("percentile"), int32(v.i("window")), v.f("sigma")) },
		F("percentile", 50, 10, 90), I("window", 128, 1, 60), F("sigma", 3, 1, 4))
	add("debandVert", mono, func(v V) ops.Operator { return pre.NewOpDebandVert(v.f("percentile"), int32(v.i("window")), v.f("sigma")) },
		F("percentile", 50, 10, 90), I("window", 128, 1, 60), F("sigma", 3, 1, 4))
	add("matchHist", mono, func(v V) ops.Operator { return post.NewOpMatchHistogram(post.HistoNormMode(v.i("mode"))) }, I("mode", 2, 0, 4))
	add("align", mono, func(v V) ops.Operator {
		return post.NewOpAlign(int32(v.i("k")), v.f("threshold"), post.OutOfBoundsMode(v.i("oobMode")))
	}, I("k", 50, 10, 40), F("threshold", 1, 0.2, 2), I("oobMode", 0, 0, 2))
	add("selectRef", mono, func(v V) ops.Operator {
		d := v["starDetect"].(V)
		o := ref.NewOpSelectReference(ref.SelRefTarget(v.i("target")), v.s("mode"), nil)
		if d != nil {
			o.StarDetect = starDetect(d)
		}
		return o
	}, I("target", 0, 0, 1), S("mode", "%starsHFR", "%starsHFR", "%location", "1", "DIR/b.fits", "7"), N("starDetect", sd, false, nil))
	add("filter", mono, func(v V) ops.Operator { return ref.NewOpFilter(v.i("minStars")) }, I("minStars", 0, 0, 40))
	add("exportStats", mono, func(v V) ops.Operator { return ref.NewOpExportStats(v.s("fileName")) }, S("fileName", "out.html", "DIR/s.html", "", "DIR/none/s.html"))
	add("stack", mono, func(v V) ops.Operator {
		return stack.NewOpStack(stack.StackMode(v.i("mode")), stack.StackWeighting(v.i("weighting")), v.f("sigmaLow"), v.f("sigmaHigh"))
	}, I("mode", 6, 0, 7), I("weighting", 0, 0, 3), F("sigmaLow", 2.75, 0.5, 3), F("sigmaHigh", 2.75, 0.5, 3))
	str := func(pre string, kind int, g bool) {
		is := func(a, b ops.Operator) ops.Operator {
			if g {
				return b
			}
			return a
		}
		mid, stretchT, gam, gpp, sb, black := "midtones", "stretch", "gamma", "gammaPP", "scaleBlack", 1.0
		if g {
			mid, stretchT, gam, gpp, sb, black = "hslMidtones", "hslStretch", "hslGamma", "hslGammaPP", "hslScaleBlack", 2
		}
		add(mid, kind, func(v V) ops.Operator {
			return is(stretch.NewOpMidtones(v.f("mid"), v.f("black")), hsl.NewOpHSLMidtones(v.f("mid"), v.f("black")))
		}, F("mid", 0, 1, 9), F("black", black, 0, 3))
		add(gam, kind, func(v V) ops.Operator { return is(stretch.NewOpGamma(v.f("gamma")), hsl.NewOpHSLGamma(v.f("gamma"))) }, F("gamma", 1, 0.5, 3))
		add(gpp, kind, func(v V) ops.Operator {
			return is(stretch.NewOpGammaPP(v.f("gamma"), v.f("sigma")), hsl.NewOpHSLGammaPP(v.f("gamma"), v.f("sigma")))
		}, F("gamma", 1, 0.5, 3), F("sigma", 1, 0, 3))
		add(sb, kind, func(v V) ops.Operator {
			return is(stretch.NewOpScaleBlack(v.f("location")), hsl.NewOpHSLScaleBlack(v.f("location")))
		}, F("location", 0, 0.001, 0.1))
		add(stretchT, kind, func(v V) ops.Operator {
			return is(stretch.NewOpStretchIterative(v.f("location"), v.f("scale")), hsl.NewOpHSLStretchIterative(v.f("location"), v.f("scale")))
		}, F("location", 0.1, 0.05, 0.3), F("scale", 0.004, 0.002, 0.05))
	}
	str("", mono, false)
	str("hsl", hsluv, true)
	add("normRange", mono, func(v V) ops.Operator { return stretch.NewOpNormalizeRange() })
	add("gaussianBlur", mono, func(v V) ops.Operator { return stretch.NewOpGaussianBlur(v.f("sigma")) }, F("sigma", 2, 0.5, 4))
	add("unsharpMask", mono, func(v V) ops.Operator {
		return stretch.NewOpUnsharpMask(v.f("sigma"), v.f("gain"), v.f("threshold"))
	}, F("sigma", 1.5, 0.5, 4), F("gain", 0, 0, 2), F("threshold", 1, 0, 2))
	add("HSLUnsharpMask", hsluv, func(v V) ops.Operator {
		return hsl.NewOpHSLUnsharpMask(v.f("sigma"), v.f("gain"), v.f("threshold"))
	}, F("sigma", 1.5, 0.5, 4), F("gain", 0, 0, 2), F("threshold", 0.75, 0, 2))
	add("rgbCombine", three, func(v V) ops.Operator { return rgb.NewOpRGBCombine() })
	rgbV := entry{keys: []key{F("R", 1, 0.1, 1), F("G", 1, 0.1, 1), F("B", 1, 0.1, 1)}}
	add("rgbBalance", colour, func(v V) ops.Operator {
		c := func(k string) fits.RGB { x := v[k].(V); return fits.RGB{R: x.f("R"), G: x.f("G"), B: x.f("B")} }
		return rgb.NewOpRGBBalance(int32(v.i("block")), v.f("border"), v.f("skipBright"), v.f("skipDim"), c("shadows"), c("highlights"))
	}, I("block", 16, 4, 12), F("border", 0.1, 0, 0.3), F("skipBright", 0, 0, 0.4), F("skipDim", 0.75, 0, 0.4), N("shadows", rgbV, false, nil), N("highlights", rgbV, false, nil))
	add("rgbToHSLuv", colour, func(v V) ops.Operator { return rgb.NewOpRGBToHSLuv() })
	add("hsluvToRGB", hsluv, func(v V) ops.Operator { return rgb.NewOpHSLuvToRGB() })
	add("hslApplyLum", hsluv, func(v V) ops.Operator { return hsl.NewOpHSLApplyLum() })
	add("hslScaleOffsetChannel", hsluv, func(v V) ops.Operator {
		return hsl.NewOpHSLScaleOffsetChannel(v.i("channelID"), v.f("scale"), v.f("offset"))
	}, I("channelID", 2, 0, 2), F("scale", 1, 0.2, 1.2), F("offset", 0, -0.1, 0.1))
	add("hslNeutralizeBackground", hsluv, func(v V) ops.Operator {
		return hsl.NewOpHSLNeutralizeBackground(v.f("sigmaLow"), v.f("sigmaHigh"))
	}, F("sigmaLow", 0.75, 0, 1), F("sigmaHigh", 1, 1, 3))
	add("hslSaturationGamma", hsluv, func(v V) ops.Operator { return hsl.NewOpHSLSaturationGamma(v.f("gamma"), v.f("sigma")) }, F("gamma", 1.75, 0.5, 3), F("sigma", 0.75, 0, 3))
	add("hslSelectiveSaturation", hsluv, func(v V) ops.Operator {
		return hsl.NewOpHSLSelectiveSaturation(v.f("from"), v.f("to"), v.f("factor"))
	}, F("from", 295, 0, 360), F("to", 40, 0, 360), F("factor", 1, 0, 2))
	add("hslRotateHue", hsluv, func(v V) ops.Operator {
		return hsl.NewOpHSLRotateHue(v.f("from"), v.f("to"), v.f("offset"), v.f("sigma"))
	}, F("from", 100, 0, 360), F("to", 190, 0, 360), F("offset", 0, -90, 90), F("sigma", 1, -1, 2))
	add("hslSCNR", hsluv, func(v V) ops.Operator { return hsl.NewOpHSLSCNR(v.f("factor")) }, F("factor", 0, 0, 1))
	return es
}

// describe writes the description of an operator, leaving out some of the defaults
func describe(r *rand.Rand, e entry, v V, dir string, omit float64) string {
	var parts []string
	parts = append(parts, fmt.Sprintf("\"type\":%q", e.typ))
	for _, k := range e.keys {
		if _, ok := v[k.name]; ok && r.Float64() < omit {
			v[k.name] = k.def
			continue
		}
		parts = append(parts, fmt.Sprintf("%q:%s", k.name, value(r, k, v[k.name], omit)))
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	if r.Intn(4) == 0 {
		return "{\n\t" + strings.Join(parts, " ,\n ") + "\n}"
	}
	return "{" + strings.Join(parts, ",") + "}"
}

var tab = table()

func find(typ string, kind int) entry {
	for _, e := range tab {
		if e.typ == typ && (e.kind == kind || kind < 0) {
			return e
		}
	}
	panic("VK: no entry " + typ)
}

func value(r *rand.Rand, k key, x interface{}, omit float64) string {
	switch y := x.(type) {
	case float32:
		switch r.Intn(5) {
		case 0:
			return fmt.Sprintf("%.9e", y)
		case 1:
			return fmt.Sprintf("%.17g", float64(y))
		}
		return fmt.Sprint(y)
	case V:
		if y == nil {
			return "null"
		}
		if k.name == "shadows" || k.name == "highlights" { // a plain structure, all written
			return fmt.Sprintf(`{"R":%v,"G":%v,"B":%v}`, y["R"], y["G"], y["B"])
		}
		t := k.name
		return describe(r, find(t, -1), y, "", omit)
	}
	b, _ := json.Marshal(x)
	return string(b)
}

func draw(r *rand.Rand, e entry, dir string) V {
	v := V{}
	for _, k := range e.keys {
		v[k.name] = k.draw(r, dir)
	}
	return v
}

// check compares what an operator serializes to with the values it has to have
func check(e entry, v V, got map[string]interface{}, path string) string {
	if t, ok := got["type"]; path == "" && (!ok || t != e.typ) {
		return fmt.Sprintf("type is %v", got["type"])
	}
	for _, k := range e.keys {
		if d := differs(v[k.name], got[k.name], path+k.name); d != "" {
			return d
		}
	}
	return ""
}

func differs(want, got interface{}, path string) string {
	bad := fmt.Sprintf("%s is %v, want %v", path, got, want)
	switch w := want.(type) {
	case float32:
		if g, ok := got.(float64); !ok || float32(g) != w {
			return bad
		}
	case int:
		if g, ok := got.(float64); !ok || g != float64(w) {
			return bad
		}
	case string:
		if g, ok := got.(string); !ok || g != w {
			return bad
		}
	case []string:
		g, _ := got.([]interface{})
		if len(g) != len(w) {
			return bad
		}
		for i := range g {
			if g[i] != w[i] {
				return bad
			}
		}
	case V:
		g, _ := got.(map[string]interface{})
		if (w == nil) != (g == nil) {
			return bad
		}
		for k, x := range w {
			if d := differs(x, g[k], path+"."+k); d != "" {
				return d
			}
		}
	}
	return ""
}

func parse(text string) (*ops.OpSequence, error) {
	s := ops.NewOpSequenceDefault()
	return s, json.Unmarshal([]byte(text), s)
}

func must(c *kit.C, text string) *ops.OpSequence {
	s, err := parse(text)
	if err != nil {
		c.Fatal("valid description refused: %v; %s", err, text)
	}
	return s
}

func marshal(c *kit.C, op interface{}) (string, map[string]interface{}) {
	b, err := json.Marshal(op)
	if err != nil {
		c.Fatal("%T cannot be serialized: %v", op, err)
	}
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		c.Fatal("%T serializes to invalid JSON: %v; %s", op, err, b)
	}
	return string(b), m
}

// inputs for one kind of operator
type inputs struct {
	kind  int
	frame []*fits.Image
	dir   string
}

func clone(f *fits.Image) *fits.Image {
	g := fits.NewImageFromImage(f)
	g.Data = kit.Copy32(f.Data)
	g.Stars = append(g.Stars[:0:0], f.Stars...)
	g.ID, g.FileName, g.Exposure, g.HFR = f.ID, f.FileName, f.Exposure, f.HFR
	n := kit.Img(0, 1, 1, g.Data)
	g.Stats = n.Stats
	if len(f.Naxisn) == 2 {
		g.Stats = kit.Img(f.ID, int(f.Naxisn[0]), int(f.Naxisn[1]), g.Data).Stats
	} else {
		g.Stats = kit.RGBImg(f.ID, int(f.Naxisn[0]), int(f.Naxisn[1]), g.Data).Stats
	}
	return g
}

func makeInputs(c *kit.C, kind int) *inputs {
	r := c.Rng
	in := &inputs{kind: kind, dir: filepath.Base(c.Dir())}
	w, h := 40+r.Intn(20), 40+r.Intn(20)
	field := kit.StarField(r, w, h, 25, 6, 6)
	for j := range field {
		field[j].Flux, field[j].Sigma = 2+6*r.Float64(), 1+0.5*r.Float64()
	}
	plane := func() []float32 {
		d := kit.Noise(r, w*h, 0.1+0.05*r.Float64(), 0.01)
		for _, s := range field {
			s.Flux *= 0.7 + 0.6*r.Float64()
			kit.Render(d, w, h, s)
		}
		for j := range d {
			d[j] = float32(math.Max(0, math.Min(1, float64(d[j]))))
		}
		return d
	}
	n := 3
	if kind == colour || kind == hsluv {
		n = 1
	}
	sd := pre.NewOpStarDetect(8, 1.5, 0, 1.4, "")
	ctx, _ := kit.Context()
	for i := 0; i < n; i++ {
		var f *fits.Image
		if kind == colour || kind == hsluv {
			f = kit.RGBImg(i, w, h, append(append(plane(), plane()...), plane()...))
		} else {
			f = kit.Img(i, w, h, plane())
			f, _ = kit.Run1(sd, f, ctx)
		}
		f.Exposure = float32(10 + 20*i)
		if kind == colour {
			lum, _ := kit.Run1(sd, kit.Img(i, w, h, f.Data[:w*h]), ctx)
			f.Stars, f.HFR = lum.Stars, lum.HFR
		}
		if kind == hsluv {
			f, _ = kit.Run1(rgb.NewOpRGBToHSLuv(), f, ctx)
		}
		in.frame = append(in.frame, f)
	}
	for i, n := range []string{"a", "b", "c"} {
		f := kit.Img(i, w, h, plane())
		if err := f.WriteFile(in.dir + "/" + n + ".fits"); err != nil {
			c.Fatal("VK: %v", err)
		}
	}
	return in
}

// outcome of running an operator on fresh copies of the inputs
type outcome struct {
	err   string
	imgs  []*fits.Image
	align int
	files map[string]string

	random bool
}

func run(c *kit.C, in *inputs, op ops.Operator) (o outcome) {
	ctx, _ := kit.Context()
	ctx.MaxThreads = 1
	var ins []ops.Promise
	for _, f := range in.frame {
		f := f
		ins = append(ins, func() (*fits.Image, error) { return clone(f), nil })
	}
	if in.kind == none {
		ins = nil
	} else if in.kind == mono {
		ref := clone(in.frame[0])
		ctx.AlignStars, ctx.AlignNaxisn, ctx.AlignHFR, ctx.MatchHisto = ref.Stars, ref.Naxisn, ref.HFR, ref.Stats
	}
	imgs, err := kit.RunAll(op, ins, ctx)
	if err != nil {
		o.err = err.Error()
	}
	o.imgs, o.align = imgs, len(ctx.AlignStars)
	o.files = map[string]string{}
	ns, _ := filepath.Glob(in.dir + "/*")
	ns2, _ := filepath.Glob("*.html")
	for _, n := range append(ns, ns2...) {
		if b := filepath.Base(n); b == "a.fits" || b == "b.fits" || b == "c.fits" {
			continue
		}
		b, _ := os.ReadFile(n)
		o.files[n] = string(b)
		os.Remove(n)
	}
	return o
}

// random tells whether an operator draws random samples, so that runs differ
func random(v V) bool {
	for n, x := range v {
		if y, ok := x.(V); ok && random(y) {
			return true
		}
		if n == "badPixelSigma" && x.(float32) != 0 {
			return true
		}
	}
	return false
}

func (a outcome) diff(b outcome) string {
	if a.random {
		return ""
	}
	if (a.err == "") != (b.err == "") {
		return fmt.Sprintf("error %q against %q", a.err, b.err)
	}
	if a.err != "" {
		return ""
	}
	if len(a.imgs) != len(b.imgs) {
		return fmt.Sprintf("%d images against %d", len(a.imgs), len(b.imgs))
	}
	for i := range a.imgs {
		f, g := a.imgs[i], b.imgs[i]
		if f.ID != g.ID || f.Exposure != g.Exposure || !fits.EqualInt32Slice(f.Naxisn, g.Naxisn) || f.FileName != g.FileName {
			return fmt.Sprintf("image %d is id %d %v %s against %d %v %s", i, f.ID, f.Naxisn, f.FileName, g.ID, g.Naxisn, g.FileName)
		}
		for j := range f.Data {
			if !kit.Same(f.Data[j], g.Data[j]) {
				return fmt.Sprintf("image %d pixel %d is %v against %v", i, j, f.Data[j], g.Data[j])
			}
		}
		if len(f.Stars) != len(g.Stars) || !kit.Same(f.HFR, g.HFR) {
			return fmt.Sprintf("image %d has %d stars, half-flux radius %v against %d, %v", i, len(f.Stars), f.HFR, len(g.Stars), g.HFR)
		}
		if (f.Stats == nil) != (g.Stats == nil) || f.Stats != nil && (!kit.Same(f.Stats.Location(), g.Stats.Location()) || !kit.Same(f.Stats.Max(), g.Stats.Max())) {
			return fmt.Sprintf("image %d statistics %v against %v", i, f.Stats, g.Stats)
		}
	}
	if a.align != b.align {
		return fmt.Sprintf("%d reference stars against %d", a.align, b.align)
	}
	var na, nb []string
	for n := range a.files {
		na = append(na, n)
	}
	for n := range b.files {
		nb = append(nb, n)
	}
	sort.Strings(na)
	sort.Strings(nb)
	if strings.Join(na, " ") != strings.Join(nb, " ") {
		return fmt.Sprintf("files %v against %v", na, nb)
	}
	for _, n := range na {
		if a.files[n] != b.files[n] {
			return "file " + n + " differs"
		}
	}
	return ""
}

// one operator: values, omissions, serialization and effect
func single(c *kit.C, i, j int) {
	r := c.Rng
	e := tab[j]
	in := makeInputs(c, e.kind)
	omit := []float64{0, 0.3, 1}[i%3]
	va, vb := draw(r, e, in.dir), draw(r, e, in.dir)
	ta := describe(r, e, va, in.dir, omit)
	tb := describe(r, e, vb, in.dir, 0.2*r.Float64())
	seq := must(c, `{"type":"seq","steps":[`+ta+`,`+tb+`]}`)
	if len(seq.Steps) != 2 {
		c.Fatal("%d steps parsed of 2: %s, %s", len(seq.Steps), ta, tb)
	}
	want := []outcome{run(c, in, e.build(va)), run(c, in, e.build(vb))}
	want[0].random, want[1].random = random(va), random(vb)
	texts, vs := []string{ta, tb}, []V{va, vb}
	for k, op := range seq.Steps {
		t1, m1 := marshal(c, op)
		if d := check(e, vs[k], m1, ""); d != "" {
			c.Fatal("%s is parsed as %s: %s", texts[k], t1, d)
		}
		// from the constructor to JSON
		t2, m2 := marshal(c, e.build(vs[k]))
		if d := check(e, vs[k], m2, ""); d != "" {
			c.Fatal("operator with values %v is serialized as %s: %s", vs[k], t2, d)
		}
		again := must(c, `{"type":"seq","steps":[`+t2+`]}`).Steps
		if len(again) != 1 {
			c.Fatal("%d steps parsed of 1: %s", len(again), t2)
		}
		if t3, m3 := marshal(c, again[0]); check(e, vs[k], m3, "") != "" {
			c.Fatal("round trip changes %s to %s: %s", t2, t3, check(e, vs[k], m3, ""))
		}
		// effect, in any order
		for _, x := range []struct {
			op  ops.Operator
			how string
		}{{op, "parsed from " + texts[k]}, {again[0], "read back from " + t2}} {
			if d := want[k].diff(run(c, in, x.op)); d != "" {
				c.Fatal("operator %s does not do the same as the constructed one: %s", x.how, d)
			}
			c.Count("effects compared", 1)
		}
		if want[k].err == "" {
			c.Count("runs without error", 1)
		}
		c.Seen("op", e.typ, k, want[k].err == "", omit)
	}
	// the first again, after the second ran
	if d := want[0].diff(run(c, in, seq.Steps[0])); d != "" {
		c.Fatal("operator parsed from %s works differently after another of its type, %s, was used: %s", ta, tb, d)
	}
	// parsing into an operator which has values already
	old := e.build(vb)
	if err := json.Unmarshal([]byte(ta), old); err != nil {
		c.Fatal("parsing %s into an operator fails: %v", ta, err)
	}
	if _, ok := old.(json.Unmarshaler); ok {
		if d := want[0].diff(run(c, in, old)); d != "" {
			c.Fatal("operator %s parsed into one made before does not do the same as the constructed one: %s", ta, d)
		}
	}
	c.Sample("%s", ta)
}

// tree of operators with its description
type tree struct {
	op   ops.Operator
	flat []ops.Operator
	text string
	want interface{}
}

func build(c *kit.C, kind, depth int, dir string) tree {
	r := c.Rng
	var es []entry
	for _, e := range tab {
		if e.kind == kind && e.typ != "rgbToHSLuv" && e.typ != "hsluvToRGB" && e.typ != "debayer" && e.typ != "stack" && e.typ != "exportStats" && e.typ != "save" && e.typ != "filter" {
			es = append(es, e)
		}
	}
	s := ops.NewOpSequence()
	t := tree{op: s}
	var texts []string
	var wants []interface{}
	many := r.Intn(4)
	if depth == 3 && r.Intn(6) == 0 {
		many = 17 + r.Intn(30)
	}
	for n := many; n >= 0; n-- {
		var x tree
		if depth > 0 && r.Intn(3+many/4) == 0 {
			x = build(c, kind, depth-1, dir)
		} else {
			e := es[r.Intn(len(es))]
			v := draw(r, e, dir)
			x.text = describe(r, e, v, dir, 0.2)
			x.op = e.build(v)
			x.flat = []ops.Operator{e.build(v)}
			x.want = []interface{}{e, v}
		}
		s.Append(x.op)
		t.flat = append(t.flat, x.flat...)
		texts = append(texts, x.text)
		wants = append(wants, x.want)
	}
	t.want = wants
	t.text = `{"type":"seq","steps":[` + strings.Join(texts, ",") + `]}`
	if r.Intn(3) == 0 {
		t.text = `{"steps":[` + strings.Join(texts, ", ") + `] , "type": "seq" }`
	}
	return t
}

func same(want interface{}, got map[string]interface{}) string {
	w := want.([]interface{})
	if len(w) == 2 {
		if e, ok := w[0].(entry); ok {
			return check(e, w[1].(V), got, "")
		}
	}
	steps, _ := got["steps"].([]interface{})
	if len(steps) != len(w) || got["type"] != "seq" {
		return fmt.Sprintf("%d steps in %v, want %d", len(steps), got["type"], len(w))
	}
	for i := range w {
		g, _ := steps[i].(map[string]interface{})
		if d := same(w[i], g); d != "" {
			return fmt.Sprintf("step %d: %s", i, d)
		}
	}
	return ""
}

func nested(c *kit.C, i int) {
	kind := []int{mono, hsluv, colour}[i%3]
	in := makeInputs(c, kind)
	t := build(c, kind, 3, in.dir)
	parsed := must(c, t.text)
	t1, m1 := marshal(c, parsed)
	if d := same(t.want, m1); d != "" {
		c.Fatal("%s is parsed as %s: %s", t.text, t1, d)
	}
	t2, m2 := marshal(c, t.op)
	if d := same(t.want, m2); d != "" {
		c.Fatal("sequence built as %s is serialized as %s: %s", t.text, t2, d)
	}
	again := must(c, t2)
	if t3, m3 := marshal(c, again); same(t.want, m3) != "" {
		c.Fatal("round trip changes %s to %s: %s", t2, t3, same(t.want, m3))
	}
	want := run(c, in, ops.NewOpSequence(t.flat...))
	want.random = strings.Contains(t.text, "badPixelSigma")
	for k, op := range []ops.Operator{parsed, again, t.op} {
		if d := want.diff(run(c, in, op)); d != "" {
			c.Fatal("sequence %s (%s) does not do the same as its steps one by one: %s", t.text, []string{"parsed", "read back", "constructed"}[k], d)
		}
		c.Count("effects compared", 1)
	}
	// parsing once more into the same sequence replaces it
	if err := json.Unmarshal([]byte(t.text), again); err != nil {
		c.Fatal("second parse fails: %v", err)
	}
	if t4, m4 := marshal(c, again); same(t.want, m4) != "" {
		c.Fatal("parsed into the same sequence once more, %s becomes %s", t.text, t4)
	}
	if want.err == "" {
		c.Count("runs without error", 1)
	}
	c.Count("nested sequences", 1)
	c.Seen("nested", kind, len(t.flat), want.err == "")
	c.Sample("%s", t.text)
}

// batches: a sequence inside an operator
func batches(c *kit.C, i int) {
	r := c.Rng
	in := makeInputs(c, mono)
	var ps []tree
	for n := r.Intn(3); n > 0; n-- {
		e := find([]string{"badPixel", "scaleOffset", "bin", "gaussianBlur", "gamma"}[r.Intn(5)], mono)
		v := draw(r, e, in.dir)
		ps = append(ps, tree{text: describe(r, e, v, in.dir, 0.1), op: e.build(v), want: []interface{}{e, v}})
	}
	e := find("stack", mono)
	v := draw(r, e, in.dir)
	v["mode"], v["weighting"] = r.Intn(7), 0
	ps = append(ps, tree{op: e.build(v), text: describe(r, e, v, in.dir, 0), want: []interface{}{e, v}})
	var texts []string
	var wants []interface{}
	s := ops.NewOpSequence()
	for _, p := range ps {
		s.Append(p.op)
		texts = append(texts, p.text)
		wants = append(wants, p.want)
	}
	sb := stack.NewOpStackBatches(s)
	text := `{"type":"stackBatches","perBatch":{"type":"seq","steps":[` + strings.Join(texts, ",") + `]}}`
	if len(ps) == 1 && r.Intn(2) == 0 {
		text = `{"type":"stackBatches","perBatch":` + texts[0] + `}` // a lone step instead of a sequence
		c.Count("lone steps", 1)
	}
	want := run(c, in, sb)
	if want.err == "" {
		c.Count("runs without error", 1)
	}
	t2, m2 := marshal(c, sb)
	got, _ := m2["perBatch"].(map[string]interface{})
	if d := same(wants, got); m2["type"] != "stackBatches" || d != "" {
		c.Fatal("batches built as %s are serialized as %s: %s", text, t2, d)
	}
	for _, x := range []string{text, t2} {
		parsed := must(c, `{"type":"seq","steps":[`+x+`]}`)
		t3, m3 := marshal(c, parsed.Steps[0])
		got, _ := m3["perBatch"].(map[string]interface{})
		if d := same(wants, got); d != "" {
			c.Fatal("%s is parsed as %s: %s", x, t3, d)
		}
		if d := run(c, in, parsed).diff(want); d != "" {
			c.Fatal("%s does not do the same as the constructed one: %s", x, d)
		}
		c.Count("effects compared", 1)
	}
	c.Seen("batches", len(ps), v["mode"])
}

// a lone operator in place of a sequence
func lone(c *kit.C, i int) {
	r := c.Rng
	e := tab[i%len(tab)]
	in := makeInputs(c, e.kind)
	v := draw(r, e, in.dir)
	text := describe(r, e, v, in.dir, 0.1)
	s, err := parse(text)
	if err != nil {
		c.Count("lone operators refused", 1)
		return
	}
	w := run(c, in, e.build(v))
	w.random = random(v)
	if d := w.diff(run(c, in, s)); d != "" {
		c.Fatal("description %s of a single operator is accepted, but does not do the same as the operator: %s", text, d)
	}
	c.Count("lone operators", 1)
}

// descriptions which must be refused
func refused(c *kit.C, i int) {
	r := c.Rng
	e := tab[r.Intn(len(tab))]
	v := draw(r, e, "d")
	good := describe(r, e, v, "d", 0)
	other := tab[r.Intn(len(tab))]
	second := describe(r, other, draw(r, other, "d"), "d", 0.2)
	wrap := func(s string) string {
		o := `{"type":"seq","steps":[` + s + `]}`
		switch r.Intn(4) {
		case 0:
			o = `{"type":"seq","steps":[` + second + "," + s + `]}`
		case 1:
			o = `{"type":"seq","steps":[` + s + "," + second + `]}`
		case 2:
			o = `{"type":"seq","steps":[{"type":"seq","steps":[` + s + `]}]}`
		}
		if r.Intn(4) == 0 {
			o = `{"type":"seq","steps":[{"type":"stackBatches","perBatch":` + o + `}]}`
		}
		return o
	}
	var text, how string
	switch k := r.Intn(5); k {
	case 0: // cut off
		s := wrap(good)
		text, how = s[:1+r.Intn(len(s)-2)], "cut off"
	case 1: // unknown type
		for _, t := range []string{strings.ToLower(e.typ) + "x", "", "Seq", "stacks"}[r.Intn(4):] {
			text = t
			break
		}
		text, how = wrap(strings.Replace(good, fmt.Sprintf("\"type\":%q", e.typ), fmt.Sprintf("\"type\":%q", text), 1)), "unknown type"
	case 2: // value of another kind
		if len(e.keys) == 0 {
			return
		}
		k := e.keys[r.Intn(len(e.keys))]
		bad := `"text"`
		switch v[k.name].(type) {
		case string:
			bad = []string{"1", "{}", "[]", "true"}[r.Intn(4)]
		case float32:
			bad = []string{`"1"`, "{}", "[]", "true", "1e400"}[r.Intn(5)]
		case int:
			bad = []string{`"1"`, "{}", "[]", "true", "1.5", "1e30"}[r.Intn(6)]
		case []string:
			bad = []string{`"1"`, "{}", "1", "[1]"}[r.Intn(4)]
		case V:
			bad = []string{`"1"`, "1", "true", "[1]"}[r.Intn(4)]
		}
		w := V{}
		for n, x := range v {
			if n != k.name {
				w[n] = x
			}
		}
		keys := e
		keys.keys = nil
		for _, x := range e.keys {
			if x.name != k.name {
				keys.keys = append(keys.keys, x)
			}
		}
		s := describe(r, keys, w, "d", 0)
		text, how = wrap(strings.Replace(s, "}", "", 0)), "kind of "+k.name
		s = strings.TrimSpace(s)
		text = wrap(s[:len(s)-1] + fmt.Sprintf(",%q:%s}", k.name, bad))
	case 3: // not an operator
		text, how = wrap([]string{"1", `"x"`, "[]", "true", "[" + good + "]"}[r.Intn(5)]), "no operator"
	case 4: // damaged
		s := wrap(good)
		p := r.Intn(len(s))
		text, how = s[:p]+[]string{"}", "]", ":", "\x01", ",,"}[r.Intn(5)]+s[p:], "damaged"
		if json.Valid([]byte(text)) {
			return
		}
	}
	s, err := parse(text)
	if err == nil {
		t, _ := marshal(c, s)
		c.Fatal("accepted although invalid (%s): %q as %s", how, text, t)
	}
	c.Count("invalid descriptions refused", 1)
	c.Seen("refused", strings.SplitN(how, " of ", 2)[0], e.typ)
}

func main() {
	kit.Main("C11", "one evaluation = one description parsed, serialized and run against constructed operators; distinct = operator types x omissions, trees, refusals", func(k *kit.K) {
		kit.ExactStats()
		for i := 0; i < k.N(9, 240); i++ {
			for j := range tab {
				k.Case(fmt.Sprintf("single/%s%d/%d", tab[j].typ, j, i), func(c *kit.C) { single(c, i, j) })
			}
		}
		n := k.N(60, 2000)
		for i := 0; i < n; i++ {
			k.Case(fmt.Sprintf("nested/%d", i), func(c *kit.C) { nested(c, i) })
			k.Case(fmt.Sprintf("batches/%d", i), func(c *kit.C) { batches(c, i) })
			k.Case(fmt.Sprintf("lone/%d", i), func(c *kit.C) { lone(c, i) })
			for j := 0; j < 10; j++ {
				k.Case(fmt.Sprintf("refused/%d/%d", i, j), func(c *kit.C) { refused(c, i) })
			}
		}
	})
}
