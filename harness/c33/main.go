// C33: monitor for the command line program: the real binary is run on generated
// sessions with random flags; its exit status and every file it leaves are
// compared with the documented pipeline built from library operators.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/jobs"
	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

type flagDef struct {
	name string
	def  interface{}
	draw func(r *rand.Rand) interface{}
	cmds string // commands it matters for: s stats, k stack, t stretch, r rgb
	prob float64
}

func fl(name string, def, lo, hi float64, cmds string, prob float64) flagDef {
	return flagDef{name, def, func(r *rand.Rand) interface{} {
		v := lo + (hi-lo)*r.Float64()
		if r.Intn(3) == 0 {
			v = math.Round(v*10) / 10
		}
		return v
	}, cmds, prob}
}
func in(name string, def, lo, hi int, cmds string, prob float64) flagDef {
	return flagDef{name, def, func(r *rand.Rand) interface{} { return lo + r.Intn(hi-lo+1) }, cmds, prob}
}
func st(name, def string, cmds string, prob float64, vals ...string) flagDef {
	return flagDef{name, def, func(r *rand.Rand) interface{} { return vals[r.Intn(len(vals))] }, cmds, prob}
}

var flags = []flagDef{
	st("jpg", "%auto", "ktr", 0.3, "", "OUT/preview.jpg", "OUT/other.jpeg"),
	fl("jpgGamma", 1, 0.5, 2.5, "ktr", 0.5),
	st("tiff", "", "ktr", 0.6, "%auto", "OUT/other.tif"),
	st("log", "%auto", "sktr", 0.2, "", "OUT/log.txt"),
	st("pre", "", "sk", 0.4, "OUT/pre%04d.fits", "OUT/pre%04d.fits", "OUT/p%d.tif"),
	st("stars", "", "sk", 0.3, "OUT/stars%02d.fits"),
	st("back", "", "sk", 0.4, "OUT/back%d.fits"),
	st("post", "", "k", 0.4, "OUT/post%04d.fits", "OUT/post%04d.fits", "OUT/po%d.jpg"),
	st("batch", "", "k", 0.3, "OUT/batch%d.fits", "OUT/b%03d.jpg", "OUT/b.tif"),
	st("dark", "", "sk", 0.5, "s/dark.fits"),
	st("flat", "", "sk", 0.5, "s/flat.fits"),
	st("debayer", "", "sk", 0.3, "R", "G", "B"),
	st("cfa", "RGGB", "sk", 0.3, "RGGB", "GRBG", "GBRG", "BGGR"),
	fl("debandH", 0, 20, 60, "sk", 0.3),
	fl("debandV", 0, 20, 60, "sk", 0.3),
	in("debandHWindow", 128, 8, 64, "sk", 0.5),
	in("debandVWindow", 128, 8, 64, "sk", 0.5),
	fl("debandHSigma", 3, 1, 5, "sk", 0.5),
	fl("debandVSigma", 3, 1, 5, "sk", 0.5),
	in("binning", 0, 0, 4, "sk", 0.3),
	fl("bpSigLow", 3, 2, 5, "k", 0.4),
	fl("bpSigHigh", 5, 2, 6, "k", 0.4),
	fl("starInOut", 1.4, 1.1, 1.8, "sktr", 0.3),
	in("backGrid", 0, 16, 40, "sk", 0.4),
	fl("backHFRFactor", 4, 2, 5, "sk", 0.4),
	fl("backSigma", 1.5, 1, 3, "sk", 0.4),
	in("backClip", 0, 0, 3, "sk", 0.4),
	flagDef{"minStars", 0, func(r *rand.Rand) interface{} { return []int{r.Intn(9), 14 + r.Intn(22)}[r.Intn(2)] }, "k", 0.4},
	fl("blurSigma", 0, 0.5, 2, "t", 0.5),
	fl("usmSigma", 1, 0.5, 2, "tr", 0.5),
	fl("usmGain", 0, 0.2, 2, "tr", 0.6),
	fl("usmThresh", 1, 0, 2, "tr", 0.5),
	in("alignK", 20, 15, 25, "kt", 0.3),
	flagDef{"alignT", 1.0, func(r *rand.Rand) interface{} { return []float64{0.8 + 2*r.Float64(), 0.02 * math.Pow(30, r.Float64())}[r.Intn(2)] }, "kt", 0.4},
	in("normHist", 4, 0, 3, "k", 0.7),
	in("stMode", 6, 0, 6, "k", 0.8),
	fl("stSigLow", -1, 1.5, 4, "k", 0.5),
	fl("stSigHigh", -1, 1.5, 4, "k", 0.5),
	in("stWeight", 0, 0, 2, "k", 0.3),
	st("histoRef", "%starsHFR", "k", 0.5, "%location", "1", "s/light01.fits"),
	st("alignRef", "%starsHFR", "kt", 0.4, "%location", "0", "s/light00.fits"),
	fl("neutSigmaLow", -1, 0, 1, "r", 0.5),
	fl("neutSigmaHigh", -1, 1, 2, "r", 0.5),
	in("balBlock", 16, 8, 24, "r", 0.5),
	fl("balBorder", 0.1, 0, 0.2, "r", 0.5),
	fl("balSkipBright", 0, 0, 0.2, "r", 0.5),
	fl("balSkipDim", 0.5, 0.1, 0.6, "r", 0.5),
	fl("balShR", 1, 0.5, 1, "r", 0.3), fl("balShG", 1, 0.5, 1, "r", 0.3), fl("balShB", 1, 0.5, 1, "r", 0.3),
	fl("balHiR", 1, 0.5, 1, "r", 0.3), fl("balHiG", 1, 0.5, 1, "r", 0.3), fl("balHiB", 1, 0.5, 1, "r", 0.3),
	fl("chromaGamma", 1, 0.5, 2, "r", 0.6), fl("chromaSigma", 1, 0, 2, "r", 0.5),
	fl("chromaFrom", 295, 0, 360, "r", 0.5), fl("chromaTo", 40, 0, 360, "r", 0.5), fl("chromaBy", 1, -1, 2, "r", 0.6),
	fl("rotFrom", 100, 0, 360, "r", 0.5), fl("rotTo", 190, 0, 360, "r", 0.5), fl("rotBy", 0, -60, 60, "r", 0.6), fl("rotSigma", 1, -1, 2, "r", 0.5),
	fl("scnr", 0, 0.1, 1, "r", 0.6),
	fl("autoLoc", 10, 5, 30, "tr", 0.4), fl("autoScale", 0.4, 0.3, 6, "tr", 0.5),
	fl("midtone", 0, 1, 8, "tr", 0.4), fl("midBlack", 2, 0, 4, "tr", 0.5),
	fl("gamma", 1, 0.6, 2, "tr", 0.5), fl("ppGamma", 1, 0.6, 2, "tr", 0.5), fl("ppSigma", 1, 0, 2, "tr", 0.5),
	fl("preScale", 1, 0.5, 2, "sk", 0.4), fl("preOffset", 0, -20, 20, "sk", 0.4),
	fl("lumScale", 1, 0.5, 1, "r", 0.4), fl("lumOffset", 0, -0.05, 0.05, "r", 0.4),
	fl("scaleBlack", 0, 0.5, 5, "tr", 0.4),
	st("exportStats", "%auto", "sk", 0.3, "OUT/st.html", ""),
}

// flags which matter only when another one is given
var needs = map[string]string{"debandHWindow": "debandH", "debandHSigma": "debandH", "debandVWindow": "debandV", "debandVSigma": "debandV",
	"backHFRFactor": "backGrid", "backSigma": "backGrid", "backClip": "backGrid", "back": "backGrid", "cfa": "debayer",
	"usmSigma": "usmGain", "usmThresh": "usmGain", "chromaSigma": "chromaGamma", "chromaFrom": "chromaBy", "chromaTo": "chromaBy",
	"rotFrom": "rotBy", "rotTo": "rotBy", "rotSigma": "rotBy", "midBlack": "midtone", "ppSigma": "ppGamma",
	"alignT": "alignRef", "alignK": "alignRef", "stSigLow": "stMode", "stSigHigh": "stMode", "histoRef": "normHist"}

type V map[string]interface{}

func (v V) f(n string) float32 { return float32(v[n].(float64)) }
func (v V) i(n string) int     { return v[n].(int) }

func (v V) s(n, out string) string {
	s := strings.ReplaceAll(v[n].(string), "OUT", out)
	if s == "%auto" {
		ext := map[string]string{"jpg": ".jpg", "tiff": ".tif", "log": ".log", "exportStats": ".html"}[n]
		o := v["out"].(string)
		if o == "" {
			return ""
		}
		o = strings.ReplaceAll(o, "OUT", out)
		return strings.TrimSuffix(o, filepath.Ext(o)) + ext
	}
	return s
}

// pipeline is the documented pipeline of a command
func pipeline(cmd string, v V, files []string, out string) *ops.OpSequence {
	load := ops.NewOpLoadMany(files)
	sd := pre.NewOpStarDetect(int32(v.i("starRadius")), v.f("starSig"), v.f("starBpSig"), v.f("starInOut"), v.s("stars", out))
	deb := pre.NewOpDebayer(v.s("debayer", out), v.s("cfa", out))
	bpl, bph := v.f("bpSigLow"), v.f("bpSigHigh")
	if cmd == "stats" {
		bpl, bph = 0, 0
	}
	saves := func(mode ops.ExportMode) []ops.Operator {
		return []ops.Operator{
			ops.NewOpSave(v.s("out", out), ops.EMMinMax, 1),
			ops.NewOpSave(v.s("tiff", out), mode, 1),
			ops.NewOpSave(v.s("jpg", out), mode, v.f("jpgGamma")),
		}
	}
	hist := v.i("normHist")
	if hist == 4 {
		hist = 0
		if cmd == "stack" {
			hist = 2
		}
	}
	preproc := ops.NewOpSequence(
		pre.NewOpCalibrate(v.s("dark", out), v.s("flat", out)),
		pre.NewOpBadPixel(bpl, bph, deb),
		deb,
		pre.NewOpDebandHoriz(v.f("debandH"), int32(v.i("debandHWindow")), v.f("debandHSigma")),
		pre.NewOpDebandVert(v.f("debandV"), int32(v.i("debandVWindow")), v.f("debandVSigma")),
		pre.NewOpScaleOffset(v.f("preScale"), v.f("preOffset")),
		pre.NewOpBin(int32(v.i("binning"))),
		sd,
		pre.NewOpBackExtract(int32(v.i("backGrid")), v.f("backHFRFactor"), v.f("backSigma"), int32(v.i("backClip")), v.s("back", out)),
		ref.NewOpExportStats(v.s("exportStats", out)),
		ops.NewOpSave(v.s("pre", out), ops.EMMinMax, 1),
	)
	seq := ops.NewOpSequence(load)
	switch cmd {
	case "stats":
		seq.Append(preproc)
	case "stack":
		seq.Append(stack.NewOpStackBatches(ops.NewOpSequence(
			preproc,
			ref.NewOpSelectReference(ref.SRHisto, v.s("histoRef", out), sd),
			ref.NewOpSelectReference(ref.SRAlign, v.s("alignRef", out), sd),
			ref.NewOpFilter(v.i("minStars")),
			post.NewOpMatchHistogram(post.HistoNormMode(hist)),
			post.NewOpAlign(int32(v.i("alignK")), v.f("alignT"), post.OOBModeNaN),
			ops.NewOpSave(v.s("post", out), ops.EMMinMax, 1),
			stack.NewOpStack(stack.StackMode(v.i("stMode")), stack.StackWeighting(v.i("stWeight")), v.f("stSigLow"), v.f("stSigHigh")),
			sd,
			ops.NewOpSave(v.s("batch", out), ops.EMMinMax, 1),
		)), sd)
		seq.Append(saves(ops.EM0_65535)...)
	case "stretch":
		seq.Append(
			stretch.NewOpNormalizeRange(),
			stretch.NewOpStretchIterative(float32(v["autoLoc"].(float64)/100), float32(v["autoScale"].(float64)/100)),
			stretch.NewOpMidtones(v.f("midtone"), v.f("midBlack")),
			stretch.NewOpGamma(v.f("gamma")),
			stretch.NewOpGammaPP(v.f("ppGamma"), v.f("ppSigma")),
			stretch.NewOpScaleBlack(float32(v["scaleBlack"].(float64)/100)),
			sd,
			ref.NewOpSelectReference(ref.SRAlign, v.s("alignRef", out), sd),
			post.NewOpAlign(int32(v.i("alignK")), v.f("alignT"), post.OOBModeOwnLocation),
			stretch.NewOpGaussianBlur(v.f("blurSigma")),
			stretch.NewOpUnsharpMask(v.f("usmSigma"), v.f("usmGain"), v.f("usmThresh")),
		)
		seq.Append(saves(ops.EM0_1)...)
	case "rgb":
		seq.Append(
			sd,
			ref.NewOpSelectReference(ref.SRAlign, "%rgb", sd),
			rgb.NewOpRGBCombine(),
			rgb.NewOpRGBBalance(int32(v.i("balBlock")), v.f("balBorder"), v.f("balSkipBright"), v.f("balSkipDim"),
				fits.RGB{R: v.f("balShR"), G: v.f("balShG"), B: v.f("balShB")}, fits.RGB{R: v.f("balHiR"), G: v.f("balHiG"), B: v.f("balHiB")}),
			rgb.NewOpRGBToHSLuv(),
			hsl.NewOpHSLApplyLum(),
			hsl.NewOpHSLUnsharpMask(v.f("usmSigma"), v.f("usmGain"), v.f("usmThresh")),
			hsl.NewOpHSLNeutralizeBackground(v.f("neutSigmaLow"), v.f("neutSigmaHigh")),
			hsl.NewOpHSLSaturationGamma(v.f("chromaGamma"), v.f("chromaSigma")),
			hsl.NewOpHSLSelectiveSaturation(v.f("chromaFrom"), v.f("chromaTo"), v.f("chromaBy")),
			hsl.NewOpHSLRotateHue(v.f("rotFrom"), v.f("rotTo"), v.f("rotBy"), v.f("rotSigma")),
			hsl.NewOpHSLSCNR(v.f("scnr")),
			hsl.NewOpHSLStretchIterative(float32(v["autoLoc"].(float64)/100), float32(v["autoScale"].(float64)/100)),
			hsl.NewOpHSLMidtones(v.f("midtone"), v.f("midBlack")),
			hsl.NewOpHSLGamma(v.f("gamma")),
			hsl.NewOpHSLGammaPP(v.f("ppGamma"), v.f("ppSigma")),
			hsl.NewOpHSLScaleOffsetChannel(2, v.f("lumScale"), v.f("lumOffset")),
			hsl.NewOpHSLScaleBlack(float32(v["scaleBlack"].(float64)/100)),
			rgb.NewOpHSLuvToRGB(),
		)
		seq.Append(saves(ops.EM0_1)...)
	}
	return seq
}

type result struct {
	code   int
	stdout string
	stderr string
}

func cli(c *kit.C, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VK_TOOL_NIGHTLIGHT"), args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Fatal("nightlight %s does not end", strings.Join(args, " "))
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		c.Fatal("VK: %v", err)
	}
	return result{cmd.ProcessState.ExitCode(), so.String(), se.String()}
}

func library(op ops.Operator) error {
	ctx, _ := kit.Context()
	ps, err := op.MakePromises(nil, ctx)
	if err != nil {
		return err
	}
	_, err = ops.MaterializeAll(ps, ctx.MaxThreads, true)
	return err
}

func files(dir string) (m map[string][]byte) {
	m = map[string][]byte{}
	ns, _ := filepath.Glob(dir + "/*")
	for _, n := range ns {
		b, _ := os.ReadFile(n)
		if strings.HasSuffix(n, ".html") {
			ls := strings.Split(string(b), "\n")
			sort.Strings(ls)
			b = []byte(strings.Join(ls, "\n"))
		}
		m[filepath.Base(n)] = b
	}
	return m
}

func names(m map[string][]byte) []string {
	var o []string
	for n := range m {
		o = append(o, n)
	}
	sort.Strings(o)
	return o
}

// compare files; those of the log are taken out before
func compare(c *kit.C, what string, got, want map[string][]byte) {
	for n := range want {
		if _, ok := got[n]; !ok {
			c.Fatal("%s: there is no %s, only %v", what, n, names(got))
		}
	}
	for n, b := range got {
		w, ok := want[n]
		if !ok {
			c.Fatal("%s: unexpected file %s", what, n)
		}
		if !bytes.Equal(b, w) {
			c.Fatal("%s: %s (%d bytes) differs from that of the documented pipeline (%d bytes)", what, n, len(b), len(w))
		}
		c.Count("files identical", 1)
	}
}

func in2(c *kit.C) func() {
	d := c.Dir()
	old, _ := os.Getwd()
	if err := os.Chdir(d); err != nil {
		c.Fatal("VK: %v", err)
	}
	for _, n := range []string{"cli", "lib", "run"} {
		os.Mkdir(n, 0755)
	}
	return func() { os.Chdir(old) }
}

var letters = map[string]string{"stats": "s", "stack": "k", "stretch": "t", "rgb": "r"}

func values(c *kit.C, cmd, letter, force string) (v V, args []string) {
	r := c.Rng
	v = V{"starRadius": 8, "starSig": 1.2 + 0.3*r.Float64(), "starBpSig": 0.0, "out": "OUT/out.fits", "lsEst": []int{0, 2, 4}[r.Intn(3)]}
	stats.LSEstimator = stats.LSEstimatorMode(v.i("lsEst"))
	bpAuto := false
	switch r.Intn(6) {
	case 0:
		v["out"] = "OUT/m31.fit"
	case 1:
		v["out"] = "OUT/a.b.fts"
	case 2:
		if cmd != "stats" {
			v["out"] = "OUT/o.fits.gz"
		}
	}
	if cmd == "stats" && r.Intn(2) == 0 {
		args = append(args, fmt.Sprint("-starSig=", v["starSig"])) // -starBpSig auto means 0 here
	} else if cmd == "rgb" && r.Intn(2) == 0 {
		args = append(args, "-starSig", fmt.Sprint(v["starSig"]))
	} else if cmd == "stack" && r.Intn(2) == 0 {
		bpAuto = true
		args = append(args, "-starSig", fmt.Sprint(v["starSig"]))
	} else {
		args = append(args, "--starBpSig", "0", "-starSig", fmt.Sprint(v["starSig"]))
	}
	args = append(args, "-starRadius=8", "-lsEst", fmt.Sprint(v["lsEst"]), "-out", strings.ReplaceAll(v["out"].(string), "OUT", "cli"))
	few := r.Intn(4) == 0 // only the defaults of almost all flags
	for _, f := range flags {
		v[f.name] = f.def
		p := f.prob
		if few {
			p *= 0.1
		}
		if strings.HasSuffix(v["out"].(string), ".gz") && f.name == "jpg" { // the default name is not documented for compressed files
			p = 1
		}
		matters := strings.Contains(f.cmds, letter)
		if !matters {
			p = 0.05 // must not matter
			if f.name == "exportStats" || f.name == "log" {
				p = 0
			}
		}
		if force != "" && f.name != "jpg" {
			p /= 8
		}
		if r.Float64() >= p && f.name != force && f.name != needs[force] {
			continue
		}
		x := f.draw(r)
		if strings.HasSuffix(v["out"].(string), ".gz") && x == "%auto" {
			x = ""
		}
		v[f.name] = x
		s := strings.ReplaceAll(fmt.Sprint(x), "OUT", "cli")
		if r.Intn(2) == 0 {
			args = append(args, "-"+f.name+"="+s)
		} else {
			args = append(args, "-"+f.name, s)
		}
	}
	if v["debayer"] != "" && v["binning"] != 0 {
		v["binning"] = 0
		args = append(args, "-binning=0")
	}
	if bpAuto && v["debayer"] == "" && v["stars"] == "" && v.i("binning") < 2 && !strings.HasSuffix(v.s("alignRef", ""), ".fits") {
		v["starBpSig"] = 5.0 // documented default for single exposures; with bad pixel removal nothing is sampled at random
	} else if bpAuto {
		args = append(args, "-starBpSig=0")
	}
	return
}

func command(c *kit.C, i int, cmd, force string) {
	defer in2(c)()
	r := c.Rng
	letter := letters[cmd]
	n := 3 + r.Intn(4)
	s := jobs.Shoot(c, ".", "s", n, 90+r.Intn(40), 80+r.Intn(40))
	for k := 0; k < n && r.Intn(2) == 0; k++ { // other exposure for some
		_ = k
	}
	v, args := values(c, cmd, letter, force)
	// files which must not be taken for input
	for _, name := range []string{cmd, "stack", "cli.fits"} {
		if r.Intn(2) == 0 {
			kit.Img(0, s.W, s.H, kit.Noise(r, s.W*s.H, 1000, 100)).WriteFile(name + ".fits")
			os.Rename(name+".fits", name)
		}
	}
	inputs := []string{"s/light*.fits"}
	switch cmd {
	case "stretch":
		inputs = []string{[]string{"s/light00.fits", "s/light01.fits"}[r.Intn(2)]}
		if v["alignRef"] == "%location" {
			v["alignRef"] = "%starsHFR"
			args = append(args, "-alignRef=%starsHFR")
		}
		if force == "alignT" || force == "alignK" {
			inputs, v["alignRef"] = []string{"s/light01.fits"}, "s/light00.fits"
			args = append(args, "-alignRef=s/light00.fits")
		}
	case "rgb":
		inputs = []string{"s/light00.fits", "s/light01.fits", "s/light02.fits"}
		if n > 3 && r.Intn(2) == 0 {
			inputs = append(inputs, "s/light03.fits")
		}
	default:
		if r.Intn(2) == 0 {
			inputs = nil
			for k := 0; k < n; k++ {
				inputs = append(inputs, fmt.Sprintf("s/light%02d.fits", k))
			}
			r.Shuffle(n, func(a, b int) { inputs[a], inputs[b] = inputs[b], inputs[a] })
		}
	}
	what := fmt.Sprintf("nightlight %s %s %s", strings.Join(args, " "), cmd, strings.Join(inputs, " "))
	c.Sample("%s", what)
	wantErr := library(pipeline(cmd, v, inputs, "lib"))
	want := files("lib")
	res := cli(c, append(append(args, cmd), inputs...)...)
	got := files("cli")
	log := v.s("log", "cli")
	if log != "" {
		b, ok := got[filepath.Base(log)]
		if !ok {
			c.Fatal("%s: no log %s", what, log)
		}
		if len(b) == 0 || len(b) > len(res.stdout) || !bytes.Contains(b, []byte("light0")) {
			c.Fatal("%s: log of %d bytes, standard output has %d", what, len(b), len(res.stdout))
		}
		delete(got, filepath.Base(log))
	}
	if (wantErr != nil) != (res.code != 0) {
		c.Fatal("%s: exit status %d, but the pipeline's result is error %v; %.300s %.300s", what, res.code, wantErr, tail(res.stdout), res.stderr)
	}
	c.Seen(cmd, wantErr == nil, len(args), v["out"])
	if wantErr != nil {
		if !strings.Contains(res.stdout+res.stderr, wantErr.Error()) {
			c.Count("errors worded differently", 1)
		}
		c.Count("failing commands", 1)
		return
	}
	compare(c, what, got, want)
	c.Count("commands "+cmd, 1)

	// the same as a JSON job
	b, err := json.MarshalIndent(pipeline(cmd, v, inputs, "run"), "", " ")
	if err != nil {
		c.Fatal("job cannot be written: %v", err)
	}
	os.WriteFile("job.json", b, 0644)
	res = cli(c, fmt.Sprint("-lsEst=", v["lsEst"]), "-log=", "-job", "job.json", "run")
	if res.code != 0 {
		c.Fatal("%s: as JSON job the exit status is %d: %.300s %.300s", what, res.code, tail(res.stdout), res.stderr)
	}
	compare(c, what+" as JSON job", files("run"), want)
	c.Count("jobs", 1)
}

func tail(s string) string {
	if len(s) > 300 {
		return s[len(s)-300:]
	}
	return s
}

// frames too large for the memory given to stacking are refused, and accepted
// with more: the limit on the command line is the one the pipeline works with
func memory(c *kit.C, i int) {
	defer in2(c)()
	r := c.Rng
	kit.ExactStats()
	jobs.Shoot(c, ".", "s", 2+r.Intn(3), 380+r.Intn(80), 360+r.Intn(60))
	mem := []int{1, 4000}[i%2]
	v := V{"starRadius": 8, "starSig": 1.3, "starBpSig": 0.0, "lsEst": 0}
	for _, f := range flags {
		v[f.name] = f.def
	}
	for n, x := range map[string]interface{}{"out": "OUT/o.fits", "jpg": "", "log": "", "alignK": 0, "normHist": 0, "stMode": r.Intn(2)} {
		v[n] = x
	}
	flat := ""
	if r.Intn(2) == 0 {
		flat = "s/flat.fits"
		v["flat"] = flat
	}
	args := []string{"-lsEst=0", "-starBpSig=0", "-starRadius=8", "-starSig=1.3", "-log=", "-jpg=", "-alignK=0", "-normHist=0", fmt.Sprint("-stMode=", v["stMode"]),
		"-out=cli/o.fits", fmt.Sprint("-stMemory=", mem), "-flat=" + flat, "stack", "s/light*.fits"}
	ctx, _ := kit.Context()
	ctx.StackMemoryMB = mem
	ps, err := pipeline("stack", v, []string{"s/light*.fits"}, "lib").MakePromises(nil, ctx)
	if err == nil {
		_, err = ops.MaterializeAll(ps, ctx.MaxThreads, true)
	}
	res := cli(c, args...)
	if (err != nil) != (res.code != 0) {
		c.Fatal("nightlight %s: exit status %d, but the pipeline's result with this limit is error %v", strings.Join(args, " "), res.code, err)
	}
	c.Seen("memory", mem, err == nil)
	c.Sample("%d MB: error %v", mem, err)
	if err == nil {
		compare(c, "nightlight "+strings.Join(args, " "), files("cli"), files("lib"))
	}
}

// commands which must fail, and say so
func failing(c *kit.C, i int) {
	defer in2(c)()
	kit.ExactStats()
	r := c.Rng
	s := jobs.Shoot(c, ".", "s", 4, 90, 80)
	_ = s
	os.WriteFile("junk.fits", []byte("SIMPLE  = nothing"), 0644)
	b, _ := os.ReadFile("s/light01.fits")
	os.WriteFile("cut.fits", b[:len(b)/2], 0644)
	kit.Img(0, 40, 30, kit.Noise(r, 1200, 100, 3)).WriteFile("small.fits")
	base := []string{"-lsEst=0", "-starBpSig=0", "-starRadius=8", "-starSig=1.3", "-log="}
	job := func(op ops.Operator) string {
		b, _ := json.Marshal(op)
		os.WriteFile("job.json", b, 0644)
		return "job.json"
	}
	os.WriteFile("bad.json", []byte(`{"type":"seq","steps":[{"type":"load"`), 0644)
	os.WriteFile("unknown.json", []byte(`{"type":"seq","steps":[{"type":"loadMany","filePatterns":["s/light*.fits"]},{"type":"noSuchStep"}]}`), 0644)
	all := []string{"s/light00.fits", "s/light01.fits", "s/light02.fits"}
	bad := []string{"s/light00.fits", "s/light01.fits", []string{"junk.fits", "cut.fits"}[r.Intn(2)]}
	type tc struct {
		name string
		args []string
	}
	out := "-out=cli/o.fits"
	a := func(x ...interface{}) (o []string) {
		o = append(o, base...)
		for _, y := range x {
			switch z := y.(type) {
			case string:
				o = append(o, z)
			case []string:
				o = append(o, z...)
			}
		}
		return
	}
	ts := []tc{
		{"no input", a(out, "stack")},
		{"no input stats", a(out, "stats")},
		{"missing input", a(out, "stack", "s/none*.fits")},
		{"damaged input stack", a(out, "stack", bad)},
		{"damaged input stats", a(out, "stats", bad)},
		{"damaged input rgb", a(out, "rgb", bad)},
		{"damaged input stretch", a(out, "stretch", bad[2])},
		{"one input for rgb", a(out, "rgb", all[:1])},
		{"two inputs for rgb", a(out, "rgb", all[:2])},
		{"output folder missing", a("-out=none/o.fits", "-jpg=", "stack", all)},
		{"unknown output format", a("-out=cli/o.xyz", "-jpg=", "stack", all)},
		{"preview folder missing", a(out, "-jpg=none/o.jpg", "stack", all)},
		{"tiff folder missing", a(out, "-jpg=", "-tiff=none/o.tif", "stack", all)},
		{"dark missing", a(out, "-dark=none.fits", "stack", all)},
		{"flat missing", a(out, "-flat=none.fits", "stats", all)},
		{"dark of another size", a(out, "-dark=small.fits", "stack", all)},
		{"reference missing", a(out, "-alignRef=none.fits", "stack", all)},
		{"batch file not writable", a(out, "-batch=none/b%d.fits", "stack", all)},
		{"pre file not writable", a(out, "-pre=none/b%d.fits", "stats", all)},
		{"statistics not writable", a(out, "-exportStats=none/b.html", "stats", all)},
		{"unknown command", a(out, "stak", all)},
		{"unknown flag", a(out, "-noSuchFlag=1", "stack", all)},
		{"value of another kind", a(out, "-stMode=mean", "stack", all)},
		{"invalid stacking mode", a(out, "-stMode=99", "stack", all)},
		{"job missing", a("-job=none.json", "run")},
		{"job damaged", a("-job=bad.json", "run")},
		{"job with unknown step", a("-job=unknown.json", "run")},
		{"job without file", a("run")},
		{"failing job", a("-job="+job(ops.NewOpSequence(ops.NewOpLoadMany(bad), ops.NewOpSave("run/o%d.fits", ops.EMMinMax, 1))), "run")},
		{"log not writable", append(base[:4:4], out, "-log=none/x.log", "stats", all[0])},
	}
	t := ts[i%len(ts)]
	res := cli(c, t.args...)
	if res.code == 0 {
		c.Fatal("%s: nightlight %s exits with status 0; %s", t.name, strings.Join(t.args, " "), tail(res.stdout))
	}
	if len(res.stdout)+len(res.stderr) == 0 {
		c.Fatal("%s: nightlight %s fails without a word", t.name, strings.Join(t.args, " "))
	}
	c.Count("failures reported", 1)
	c.Seen("failing", t.name, i/len(ts))
}

// commands which print something
func informing(c *kit.C, i int) {
	defer in2(c)()
	for _, cmd := range []string{"version", "legal", "help", "?"} {
		res := cli(c, "-out=cli/x.fits", "-log=", cmd)
		if res.code != 0 || len(res.stdout)+len(res.stderr) < 5 {
			c.Fatal("%s: exit status %d, output %q %q", cmd, res.code, res.stdout, res.stderr)
		}
		if f := files("cli"); len(f) != 0 {
			c.Fatal("%s leaves files %v", cmd, names(f))
		}
	}
	c.Count("information commands", 4)
	c.Seen("informing")
}

func main() {
	kit.Main("C33", "one evaluation = one command line run of the real program compared with the library pipeline; distinct = commands x outcomes x flag counts, failures", func(k *kit.K) {
		kit.ExactStats()
		if os.Getenv("VK_TOOL_NIGHTLIGHT") == "" {
			panic("VK: no binary")
		}
		for i := 0; i < k.N(24, 500); i++ {
			for _, cmd := range []string{"stats", "stack", "stretch", "rgb"} {
				k.Case(fmt.Sprintf("%s/%d", cmd, i), func(c *kit.C) { command(c, i, cmd, "") })
			}
		}
		for i := 0; i < k.N(62, 310); i++ {
			k.Case(fmt.Sprintf("failing/%d", i), func(c *kit.C) { failing(c, i) })
		}
		for i := 100; i < 100+k.N(6, 30); i++ {
			k.Case(fmt.Sprintf("only/stretch/alignT/%d", i), func(c *kit.C) { command(c, i, "stretch", "alignT") })
			k.Case(fmt.Sprintf("only/stack/alignT/%d", i), func(c *kit.C) { command(c, i, "stack", "alignT") })
		}
		for i := 0; i < k.N(2, 16); i++ { // one flag at a time, with next to nothing else given
			for _, cmd := range []string{"stats", "stack", "stretch", "rgb"} {
				for _, f := range flags {
					if strings.Contains(f.cmds, letters[cmd]) {
						i, cmd, f := i, cmd, f
						k.Case(fmt.Sprintf("only/%s/%s/%d", cmd, f.name, i), func(c *kit.C) { command(c, i, cmd, f.name) })
					}
				}
			}
		}
		for i := 0; i < k.N(4, 40); i++ {
			k.Case(fmt.Sprintf("memory/%d", i), func(c *kit.C) { memory(c, i) })
		}
		k.Case("informing", func(c *kit.C) { informing(c, 0) })
	})
}
